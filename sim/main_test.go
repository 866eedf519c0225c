package verifsim

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"syscall"
	"testing"
	"time"

	"github.com/codeallergy/value"
	"verifsim/coop"
	"verifsim/core"
	"verifsim/scen"
	"verifsim/simhook"
)

// The worker: one process that runs simulated runs for the supervisor
// (cmd/check). The mode and its arguments come in the environment.

type violOut struct {
	Idx   uint64      `json:"idx"`
	Seed  uint64      `json:"seed"`
	Class string      `json:"class"`
	Msg   string      `json:"msg"`
	Rec   []uint32    `json:"rec"`
	Spans []core.Span `json:"spans"`
}

type out struct {
	Runs     int64            `json:"runs"`
	Next     uint64           `json:"next"`
	Cut      int64            `json:"cut"`
	Stats    map[string]int64 `json:"stats"`
	SimUS    int64            `json:"sim_us"`
	Steps    int64            `json:"steps"`
	Draws    int64            `json:"draws"`
	Viol     *violOut         `json:"viol,omitempty"`
	Err      string           `json:"err,omitempty"`
	Digests  []string         `json:"digests,omitempty"`
	Log      []string         `json:"log,omitempty"`
	Attempts int              `json:"attempts,omitempty"`
	Trivial  int64            `json:"trivial"`
	Info     *info            `json:"info,omitempty"`
}

type info struct {
	Name, Rule, Real, Stub string
	Batch                  int
}

type input struct {
	Seed   uint64      `json:"seed"`
	Idx    uint64      `json:"idx"`
	Rec    []uint32    `json:"rec"`
	UseRec bool        `json:"use_rec"`
	Spans  []core.Span `json:"spans"`
	Class  string      `json:"class"`
	From   uint64      `json:"from"` // run these indexes first (0,0: none)
	To     uint64      `json:"to"`
	Idxs   []uint64    `json:"idxs"`
	DumpTo string      `json:"dump_to"`
}

func env(k string) string { return os.Getenv("VS_" + k) }
func envU(k string) uint64 {
	v, _ := strconv.ParseUint(env(k), 10, 64)
	return v
}

func TestSim(t *testing.T) {
	if env("MODE") == "" {
		t.Skip("worker binary; run by bin/check")
	}
	scen.T = t
	w := scen.Worlds[env("PROP")]
	if w == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", env("PROP"))
		os.Exit(3)
	}
	debug.SetGCPercent(-1)
	debug.SetMaxStack(512 << 20)
	debug.SetMemoryLimit(3 << 30)
	if !core.RaceBuild {
		lim := syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	cl := syscall.Rlimit{}
	syscall.Setrlimit(syscall.RLIMIT_CORE, &cl)
	cfg := core.Env{Race: core.RaceBuild, Tier: env("TIER")}
	base := envU("BASE")
	res := &out{Stats: map[string]int64{}}
	var in input
	if p := env("IN"); p != "" {
		b, err := os.ReadFile(p)
		if err == nil {
			err = json.Unmarshal(b, &in)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "bad input:", err)
			os.Exit(3)
		}
	}
	switch env("MODE") {
	case "info":
		res.Info = &info{w.Name, w.Rule, w.Real, w.Stub, w.Batch}
	case "batch":
		batch(w, base, cfg, res)
	case "one": // replay one run, verbosely
		if in.To > in.From {
			for i := in.From; i < in.To; i++ {
				s := core.New(w.Prop, core.RunSeed(base, w.Prop, i), nil, cfg)
				run(w, s)
			}
		}
		var rec []uint32
		if in.UseRec {
			rec = in.Rec
			if rec == nil {
				rec = []uint32{}
			}
		}
		s := core.New(w.Prop, in.Seed, rec, cfg)
		s.Verbose = true
		if in.DumpTo != "" {
			f, err := os.Create(in.DumpTo)
			if err == nil {
				s.Dump = f
			}
		}
		_, err := run(w, s)
		finish(res, s, err, in.Idx)
		res.Log = s.Log()
		if n := len(res.Log); n > 4000 {
			res.Log = append(res.Log[:2000:2000], res.Log[n-2000:]...)
		}
		res.Digests = []string{digest(s)}
	case "digests":
		for _, i := range in.Idxs {
			s := core.New(w.Prop, core.RunSeed(base, w.Prop, i), nil, cfg)
			_, err := run(w, s)
			if err != nil {
				res.Err = err.Error()
				break
			}
			res.Digests = append(res.Digests, digest(s))
		}
	case "shrink":
		n := 0
		var bestSoFar []uint32
		best, _ := core.Shrink(in.Rec, in.Spans, func(c []uint32) ([]uint32, []core.Span, bool) {
			n++
			s := core.New(w.Prop, in.Seed, c, cfg)
			_, err := run(w, s)
			ok := err == nil && s.Viol != nil && s.Viol.Class == in.Class
			if ok && (bestSoFar == nil || len(s.Rec) <= len(bestSoFar)) {
				// a later attempt may end the process
				bestSoFar = append(bestSoFar[:0], s.Rec...)
				b, _ := json.Marshal(&out{Viol: &violOut{Rec: s.Rec}, Attempts: n})
				os.WriteFile(env("OUT"), b, 0o644)
			}
			return s.Rec, s.Spans, ok
		}, 4000, time.Duration(envU("BUDGET_MS"))*time.Millisecond)
		res.Viol = &violOut{Rec: best}
		res.Attempts = n
	}
	b, _ := json.Marshal(res)
	if err := os.WriteFile(env("OUT"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Exit(0)
}

func digest(s *core.Sim) string {
	h := s.Trace()
	for _, r := range s.Rec {
		h = (h ^ uint64(r)) * 1099511628211
	}
	v := ""
	if s.Viol != nil {
		v = s.Viol.Class
	}
	if s.Stats[coop.Lost] > 0 {
		v += "-own"
	}
	return fmt.Sprintf("%x-%x-%d-%d-%s", h, s.Obs, s.Now, len(s.Rec), v)
}

func finish(res *out, s *core.Sim, err error, idx uint64) {
	if err != nil {
		res.Err = err.Error()
	}
	if s.Viol != nil && err == nil {
		res.Viol = &violOut{Idx: idx, Seed: s.Seed, Class: s.Viol.Class, Msg: s.Viol.Msg, Rec: s.Rec, Spans: s.Spans}
	}
	for k, v := range s.Stats {
		res.Stats[k] += v
	}
	res.SimUS += s.Now
	res.Steps += s.Steps
	res.Draws += int64(len(s.Rec))
}

// run executes one simulated run under a fixed runtime seed.
func run(w *scen.World, s *core.Sim) (bool, error) {
	value.AllowFastAppends = true
	simhook.Seed(core.Mix(s.Seed ^ 0x5eed))
	cut, err := core.Exec(w.Run, s)
	simhook.SetCur(nil)
	simhook.Seed(0)
	return cut, err
}

func batch(w *scen.World, base uint64, cfg core.Env, res *out) {
	from, n := envU("FROM"), envU("N")
	deadline := time.UnixMilli(int64(envU("DEADLINE")))
	pf, err := os.OpenFile(env("PROGRESS"), os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var traces []byte
	var ms runtime.MemStats
	var pb [8]byte
	i := from
	for ; i < from+n; i++ {
		if (i-from)%16 == 0 {
			if time.Now().After(deadline) {
				break
			}
			if (i-from)%64 == 0 {
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > 96<<20 {
					runtime.GC()
				}
			}
		}
		binary.LittleEndian.PutUint64(pb[:], i+1)
		pf.WriteAt(pb[:], 0)
		s := core.New(w.Prop, core.RunSeed(base, w.Prop, i), nil, cfg)
		cut, err := run(w, s)
		res.Runs++
		if cut {
			res.Cut++
			continue
		}
		traces = binary.LittleEndian.AppendUint64(traces, s.Trace())
		if s.Trivial {
			res.Trivial++
			traces = traces[:len(traces)-8]
		}
		finish(res, s, err, i)
		if err != nil || s.Viol != nil {
			if err != nil {
				res.Err = fmt.Sprintf("run %d: %v", i, err)
			}
			i++
			break
		}
		if scen.Exhausted() {
			i++
			break
		}
	}
	res.Next = i
	os.WriteFile(env("OUT")+".traces", traces, 0o644)
}
