// check searches simulated runs of one property for a violation, with worker
// processes built from the library's current tree, and reports what it found.
package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verifsim/core"
)

type viol struct {
	Idx   uint64      `json:"idx"`
	Seed  uint64      `json:"seed"`
	Class string      `json:"class"`
	Msg   string      `json:"msg"`
	Rec   []uint32    `json:"rec"`
	Spans []core.Span `json:"spans"`
}

type result struct {
	Runs     int64            `json:"runs"`
	Next     uint64           `json:"next"`
	Cut      int64            `json:"cut"`
	Stats    map[string]int64 `json:"stats"`
	SimUS    int64            `json:"sim_us"`
	Steps    int64            `json:"steps"`
	Draws    int64            `json:"draws"`
	Viol     *viol            `json:"viol"`
	Err      string           `json:"err"`
	Digests  []string         `json:"digests"`
	Log      []string         `json:"log"`
	Attempts int              `json:"attempts"`
	Trivial  int64            `json:"trivial"`
	Info     *info            `json:"info"`
}

type info struct {
	Name, Rule, Real, Stub string
	Batch                  int
}

// Replay is the file a violation is reported with.
type Replay struct {
	Property string   `json:"property"`
	Kind     string   `json:"kind"` // worker binary
	Base     uint64   `json:"base_seed"`
	Idx      uint64   `json:"idx"`
	Seed     uint64   `json:"seed"`
	UseRec   bool     `json:"use_rec"`
	Rec      []uint32 `json:"rec"`
	From     uint64   `json:"from"` // runs to repeat first in the same process
	To       uint64   `json:"to"`
	Class    string   `json:"class"`
	Msg      string   `json:"message"`
	Minimal  bool     `json:"minimised"`
	Log      []string `json:"trace"`
}

type finding struct {
	Prop, Class, Match, Text string
}

// kinds of worker binaries for each property
func kindsOf(prop string) []string {
	switch prop {
	case "C05", "C06", "C08", "C09", "C10", "C11":
		return []string{"inst", "race"}
	case "C04":
		return []string{"plain", "inst"}
	}
	return []string{"plain"}
}

var (
	root  string
	prop  string
	tier  string
	base  uint64
	tmp   string
	known []finding
)

func fatal(code int, f string, a ...any) {
	fmt.Fprintf(os.Stderr, "check "+prop+": "+f+"\n", a...)
	if tmp != "" {
		os.RemoveAll(tmp)
	}
	os.Exit(code)
}

type proc struct {
	cmd      *exec.Cmd
	dir      string
	kind     string
	from     uint64
	started  time.Time
	lastProg uint64
	lastMove time.Time
	done     chan struct{}
}

var seq int

func start(kind, mode string, env map[string]string, in any, procs int) *proc {
	seq++
	dir := filepath.Join(tmp, fmt.Sprintf("w%d", seq))
	os.MkdirAll(dir, 0o755)
	p := &proc{dir: dir, kind: kind, started: time.Now(), lastMove: time.Now(), done: make(chan struct{})}
	cmd := exec.Command(filepath.Join(root, "build", kind+".bin"), "-test.run=TestSim", "-test.timeout=0")
	cmd.Dir = dir
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir, "TMPDIR=" + dir,
		"GOMAXPROCS=" + strconv.Itoa(procs), "GOTRACEBACK=single",
		"VS_MODE=" + mode, "VS_PROP=" + prop, "VS_TIER=" + tier,
		"VS_BASE=" + strconv.FormatUint(base, 10),
		"VS_OUT=" + filepath.Join(dir, "out.json"),
		"VS_PROGRESS=" + filepath.Join(dir, "progress")}
	if kind == "race" {
		rl := filepath.Join(dir, "race")
		cmd.Env = append(cmd.Env, "GORACE=halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 atexit_sleep_ms=0 history_size=4 log_path="+rl, "VS_RACELOG="+rl)
	}
	for k, v := range env {
		cmd.Env = append(cmd.Env, "VS_"+k+"="+v)
	}
	if in != nil {
		b, _ := json.Marshal(in)
		f := filepath.Join(dir, "in.json")
		os.WriteFile(f, b, 0o644)
		cmd.Env = append(cmd.Env, "VS_IN="+f)
	}
	ef, err := os.Create(filepath.Join(dir, "stderr"))
	if err != nil {
		fatal(2, "%v", err)
	}
	cmd.Stdout, cmd.Stderr = ef, ef
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		fatal(2, "cannot start worker: %v", err)
	}
	ef.Close()
	p.cmd = cmd
	go func() { cmd.Wait(); close(p.done) }()
	return p
}

func (p *proc) kill() {
	syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
}

func (p *proc) result() *result {
	b, err := os.ReadFile(filepath.Join(p.dir, "out.json"))
	if err != nil {
		return nil
	}
	r := &result{}
	if json.Unmarshal(b, r) != nil {
		return nil
	}
	return r
}

func (p *proc) progress() uint64 {
	b, err := os.ReadFile(filepath.Join(p.dir, "progress"))
	if err != nil || len(b) < 8 {
		return 0
	}
	return binary.LittleEndian.Uint64(b)
}

func (p *proc) stderr() string {
	f, err := os.Open(filepath.Join(p.dir, "stderr"))
	if err != nil {
		return ""
	}
	defer f.Close()
	b := make([]byte, 64<<10)
	n, _ := f.Read(b)
	return string(b[:n])
}

func (p *proc) cleanup() { os.RemoveAll(p.dir) }

// wait waits with a limit; ok is false if it had to be killed.
func (p *proc) wait(limit time.Duration) (ok bool) {
	select {
	case <-p.done:
		return true
	case <-time.After(limit):
		p.kill()
		<-p.done
		return false
	}
}

var fatalRE = regexp.MustCompile(`(?m)^(fatal error: .*|runtime: goroutine stack exceeds.*|panic: .*|SIGSEGV.*|unexpected fault address.*)$`)

// crashMsg describes the death of a worker; lib says whether the library was
// running.
func crashMsg(stderr string) (msg string, lib bool) {
	m := fatalRE.FindString(stderr)
	if m == "" {
		m = "process died: " + core.Clip(strings.TrimSpace(stderr), 300)
	}
	lines := strings.Split(stderr, "\n")
	site := ""
	n := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "github.com/codeallergy/value.") {
			if site == "" && i+1 < len(lines) {
				f := l
				if j := strings.IndexByte(f, '('); j > 0 && !strings.HasPrefix(f[j:], "(*") {
					f = f[:j]
				}
				site = strings.TrimPrefix(core.Clip(f, 120), "github.com/codeallergy/")
			}
			n++
		}
	}
	if site != "" {
		m += " in " + site
	}
	return m, n > 0
}

type runIn struct {
	Seed   uint64      `json:"seed"`
	Idx    uint64      `json:"idx"`
	Rec    []uint32    `json:"rec"`
	UseRec bool        `json:"use_rec"`
	Spans  []core.Span `json:"spans"`
	Class  string      `json:"class"`
	From   uint64      `json:"from"`
	To     uint64      `json:"to"`
	Idxs   []uint64    `json:"idxs"`
	DumpTo string      `json:"dump_to"`
}

// one executes a single run in a fresh process.
func one(kind string, in runIn, limit time.Duration) (class, msg string, r *result, err error) {
	p := start(kind, "one", nil, in, 1)
	defer p.cleanup()
	if !p.wait(limit) {
		return "hang", fmt.Sprintf("the run does not end (killed after %v)", limit), nil, nil
	}
	r = p.result()
	if r == nil {
		m, lib := crashMsg(p.stderr())
		if !lib {
			return "", "", nil, fmt.Errorf("worker died outside the library: %s\n%s", m, core.Clip(p.stderr(), 4000))
		}
		return "crash", m, nil, nil
	}
	if r.Err != "" {
		return "", "", r, fmt.Errorf("%s", r.Err)
	}
	if r.Viol != nil {
		return r.Viol.Class, r.Viol.Msg, r, nil
	}
	return "", "", r, nil
}

// settle minimises a violation and confirms that its replay file reproduces it
// in a fresh process.
func settle(kind, class, msg string, v *viol, batchFrom uint64) *Replay {
	fmt.Fprintf(os.Stderr, "check %s: candidate violation in run %d (%s worker, seed %d): %s: %s\n", prop, v.Idx, kind, v.Seed, class, msg)
	limit := 90 * time.Second
	rp := &Replay{Property: prop, Kind: kind, Base: base, Idx: v.Idx, Seed: v.Seed, Class: class, Msg: msg}
	confirm := func(in runIn) bool {
		for i := 0; i < 2; i++ {
			c, m, r, err := one(kind, in, limit)
			if err != nil || c != class {
				fmt.Fprintf(os.Stderr, "check %s: not reproduced (got %q %v)\n", prop, c, err)
				return false
			}
			rp.Msg = m
			if r != nil {
				rp.Log = r.Log
			}
		}
		return true
	}
	crash := class == "crash" || class == "hang"
	var rec []uint32
	if crash {
		// recover the choices the run made before it died
		limit = 25 * time.Second
		df := filepath.Join(tmp, "dump")
		c, m, _, err := one(kind, runIn{Seed: v.Seed, Idx: v.Idx, DumpTo: df}, limit)
		if err != nil || c != class {
			fmt.Fprintf(os.Stderr, "check %s: run %d alone gives %q %s %v\n", prop, v.Idx, c, m, err)
		} else {
			b, _ := os.ReadFile(df)
			for i := 0; i+4 <= len(b); i += 4 {
				rec = append(rec, binary.LittleEndian.Uint32(b[i:]))
			}
			rp.Msg = m
			budget := 40 * time.Second
			lim := 10 * time.Second
			best, n := core.Shrink(rec, nil, func(c []uint32) ([]uint32, []core.Span, bool) {
				os.Remove(df)
				cl, _, _, err := one(kind, runIn{Seed: v.Seed, Idx: v.Idx, Rec: c, UseRec: true, DumpTo: df}, lim)
				if err != nil || cl != class {
					return nil, nil, false
				}
				var r []uint32
				b, _ := os.ReadFile(df)
				for i := 0; i+4 <= len(b); i += 4 {
					r = append(r, binary.LittleEndian.Uint32(b[i:]))
				}
				return r, nil, true
			}, 600, budget)
			fmt.Fprintf(os.Stderr, "check %s: minimised %d choices to %d in %d attempts\n", prop, len(rec), len(best), n)
			if confirm(runIn{Seed: v.Seed, Idx: v.Idx, Rec: best, UseRec: true}) {
				rp.Rec, rp.UseRec, rp.Minimal = best, true, true
				return rp
			}
		}
	} else {
		rec = v.Rec
		p := start(kind, "shrink", map[string]string{"BUDGET_MS": "20000"}, runIn{Seed: v.Seed, Idx: v.Idx, Rec: v.Rec, Spans: v.Spans, Class: class}, 1)
		p.wait(90 * time.Second)
		if r := p.result(); r != nil && r.Viol != nil {
			fmt.Fprintf(os.Stderr, "check %s: minimised %d choices to %d in %d attempts\n", prop, len(v.Rec), len(r.Viol.Rec), r.Attempts)
			if confirm(runIn{Seed: v.Seed, Idx: v.Idx, Rec: r.Viol.Rec, UseRec: true}) {
				p.cleanup()
				rp.Rec, rp.UseRec, rp.Minimal = r.Viol.Rec, true, true
				return rp
			}
		}
		p.cleanup()
	}
	if rec != nil && confirm(runIn{Seed: v.Seed, Idx: v.Idx, Rec: rec, UseRec: true}) {
		rp.Rec, rp.UseRec = rec, true
		return rp
	}
	if confirm(runIn{Seed: v.Seed, Idx: v.Idx}) {
		return rp
	}
	// it may need what earlier runs of the same process left behind
	if limit = 180 * time.Second; class == "hang" {
		limit = 60 * time.Second
	}
	for _, n := range []uint64{1, 8, 64, 1 << 40} {
		from := batchFrom
		if v.Idx-from > n {
			from = v.Idx - n
		}
		if from == v.Idx {
			break
		}
		if confirm(runIn{Seed: v.Seed, Idx: v.Idx, From: from, To: v.Idx}) {
			rp.From, rp.To = from, v.Idx
			return rp
		}
		if from == batchFrom {
			break
		}
	}
	return nil
}

func loadKnown() {
	b, err := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return
	}
	re := regexp.MustCompile(`^known: property=(\S+) class=(\S+) match="([^"]*)" (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil {
			known = append(known, finding{m[1], m[2], m[3], m[4]})
		}
	}
}

func isKnown(class, msg string) *finding {
	for i, k := range known {
		if k.Prop == prop && k.Class == class && k.Match != "" && strings.Contains(msg, k.Match) {
			return &known[i]
		}
	}
	return nil
}

type totals struct {
	runs, cut, trivial, simUS, steps, draws int64
	stats                                   map[string]int64
	byKind                                  map[string]int64
	traces                                  []uint64
	batches                                 int64
}

func main() {
	exe, _ := os.Executable()
	root = filepath.Dir(filepath.Dir(exe))
	if len(os.Args) < 3 {
		fatal(2, "usage: check.bin check PROPERTY | replay FILE")
	}
	tier = os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	base = 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			iv, err2 := strconv.ParseInt(s, 10, 64)
			if err2 != nil {
				fatal(2, "bad VERIF_SEED %q", s)
			}
			v = uint64(iv)
		}
		base = v
	}
	var err error
	tmp, err = os.MkdirTemp("", "vsim-")
	if err != nil {
		fatal(2, "%v", err)
	}
	loadKnown()
	switch os.Args[1] {
	case "kinds":
		prop = os.Args[2]
		os.RemoveAll(tmp)
		fmt.Println(strings.Join(kindsOf(prop), " "))
	case "replay":
		replay(os.Args[2])
	case "check":
		prop = os.Args[2]
		check()
	}
}

func replay(file string) {
	b, err := os.ReadFile(file)
	var rp Replay
	if err == nil {
		err = json.Unmarshal(b, &rp)
	}
	if err != nil {
		fatal(2, "%v", err)
	}
	prop, base = rp.Property, rp.Base
	class, msg, r, err := one(rp.Kind, runIn{Seed: rp.Seed, Idx: rp.Idx, Rec: rp.Rec, UseRec: rp.UseRec, From: rp.From, To: rp.To}, 180*time.Second)
	if r != nil {
		for _, l := range r.Log {
			fmt.Println(l)
		}
	}
	os.RemoveAll(tmp)
	if err != nil {
		fatal(2, "%v", err)
	}
	if class == "" {
		fmt.Println("the run ends without a violation")
		os.Exit(0)
	}
	fmt.Printf("%s: %s\n", class, msg)
	if class == rp.Class {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
	}
	os.Exit(1)
}

func check() {
	begin := time.Now()
	kinds := kindsOf(prop)
	budget := 90 * time.Second
	if tier == "thorough" {
		budget = 600 * time.Second
	}
	if s := os.Getenv("VS_SECONDS"); s != "" {
		n, _ := strconv.Atoi(s)
		budget = time.Duration(n) * time.Second
	}
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	if workers < 2 {
		workers = 2
	}
	inf := getInfo(kinds[0])
	batch := uint64(inf.Batch)
	if batch == 0 {
		batch = 4000
	}
	deadline := begin.Add(budget)
	tot := &totals{stats: map[string]int64{}, byKind: map[string]int64{}}
	next := map[string]uint64{}
	for i, k := range kinds {
		next[k] = uint64(i) << 40
	}
	knownHit := map[string]*finding{}
	var ps []*proc
	kindFor := func(slot int) string {
		if len(kinds) == 2 && slot%2 == 1 {
			return kinds[1]
		}
		return kinds[0]
	}
	launch := func(slot int) *proc {
		k := kindFor(slot)
		n := batch
		if k == "race" {
			n = batch / 4
		}
		from := next[k]
		next[k] += n
		tot.batches++
		p := start(k, "batch", map[string]string{"FROM": strconv.FormatUint(from, 10), "N": strconv.FormatUint(n, 10),
			"DEADLINE": strconv.FormatInt(deadline.UnixMilli(), 10)}, nil, 1)
		p.from = from
		return p
	}
	for i := 0; i < workers; i++ {
		ps = append(ps, launch(i))
	}
	type cand struct {
		kind, class, msg string
		v                *viol
		from             uint64
	}
	var found *cand
	var rejected []string
	stopAll := func() {
		for _, p := range ps {
			if p != nil {
				p.kill()
				<-p.done
				p.cleanup()
			}
		}
		ps = nil
	}
	handle := func(c *cand) {
		if k := isKnown(c.class, c.msg); k != nil {
			knownHit[k.Prop+k.Class+k.Match] = k
			return
		}
		if found == nil {
			found = c
		}
	}
	for {
		live := 0
		for slot, p := range ps {
			if p == nil {
				continue
			}
			select {
			case <-p.done:
				r := p.result()
				if r == nil {
					idx := p.progress()
					if idx == 0 {
						e := p.stderr()
						stopAll()
						fatal(2, "worker died before its first run:\n%s", core.Clip(e, 6000))
					}
					idx--
					m, lib := crashMsg(p.stderr())
					if !lib {
						e := p.stderr()
						stopAll()
						fatal(2, "worker died in run %d outside the library: %s\n%s", idx, m, core.Clip(e, 6000))
					}
					handle(&cand{p.kind, "crash", m, &viol{Idx: idx, Seed: core.RunSeed(base, prop, idx)}, p.from})
				} else {
					if r.Err != "" {
						stopAll()
						fatal(2, "simulator error: %s", r.Err)
					}
					tot.add(r, p)
					if r.Viol != nil {
						handle(&cand{p.kind, r.Viol.Class, r.Viol.Msg, r.Viol, p.from})
					}
				}
				p.cleanup()
				ps[slot] = nil
				if found == nil && time.Now().Before(deadline) {
					ps[slot] = launch(slot)
					live++
				}
			default:
				live++
				if g := p.progress(); g != p.lastProg {
					p.lastProg, p.lastMove = g, time.Now()
				} else if time.Since(p.lastMove) > 45*time.Second {
					p.kill()
					<-p.done
					idx := p.progress()
					if idx == 0 {
						stopAll()
						fatal(2, "worker hangs before its first run")
					}
					handle(&cand{p.kind, "hang", "no progress for 45 s", &viol{Idx: idx - 1, Seed: core.RunSeed(base, prop, idx-1)}, p.from})
					p.cleanup()
					ps[slot] = nil
					live--
				}
			}
		}
		if found != nil {
			c := found
			stopAll()
			rp := settle(c.kind, c.class, c.msg, c.v, c.from)
			if rp == nil {
				rejected = append(rejected, fmt.Sprintf("%s run %d: %s: %s", c.kind, c.v.Idx, c.class, c.msg))
				if len(rejected) >= 3 || time.Since(begin) > 6*time.Minute {
					fatal(2, "a violation did not reproduce: %s", rejected[0])
				}
				// it may show itself again in a way that does
				fmt.Fprintf(os.Stderr, "check %s: the search goes on\n", prop)
				found = nil
				if d := time.Now().Add(50 * time.Second); deadline.Before(d) {
					deadline = d
				}
				for i := 0; i < workers; i++ {
					ps = append(ps, launch(i))
				}
				continue
			}
			if k := isKnown(rp.Class, rp.Msg); k != nil {
				// the same as a listed finding, seen more clearly
				knownHit[k.Prop+k.Class+k.Match] = k
				found = nil
				if time.Now().Before(deadline) {
					for i := 0; i < workers; i++ {
						ps = append(ps, launch(i))
					}
					continue
				}
				break
			}
			dir := filepath.Join(root, "replays")
			os.MkdirAll(dir, 0o755)
			f := filepath.Join(dir, fmt.Sprintf("%s-%s-%x.json", prop, rp.Class, rp.Seed))
			b, _ := json.MarshalIndent(rp, "", " ")
			if err := os.WriteFile(f, b, 0o644); err != nil {
				fatal(2, "%v", err)
			}
			evidence(begin, inf, tot, kinds, 1, []any{map[string]any{"violation": rp.Class, "message": rp.Msg, "seed": rp.Seed, "trace": clipLog(rp.Log, 80)}}, nil)
			fmt.Printf("%s: %s\n", rp.Class, rp.Msg)
			for _, l := range clipLog(rp.Log, 60) {
				fmt.Println("  " + l)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
			os.RemoveAll(tmp)
			os.Exit(1)
		}
		if live == 0 {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	if len(rejected) > 0 {
		fatal(2, "a violation did not reproduce: %s", rejected[0])
	}
	if tot.runs == 0 {
		fatal(2, "nothing was run")
	}
	// determinism: the same seeds again, in other processes and with other
	// degrees of parallelism, must give the same executions
	det := map[string]any{}
	checked, history, own := 0, 0, 0
	for _, k := range kinds {
		var idxs []uint64
		lo := next[k] >> 40 << 40
		n := next[k] - lo
		r := core.NewRNG(base + 99)
		for i := 0; i < 60; i++ {
			idxs = append(idxs, lo+r.U64()%n)
		}
		var ds [][]string
		for _, procs := range []int{1, 4, 2} {
			p := start(k, "digests", nil, runIn{Idxs: idxs}, procs)
			if !p.wait(120 * time.Second) {
				fatal(2, "determinism check hangs")
			}
			res := p.result()
			if res == nil || res.Err != "" {
				fatal(2, "determinism check fails: %v %s", res, core.Clip(p.stderr(), 3000))
			}
			ds = append(ds, res.Digests)
			p.cleanup()
			// the second pass in another order, so that no run depends on
			// what ran before it
			if len(ds) == 1 {
				for i, j := 0, len(idxs)-1; i < j; i, j = i+1, j-1 {
					idxs[i], idxs[j] = idxs[j], idxs[i]
				}
			}
		}
	runs:
		for i := range idxs {
			j := len(idxs) - 1 - i
			if ds[0][j] == ds[1][i] && ds[1][i] == ds[2][i] {
				checked++
				continue
			}
			// does it depend on the runs before it (the library keeps
			// something), or is it not deterministic at all?
			alone := ""
			for _, procs := range []int{1, 4, 1, 2} {
				p := start(k, "digests", nil, runIn{Idxs: idxs[i : i+1]}, procs)
				if !p.wait(120 * time.Second) {
					fatal(2, "determinism check hangs")
				}
				res := p.result()
				if res == nil || res.Err != "" {
					fatal(2, "determinism check fails: %v %s", res, core.Clip(p.stderr(), 3000))
				}
				p.cleanup()
				if alone == "" {
					alone = res.Digests[0]
				}
				if res.Digests[0] != alone && (strings.HasSuffix(alone, "-own") || strings.HasSuffix(res.Digests[0], "-own")) {
					// the library's own goroutines run on their own when there
					// is more than one processor; workers have one
					own++
					continue runs
				}
				if res.Digests[0] != alone {
					fatal(2, "run %d (%s worker) is not deterministic: %s / %s alone in a process, %s / %s / %s among others", idxs[i], k, alone, res.Digests[0], ds[0][j], ds[1][i], ds[2][i])
				}
			}
			history++
		}
	}
	det["runs_repeated_in_3_processes_with_equal_digest"] = checked
	if history > 0 {
		det["runs_that_depend_on_earlier_runs_but_repeat_exactly_alone_in_4_processes"] = history
	}
	if own > 0 {
		det["runs_in_which_goroutines_of_the_library_itself_took_part_and_that_differ_with_several_processors"] = own
	}
	// samples
	var samples []any
	for i, k := range kinds {
		lo := uint64(i) << 40
		for j := uint64(0); j < 2; j++ {
			idx := lo + 3 + j*11
			in := runIn{Seed: core.RunSeed(base, prop, idx), Idx: idx}
			_, _, r, err := one(k, in, 90*time.Second)
			if err != nil || r == nil {
				continue
			}
			samples = append(samples, map[string]any{"run": idx, "seed": in.Seed, "worker": k, "trace": clipLog(r.Log, 45)})
		}
	}
	evidence(begin, inf, tot, kinds, 0, samples, det)
	var ks []string
	for k := range knownHit {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range known {
		if k.Prop == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.Text)
		}
	}
	fmt.Printf("%s held on %d simulated runs (%d distinct), seed %d, %.0f s\n", prop, tot.runs, tot.distinct(), base, time.Since(begin).Seconds())
	os.RemoveAll(tmp)
}

func getInfo(kind string) *info {
	p := start(kind, "info", nil, nil, 1)
	defer p.cleanup()
	if !p.wait(60 * time.Second) {
		fatal(2, "worker does not answer")
	}
	r := p.result()
	if r == nil || r.Info == nil {
		fatal(2, "worker gives no information: %s", p.stderr())
	}
	return r.Info
}

func (t *totals) add(r *result, p *proc) {
	t.runs += r.Runs
	t.cut += r.Cut
	t.trivial += r.Trivial
	t.simUS += r.SimUS
	t.steps += r.Steps
	t.draws += r.Draws
	t.byKind[p.kind] += r.Runs
	for k, v := range r.Stats {
		t.stats[k] += v
	}
	b, err := os.ReadFile(filepath.Join(p.dir, "out.json.traces"))
	if err == nil {
		for i := 0; i+8 <= len(b); i += 8 {
			t.traces = append(t.traces, binary.LittleEndian.Uint64(b[i:]))
		}
	}
}

func (t *totals) distinct() int {
	sort.Slice(t.traces, func(i, j int) bool { return t.traces[i] < t.traces[j] })
	n := 0
	for i, x := range t.traces {
		if i == 0 || x != t.traces[i-1] {
			n++
		}
	}
	return n
}

func clipLog(l []string, n int) []string {
	out := []string{}
	for i, x := range l {
		if len(l) > n && i == n*2/3 {
			out = append(out, fmt.Sprintf("... %d lines ...", len(l)-n))
		}
		if len(l) > n && i >= n*2/3 && i < len(l)-n/3 {
			continue
		}
		out = append(out, core.Clip(x, 180))
	}
	return out
}

func evidence(begin time.Time, inf *info, t *totals, kinds []string, violations int, samples []any, det map[string]any) {
	wall := time.Since(begin).Seconds()
	faults, conds := map[string]int64{}, map[string]int64{}
	for k, v := range t.stats {
		if strings.HasPrefix(k, "fault:") {
			faults[k[6:]] = v
		} else {
			conds[k] = v
		}
	}
	cov := map[string]any{
		"evaluations":                   t.runs,
		"distinct_nontrivial":           t.distinct(),
		"rule":                          inf.Rule,
		"samples":                       samples,
		"runs_cut_short":                t.cut,
		"runs_trivial":                  t.trivial,
		"runs_per_hour":                 int64(float64(t.runs) / wall * 3600),
		"seeds_per_hour":                int64(float64(t.runs) / wall * 3600),
		"simulated_seconds":             float64(t.simUS) / 1e6,
		"scheduler_decisions":           t.steps,
		"random_choices":                t.draws,
		"faults_injected":               faults,
		"conditions_reached":            conds,
		"runs_by_worker":                t.byKind,
		"components_real":               inf.Real,
		"components_stub":               inf.Stub,
		"worker_processes":              t.batches,
		"base_seed":                     base,
		"distinct_interleavings_method": "64-bit hash of the sequence of scheduling decisions and injected faults of a run",
	}
	if det != nil {
		cov["determinism"] = det
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": int64(base), "level": "exploration",
		"coverage": cov, "wall_s": wall, "violations": violations,
		"assumptions": []string{"sampling: a clean search is evidence, not proof", "the Go toolchain, the simulator and its reference models are trusted"},
	}
	dir := filepath.Join(root, "evidence")
	os.MkdirAll(dir, 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		err = os.WriteFile(filepath.Join(dir, prop+".json"), b, 0o644)
	}
	if err != nil {
		fatal(2, "%v", err)
	}
}
