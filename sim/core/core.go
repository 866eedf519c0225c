// Package core is the simulator's kernel: one seed decides every choice of a
// run, every choice is recorded, and a run can be replayed and minimised from
// its recorded choices.
package core

import (
	"encoding/binary"
	"fmt"
	"os"
	"sort"
	"strings"
)

// Mix is splitmix64's finaliser.
func Mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// RunSeed derives the seed of one run from the base seed, the property and the
// run's index.
func RunSeed(base uint64, prop string, idx uint64) uint64 {
	h := Mix(base + 0x9e3779b97f4a7c15)
	for _, b := range []byte(prop) {
		h = Mix(h ^ uint64(b) + 0x9e3779b97f4a7c15)
	}
	return Mix(h ^ Mix(idx+0x632be59bd9b4e019))
}

type RNG struct{ s uint64 }

func NewRNG(seed uint64) *RNG { return &RNG{seed} }

func (r *RNG) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return Mix(r.s)
}

func (r *RNG) N(n uint32) uint32 { return uint32((r.U64() >> 32) * uint64(n) >> 32) }

// Bytes fills a fresh slice from the generator.
func (r *RNG) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		x := r.U64()
		for j := i; j < n && j < i+8; j++ {
			b[j] = byte(x)
			x >>= 8
		}
	}
	return b
}

// Violation is a property violation found in a run.
type Violation struct {
	Class string // short and stable; minimisation keeps it
	Msg   string
}

func (v *Violation) Error() string { return v.Class + ": " + v.Msg }

// HarnessError is a defect of the simulator itself; never a violation.
type HarnessError struct{ Msg string }

// StepLimit aborts a run that was cut short; the run counts as inconclusive.
type StepLimit struct{}

type Span struct{ From, To int }

const maxDraws = 400000

// Sim is one run.
type Sim struct {
	Prop    string
	Seed    uint64
	Verbose bool

	rng    *RNG
	replay []uint32
	pos    int
	Rec    []uint32
	Spans  []Span
	stack  []int
	labels []string

	Stats  map[string]int64 // faults fired and conditions reached
	lines  []string
	trace  uint64 // hash of scheduling decisions and faults
	Digest uint64 // hash of the observable log
	Now    int64  // simulated microseconds
	Steps  int64  // scheduler decisions

	// Obs is a hash of what the run observed; Trivial marks a run that
	// exercised nothing.
	Obs     uint64
	Trivial bool
	// Dump, if set, receives every choice at once (for runs that crash).
	Dump *os.File

	Viol *Violation
	Env  Env
}

// Env tells scenarios what kind of process they run in.
type Env struct {
	Race bool // race-detector build
	Tier string
}

func New(prop string, seed uint64, replay []uint32, env Env) *Sim {
	s := &Sim{Prop: prop, Seed: seed, replay: replay, Stats: map[string]int64{}, Env: env, trace: 1469598103934665603, Digest: 1469598103934665603}
	if replay == nil {
		s.rng = NewRNG(seed)
	}
	return s
}

// Draw returns a choice in [0,n). Zero is always the simplest one.
func (s *Sim) Draw(n int) int {
	if n <= 1 {
		return 0
	}
	if len(s.Rec) >= maxDraws {
		panic(StepLimit{})
	}
	var v uint32
	if s.rng != nil {
		v = s.rng.N(uint32(n))
	} else if s.pos < len(s.replay) {
		v = s.replay[s.pos] % uint32(n)
	}
	s.pos++
	s.Rec = append(s.Rec, v)
	if s.Dump != nil {
		var b [4]byte
		binary.LittleEndian.PutUint32(b[:], v)
		s.Dump.Write(b[:])
	}
	return int(v)
}

// Range draws from [lo,hi].
func (s *Sim) Range(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + s.Draw(hi-lo+1)
}

// Chance is true with probability pct/100; false is the simple choice.
func (s *Sim) Chance(pct int) bool {
	if pct <= 0 {
		return false
	}
	return s.Draw(100) >= 100-pct
}

// Rare is true with probability 1/n.
func (s *Sim) Rare(n int) bool { return s.Draw(n) == n-1 }

// Weighted draws an index with the given weights; index 0 is the simplest.
func (s *Sim) Weighted(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	d := s.Draw(t)
	for i, x := range w {
		if d < x {
			return i
		}
		d -= x
	}
	return 0
}

// Pick draws one of the arguments.
func Pick[T any](s *Sim, xs ...T) T { return xs[s.Draw(len(xs))] }

// Sub returns a generator derived from one drawn choice (for filler bytes).
func (s *Sim) Sub() *RNG { return NewRNG(uint64(s.Draw(1<<20)) + 7) }

func (s *Sim) Begin() { s.stack = append(s.stack, len(s.Rec)) }
func (s *Sim) End() {
	n := len(s.stack) - 1
	s.Spans = append(s.Spans, Span{s.stack[n], len(s.Rec)})
	s.stack = s.stack[:n]
}

// Hit counts a fault that fired or a condition that was reached.
func (s *Sim) Hit(name string) { s.Stats[name]++ }

// Fault counts a fault and makes it part of the schedule trace.
func (s *Sim) Fault(name string) {
	s.Stats["fault:"+name]++
	for i := 0; i < len(name); i++ {
		s.trace = (s.trace ^ uint64(name[i])) * 1099511628211
	}
	if s.Verbose {
		s.Logf("FAULT %s", name)
	}
}

// Mark makes a scheduling decision part of the trace that identifies the
// interleaving.
func (s *Sim) Mark(x uint64) {
	s.trace = (s.trace ^ Mix(x+1)) * 1099511628211
}
func (s *Sim) MarkStr(x string) {
	for i := 0; i < len(x); i++ {
		s.trace = (s.trace ^ uint64(x[i])) * 1099511628211
	}
	s.trace *= 1099511628211
}
func (s *Sim) Trace() uint64 { return s.trace }

// Logf appends to the event log (only kept in verbose runs).
func (s *Sim) Logf(format string, a ...any) {
	if !s.Verbose {
		return
	}
	l := fmt.Sprintf("[%d t=%dus] ", s.Steps, s.Now) + fmt.Sprintf(format, a...)
	if len(l) > 600 {
		l = l[:600] + "..."
	}
	s.DigestStr(l)
	s.lines = append(s.lines, l)
}
func (s *Sim) DigestStr(l string) {
	for i := 0; i < len(l); i++ {
		s.Digest = (s.Digest ^ uint64(l[i])) * 1099511628211
	}
}
func (s *Sim) Log() []string { return s.lines }

// Observe adds observed content to the run's observation hash.
func (s *Sim) Observe(x string) {
	h := s.Obs
	if h == 0 {
		h = 1469598103934665603
	}
	for i := 0; i < len(x); i++ {
		h = (h ^ uint64(x[i])) * 1099511628211
	}
	s.Obs = h
	if s.Verbose {
		s.Logf("OBS %s", Clip(x, 400))
	}
}

// Fail records the first violation and unwinds the run.
func (s *Sim) Fail(class, format string, a ...any) {
	v := &Violation{class, Clip(fmt.Sprintf(format, a...), 1500)}
	if s.Viol == nil {
		s.Viol = v
	}
	panic(v)
}

// Note records a violation without unwinding (for use inside tasks).
func (s *Sim) Note(class, format string, a ...any) {
	if s.Viol == nil {
		s.Viol = &Violation{class, Clip(fmt.Sprintf(format, a...), 1500)}
	}
}

// Harness aborts the process with an error of the simulator itself.
func Harness(format string, a ...any) { panic(HarnessError{fmt.Sprintf(format, a...)}) }

func Clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n/2] + " ...<" + fmt.Sprint(len(s)-n) + " bytes>... " + s[len(s)-n/2:]
}

// SortedStats renders the counters.
func SortedStats(m map[string]int64) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%d ", k, m[k])
	}
	return b.String()
}
