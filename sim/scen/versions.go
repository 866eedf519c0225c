package scen

import (
	"fmt"
	"sync/atomic"

	"github.com/codeallergy/value"
	"verifsim/coop"
	"verifsim/core"
	"verifsim/model"
)

// The optimistic-writers world: clients share one cell that holds the current
// version of an immutable collection; they load it, derive the next one, are
// delayed, stall or crash, and publish by compare-and-swap.

func init() {
	register(&World{Prop: "C06", Name: "versions", Run: runC06, Inst: true, Race: true, Batch: 600,
		Rule: "One run is one history of 2-5 clients on one cell: loads, derivations, lookups, preemptions between library statements, stalls, crashes between load and publish, publishes that succeed or lose. It is non-trivial if at least two versions were published; two runs are distinct if their schedules (task and preemption choices) differ.",
		Real: "immutable list and map and sparse list (fast appends off): construction, decoding, every update, lookup, typed lookup, selection and listing; Pack",
		Stub: "scheduler, the clients, caller-supplied elements that yield"})
}

// ver6 is one published version; nothing in it changes after publication.
type ver6 struct {
	v    value.Value
	n    *model.Node
	prev *ver6
	what string
	by   string
}

// step6 is one drawn client step.
type step6 struct {
	kind  int
	ops   []*cop
	which [4]int
	key   string
	pos   int
	a, b  int
	crash bool
}

func runC06(s *core.Sim) {
	kind := []model.Kind{model.List, model.Map, model.Sparse}[s.Weighted(3, 3, 2)]
	value.AllowFastAppends = kind != model.Sparse
	value.FirstIndexKey = 0
	if s.Chance(15) {
		value.FirstIndexKey = core.Pick(s, 1, -1, 7, -300, 250)
	}
	defer func() { value.AllowFastAppends, value.FirstIndexKey = true, 0 }()
	c := newCollGen(s, true)
	c.probe = s.Chance(50)
	n0 := c.collection(kind)
	v0 := c.initial(n0)
	s.MarkStr(fmt.Sprint("kind", kind))

	var cell atomic.Pointer[ver6]
	cell.Store(&ver6{v: v0, n: n0, what: "initial"})
	first := cell.Load()

	co := coop.New(s)
	clients := 2 + s.Draw(4)
	for i := 0; i < clients; i++ {
		var prog []*step6
		for k := 1 + s.Draw(7); k > 0; k-- {
			prog = append(prog, c.step())
		}
		name := fmt.Sprint("client", i)
		co.Go(name, func(t *coop.Task) { client6(t, name, &cell, prog, c.space) })
	}
	co.Run()

	// the published history, newest first
	var hist []*ver6
	for h := cell.Load(); h != nil; h = h.prev {
		hist = append(hist, h)
	}
	if hist[len(hist)-1] != first {
		core.Harness("broken history")
	}
	if len(hist) < 3 {
		s.Trivial = true
	}
	s.Stats["versions published"] += int64(len(hist) - 1)
	for i := len(hist) - 1; i >= 0; i-- {
		h := hist[i]
		fail := func(class, format string, a ...any) {
			s.Fail(class, "after the run, version %d (%s by %s): %s", len(hist)-1-i, h.what, h.by, fmt.Sprintf(format, a...))
		}
		check6(fail, h)
		key, pos := c.key(), s.Draw(1<<16)
		for q := 0; q < 12; q++ {
			lookup(fail, h.v, h.n, q, key, (&cop{pos: pos}).index(h.n, c.space))
		}
		s.Observe(h.n.Canon())
	}
}

// check6 compares the whole content of a version with the reference.
func check6(fail failer, h *ver6) {
	if g, w := model.Snap(h.v), h.n.Canon(); g != w {
		was := "nothing"
		if h.prev != nil {
			was = h.prev.n.Canon()
		}
		fail("content", "%s applied to %s gives %s, want %s", h.what, core.Clip(was, 400), core.Clip(g, 400), core.Clip(w, 400))
	}
	nulls(fail, h.v, h.n)
	if g, w := wireOf(fail, h.v), h.n.WireCanon(); g != w && (h.n.K != model.Sparse || len(h.n.Idx) > 0) {
		fail("encoding", "the encoding after %s reads %s, want %s", h.what, core.Clip(g, 400), core.Clip(w, 400))
	}
}

// initial builds the first version, or decodes it.
func (c *collGen) initial(n *model.Node) value.Value {
	s := c.s
	if s.Chance(25) && !(n.K == model.Sparse && len(n.Idx) == 0) {
		b, err := value.Pack(c.b.Value(n))
		if err != nil {
			s.Fail("encoding", "Pack fails: %v", err)
		}
		v, err := value.Unpack(b, s.Draw(2) == 1)
		if err != nil {
			s.Fail("decoding", "Unpack of what Pack returned fails: %v", err)
		}
		if g := model.Snap(v); g == n.Canon() && isImmutable(v) {
			s.Hit("initial version decoded")
			return v
		}
	}
	return c.b.Value(n)
}

func isImmutable(v value.Value) bool {
	switch v.Kind() {
	case value.LIST:
		return v.Class() == value.EmptyImmutableList().Class() || v.Class() == value.EmptySparseList().Class()
	case value.MAP:
		return v.Class() == value.EmptyImmutableMap().Class()
	}
	return true
}

func (c *collGen) step() *step6 {
	s := c.s
	s.Begin()
	defer s.End()
	st := &step6{kind: s.Weighted(8, 4, 2, 2, 1), key: c.key(), pos: s.Draw(1 << 16), a: s.Draw(4), b: s.Draw(4)}
	switch st.kind {
	case 0:
		for k := 1 + s.Weighted(6, 2, 1); k > 0; k-- {
			st.ops = append(st.ops, c.op())
		}
		st.crash = s.Rare(25)
	case 3:
		st.ops = append(st.ops, c.op())
	}
	for i := range st.which {
		st.which[i] = s.Draw(16)
	}
	return st
}

func client6(t *coop.Task, name string, cell *atomic.Pointer[ver6], prog []*step6, space int) {
	var seen []*ver6
	for _, st := range prog {
		switch st.kind {
		case 0: // update, with retries
			for try := 0; ; try++ {
				cur := cell.Load()
				next := cur
				for _, o := range st.ops {
					idx := o.index(next.n, space)
					t.Op("%s at %d", o, idx)
					h := &ver6{n: refer(next.n, o, idx), what: o.String(), by: name, prev: next}
					h.v = do(next.v, o, idx)
					if h.v == nil {
						t.Failf("content", "%s gives nil", o)
					}
					next = h
				}
				pub := next
				if len(st.ops) > 1 {
					pub = &ver6{v: next.v, n: next.n, what: next.what, by: name, prev: cur}
				}
				for k := 0; k < st.a; k++ {
					t.Op("stall before publishing")
				}
				if st.crash {
					t.Hit("fault:client crashes between load and publish")
					return
				}
				seen = append(seen, cur)
				if cell.CompareAndSwap(cur, pub) {
					if try > 0 {
						t.Hit("published after conflict")
					}
					seen = append(seen, pub)
					break
				}
				t.Hit("fault:publish lost to another client")
			}
		case 1: // lookups on one version
			cur := cell.Load()
			for _, q := range st.which {
				idx := (&cop{pos: st.pos}).index(cur.n, space)
				t.Op("lookup %d of %q/%d", q, st.key, idx)
				if q >= 12 {
					forms(t.Failf, cur.v, cur.n, st.a+4*st.b, st.pos)
					continue
				}
				lookup(t.Failf, cur.v, cur.n, q, st.key, idx)
			}
			seen = append(seen, cur)
		case 2: // an old version once more
			if len(seen) == 0 {
				seen = append(seen, cell.Load())
			}
			h := seen[st.pos%len(seen)]
			t.Op("look again at a version seen before (%s)", h.what)
			check6(t.Failf, h)
			lookup(t.Failf, h.v, h.n, st.which[0], st.key, (&cop{pos: st.pos}).index(h.n, space))
		case 3: // derive from an old version and drop the result
			h := cell.Load()
			if len(seen) > 0 {
				h = seen[st.pos%len(seen)]
			}
			o := st.ops[0]
			idx := o.index(h.n, space)
			t.Op("derive from an old version and drop it: %s at %d", o, idx)
			d := &ver6{v: do(h.v, o, idx), n: refer(h.n, o, idx), what: o.String(), prev: h}
			t.Op("check it")
			check6(t.Failf, d)
			t.Hit("branch derived from an old version")
		default:
			for k := 0; k <= st.a; k++ {
				t.Op("stall")
			}
		}
	}
}
