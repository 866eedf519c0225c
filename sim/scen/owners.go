package scen

import (
	"bytes"
	"fmt"
	"sync/atomic"

	"github.com/codeallergy/value"
	"verifsim/coop"
	"verifsim/core"
	"verifsim/model"
)

// The hand-over world: mutable collections wander from goroutine to goroutine;
// whoever holds one changes it by operations and in-place updates whose
// callbacks yield, fail, look into the collection or update another position.

func init() {
	register(&World{Prop: "C10", Name: "hand-over", Run: runC10, Inst: true, Race: true, Batch: 400,
		Rule: "One run is one history of 1-4 owners taking turns on 1-3 mutable collections (and on copies made on the way). It is non-trivial if at least three changes were made; two runs are distinct if their schedules differ.",
		Real: "mutable list, sorted map, sparse list with fast appends on and off: every constructor, operation, in-place update, lookup, typed lookup, selection, listing and copy; Pack",
		Stub: "scheduler, hand-over, caller-supplied updaters, elements and slices"})
}

// coll10 is one collection with its reference, handed over as a whole.
type coll10 struct {
	v    value.Value
	n    *model.Node
	immu bool // an immutable copy: must stay as it is
	name string
}

// slot10 holds a collection nobody owns at the moment.
type slot10 struct{ p atomic.Pointer[coll10] }

type step10 struct {
	kind  int
	slot  int
	dst   int
	op    *cop
	which []int
	key   string
	pos   int
	pos2  int
	flag  bool
	mode  int
	n, n2 *model.Node
	v, v2 value.Value
	stay  bool
}

const (
	uReturn = iota
	uPanic
	uLook
	uNested
	uSame
	uStill // panic after updating another position
)

// upd10 is the caller's function of one in-place update.
type upd10 struct {
	t     *coop.Task
	st    *step10
	c     *coll10
	at    int // element of the reference that is updated
	space int
	calls int
}

func (u *upd10) Update(cur value.Value) value.Value {
	u.calls++
	coop.SeamYield()
	if g, w := model.Snap(cur), canonOf(u.c.n.Elems[u.at]); g != w {
		u.t.Failf("update", "the caller's function is given %s, the current value is %s", g, w)
	}
	switch u.st.mode {
	case uPanic:
		panic(coop.Injected{Msg: "updater"})
	case uLook:
		lookup(u.t.Failf, u.c.v, u.c.n, u.st.pos2, u.st.key, u.c.index(u.st.pos2, u.space))
		coop.SeamYield()
	case uNested, uStill:
		if j, ok := u.c.other(u.at, u.st.pos2); ok {
			in := &upd10{t: u.t, st: &step10{mode: uReturn, v: u.st.v2}, c: u.c, at: j}
			if !u.c.update(j, in) || in.calls != 1 {
				u.t.Failf("update", "an update inside an update: %d calls", in.calls)
			}
			u.c.n = u.c.n.With(j, u.st.n2)
			u.t.Hit("update inside an update")
		}
		if u.st.mode == uStill {
			panic(coop.Injected{Msg: "updater"})
		}
	case uSame:
		return cur
	}
	coop.SeamYield()
	return u.st.v
}

func (c *coll10) index(pos, space int) int { return (&cop{pos: pos}).index(c.n, space) }

// first is the first element with the same key, the one an update addresses.
func (c *coll10) first(j int) int {
	switch c.n.K {
	case model.Map:
		for j > 0 && c.n.Keys[j-1] == c.n.Keys[j] {
			j--
		}
	case model.Sparse:
		for j > 0 && c.n.Idx[j-1] == c.n.Idx[j] {
			j--
		}
	}
	return j
}

// other is another updatable position than at.
func (c *coll10) other(at, pos int) (int, bool) {
	j := c.first(pos % len(c.n.Elems))
	return j, j != at
}

func (c *coll10) update(j int, u value.Updater) bool {
	switch c.n.K {
	case model.Map:
		return c.v.(value.Map).Update(c.n.Keys[j], u)
	case model.Sparse:
		return c.v.(value.List).UpdateAt(c.n.Idx[j], u)
	default:
		return c.v.(value.List).UpdateAt(j, u)
	}
}

func (c *coll10) check(fail failer, after string) {
	if g, w := model.Snap(c.v), c.n.Canon(); g != w {
		fail("content", "%s after %s is %s, want %s", c.name, after, core.Clip(g, 400), core.Clip(w, 400))
	}
	nulls(fail, c.v, c.n)
	if g, w := wireOf(fail, c.v), c.n.WireCanon(); g != w && !hasEmptySparse(c.n) {
		fail("encoding", "the encoding of %s after %s reads %s, want %s", c.name, after, core.Clip(g, 400), core.Clip(w, 400))
	}
}

func runC10(s *core.Sim) {
	value.AllowFastAppends = s.Draw(2) == 0
	value.FirstIndexKey = 0
	if s.Chance(15) {
		value.FirstIndexKey = core.Pick(s, 1, -1, 7, -300, 250)
	}
	defer func() { value.AllowFastAppends, value.FirstIndexKey = true, 0 }()
	c := newCollGen(s, false)
	c.b.MutableEntries = true
	c.probe = s.Chance(40)

	slots := make([]slot10, 1+s.Draw(5))
	colls := 1 + s.Draw(min(3, len(slots)))
	for i := 0; i < colls; i++ {
		k := []model.Kind{model.List, model.Map, model.Sparse}[s.Weighted(3, 4, 3)]
		n := c.collection(k)
		c.b.Mutable = true
		v := c.b.Value(n)
		c.b.Mutable = false
		slots[i].p.Store(&coll10{v: v, n: n, name: fmt.Sprint("collection ", i)})
	}
	ops := make([]*cop, 1+s.Draw(7))
	for i := range ops {
		ops[i] = c.op()
	}
	owners := 1 + s.Draw(4)
	co := coop.New(s)
	changes := make([]int, owners)
	for i := 0; i < owners; i++ {
		var prog []*step10
		for k := 3 + s.Draw(9); k > 0; k-- {
			s.Begin()
			st := &step10{kind: s.Weighted(8, 6, 4, 2, 1), slot: s.Draw(len(slots)), dst: s.Draw(len(slots)), key: c.key(), pos: s.Draw(1 << 16), pos2: s.Draw(1 << 12), flag: s.Draw(2) == 1, stay: s.Draw(2) == 1}
			st.op = ops[s.Draw(len(ops))]
			for q := 1 + s.Draw(3); q > 0; q-- {
				st.which = append(st.which, s.Draw(16))
			}
			if st.kind == 1 {
				st.mode = s.Weighted(6, 2, 2, 2, 1, 1)
				st.n, st.v = c.elem()
				st.n2, st.v2 = c.small()
				if s.Rare(6) {
					st.n, st.v = model.NullNode, nil
				}
				if st.n.K == model.Null {
					st.n = model.StoredNull
				}
			}
			prog = append(prog, st)
			s.End()
		}
		done := &changes[i]
		co.Go(fmt.Sprint("owner", i), func(t *coop.Task) {
			var held *coll10
			from := 0
			for _, st := range prog {
				if held == nil {
					from, held = take10(t, slots, st.slot)
					if held == nil {
						t.Op("nothing to take")
						continue
					}
				}
				*done += owner10(t, st, held, slots, c.space)
				if !st.stay {
					give10(t, slots, from, held)
					held = nil
				}
			}
			if held != nil {
				give10(t, slots, from, held)
			}
		})
	}
	co.Run()
	total := 0
	for _, n := range changes {
		total += n
	}
	s.Trivial = total < 3
	s.Stats["changes made"] += int64(total)
	for i := range slots {
		if h := slots[i].p.Load(); h != nil {
			h.check(func(class, format string, a ...any) { s.Fail(class, "after the run: "+format, a...) }, "the run")
			s.Observe(h.n.Canon())
		}
	}
}

func take10(t *coop.Task, slots []slot10, i int) (int, *coll10) {
	for k := range slots {
		j := (i + k) % len(slots)
		if c := slots[j].p.Swap(nil); c != nil {
			return j, c
		}
	}
	return 0, nil
}

func give10(t *coop.Task, slots []slot10, i int, c *coll10) {
	for k := range slots {
		if slots[(i+k)%len(slots)].p.CompareAndSwap(nil, c) {
			return
		}
	}
	// no room: the collection is dropped
	c.check(t.Failf, "its last use")
}

func owner10(t *coop.Task, st *step10, c *coll10, slots []slot10, space int) (changed int) {
	if c.immu && st.kind < 2 {
		st = &step10{kind: 2, which: []int{st.pos2, 8, 9}, key: st.key, pos: st.pos}
	}
	switch st.kind {
	case 0:
		idx := st.op.index(c.n, space)
		t.Op("%s at %d on %s", st.op, idx, c.name)
		before := c.n
		c.n = refer(c.n, st.op, idx)
		c.v = do(c.v, st.op, idx)
		if c.v == nil {
			t.Failf("content", "%s gives nil", st.op)
		}
		if g, w := model.Snap(c.v), c.n.Canon(); g != w {
			t.Failf("content", "%s: %s at %d of %s gives %s, want %s", c.name, st.op, idx, core.Clip(before.Canon(), 400), core.Clip(g, 400), core.Clip(w, 400))
		}
		nulls(t.Failf, c.v, c.n)
		return 1
	case 1:
		if len(c.n.Elems) == 0 || st.pos%5 == 4 {
			absent10(t, st, c, space)
			return 0
		}
		j := c.first(st.pos % len(c.n.Elems))
		t.Op("in-place update (mode %d) of element %d of %s", st.mode, j, c.name)
		u := &upd10{t: t, st: st, c: c, at: j, space: space}
		var ok bool
		if survive(func() { ok = c.update(j, u) }) {
			t.Hit("fault:updater panics")
			if u.calls != 1 {
				t.Failf("update", "the caller's function was called %d times", u.calls)
			}
			c.check(t.Failf, "an update whose function panicked")
			return 0
		}
		if st.mode == uPanic || st.mode == uStill {
			t.Failf("update", "the panic of the caller's function disappeared")
		}
		if !ok || u.calls != 1 {
			t.Failf("update", "update of a present position returns %v after %d calls of the caller's function", ok, u.calls)
		}
		if st.mode != uSame {
			c.n = c.n.With(j, st.n)
		}
		c.check(t.Failf, "an in-place update")
		return 1
	case 2:
		for _, q := range st.which {
			idx := c.index(st.pos, space)
			t.Op("lookup %d of %q/%d in %s", q, st.key, idx, c.name)
			if q >= 12 {
				forms(t.Failf, c.v, c.n, st.pos2, st.pos)
				continue
			}
			lookup(t.Failf, c.v, c.n, q, st.key, idx)
		}
		c.check(t.Failf, "lookups")
	case 3: // a copy that lives on by itself
		if c.n.K != model.Map {
			return 0
		}
		t.Op("copy of %s", c.name)
		d := &coll10{n: c.n, name: "a copy of " + c.name, immu: st.flag}
		if st.flag {
			d.v = value.ImmutableMapCopyOf(c.v.(value.Map))
		} else {
			d.v = value.SortedMapCopyOf(c.v.(value.Map))
		}
		d.check(t.Failf, "being made")
		t.Hit("copy of a map handed on")
		give10(t, slots, st.dst, d)
	default:
		t.Op("encode %s", c.name)
		var b bytes.Buffer
		p := value.MessagePacker(&b)
		left := st.pos2 % 8
		if survive(func() { c.v.Pack(bombPacker{p, &left}) }) {
			t.Hit("fault:packer panics in the middle of an encoding")
		}
		c.check(t.Failf, "an encoding")
	}
	return 0
}

// absent10 updates a position that is not there.
func absent10(t *coop.Task, st *step10, c *coll10, space int) {
	u := &never5{}
	key, idx := st.key, c.index(st.pos, space)
	switch c.n.K {
	case model.Map:
		for {
			i := lowerMap(c.n, key)
			if i == len(c.n.Keys) || c.n.Keys[i] != key {
				break
			}
			key += "!"
		}
		t.Op("update of the absent key %q of %s", key, c.name)
		if c.v.(value.Map).Update(key, u) {
			t.Failf("update", "Update(%q), an absent key, returns true", key)
		}
	case model.Sparse:
		for {
			i := lowerIdx(c.n, idx)
			if i == len(c.n.Idx) || c.n.Idx[i] != idx {
				break
			}
			idx++
		}
		t.Op("update of the absent position %d of %s", idx, c.name)
		if c.v.(value.List).UpdateAt(idx, u) {
			t.Failf("update", "UpdateAt(%d), an absent position, returns true", idx)
		}
	default:
		if idx >= 0 {
			idx += len(c.n.Elems)
		}
		t.Op("update of the absent position %d of %s", idx, c.name)
		if c.v.(value.List).UpdateAt(idx, u) {
			t.Failf("update", "UpdateAt(%d), an absent position, returns true", idx)
		}
	}
	if u.called {
		t.Failf("update", "an update of an absent position calls the caller's function")
	}
	c.check(t.Failf, "an update of an absent position")
	t.Hit("update of an absent position")
}
