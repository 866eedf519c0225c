package scen

import (
	"bytes"
	"crypto"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"strings"
	"sync/atomic"

	"github.com/codeallergy/value"
	"verifsim/coop"
	"verifsim/core"
	"verifsim/model"
)

// The shared-values world: goroutines share a pool of immutable values and
// observe, encode, derive from and copy them at the same time. Whatever they
// do, every value keeps the content it was made with.

func init() {
	register(&World{Prop: "C05", Name: "shared-values", Run: runC05, Inst: true, Race: true, Batch: 400,
		Rule: "One run is one history of 2-5 goroutines on a pool of shared immutable values: observations, encodings, derivations, mutable copies updated in place, copies back, decodings, arithmetic, preempted between library statements and inside caller-supplied elements. It is non-trivial if at least two goroutines touched the pool; two runs are distinct if their schedules differ.",
		Real: "scalars, immutable lists and maps, sparse lists (fast appends off), sorted maps as private copies; every operation, lookup, encoding and conversion; Pack, Hash, Hex, Unpack",
		Stub: "scheduler, the goroutines' programs, elements, entries, updaters and packers that yield"})
}

// rec5 is one value and the content it was made with.
type rec5 struct {
	v   value.Value
	n   *model.Node
	how string
}

type step5 struct {
	kind  int
	slot  int
	dst   int
	op    *cop
	ops   []*cop
	which []int
	key   string
	pos   int
	flag  bool
	num   *rec5
	upd   []*upd5
}

// upd5 is one in-place update: the key's position among the present ones, what
// the callback returns, and how it behaves.
type upd5 struct {
	pos  int
	n    *model.Node
	v    value.Value
	mode int
}

func (u *upd5) Update(cur value.Value) value.Value {
	coop.SeamYield()
	return u.v
}

// bomb5 panics in the caller's callback.
type bomb5 struct{}

func (bomb5) Update(value.Value) value.Value {
	coop.SeamYield()
	panic(coop.Injected{Msg: "updater"})
}

// bombPacker panics in the middle of an encoding.
type bombPacker struct {
	value.Packer
	left *int
}

func (p bombPacker) tick() {
	coop.SeamYield()
	*p.left--
	if *p.left < 0 {
		panic(coop.Injected{Msg: "packer"})
	}
}
func (p bombPacker) PackNil()         { p.tick(); p.Packer.PackNil() }
func (p bombPacker) PackLong(x int64) { p.tick(); p.Packer.PackLong(x) }
func (p bombPacker) PackStr(x string) { p.tick(); p.Packer.PackStr(x) }
func (p bombPacker) PackList(n int)   { p.tick(); p.Packer.PackList(n) }
func (p bombPacker) PackMap(n int)    { p.tick(); p.Packer.PackMap(n) }

// survive runs f and reports whether an injected panic ended it.
func survive(f func()) (hit bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(coop.Injected); !ok {
				panic(e)
			}
			hit = true
		}
	}()
	f()
	return false
}

type never5 struct{ called bool }

func (u *never5) Update(cur value.Value) value.Value {
	u.called = true
	return value.Utf8("must not be stored")
}

var sentinel = value.Utf8("beyond the slice")

func runC05(s *core.Sim) {
	value.AllowFastAppends = false
	defer func() { value.AllowFastAppends = true }()
	c := newCollGen(s, true)
	c.probe = s.Chance(60)
	c.b.NilNulls = s.Chance(40)

	slots := make([]atomic.Pointer[rec5], 2+s.Draw(3))
	var all []*rec5
	add := func(i int, r *rec5) {
		slots[i].Store(r)
		all = append(all, r)
	}
	for i := range slots {
		s.Begin()
		switch s.Weighted(4, 4, 2, 1, 2) {
		case 0:
			n := c.collection(model.Map)
			add(i, &rec5{c.shared(n), n, "built"})
		case 1:
			n := c.collection(model.List)
			add(i, &rec5{c.shared(n), n, "built"})
		case 2:
			n := c.collection(model.Sparse)
			add(i, &rec5{c.b.Value(n), n, "built"})
		case 3:
			n, v := c.elem()
			if v == nil {
				v = value.Null
			}
			add(i, &rec5{v, n, "built"})
		default:
			// two lists over one array, the first with the other's
			// elements behind its end
			n := c.collection(model.List)
			vs := make([]value.Value, len(n.Elems))
			for j, e := range n.Elems {
				vs[j] = c.b.Value(e)
			}
			k := s.Draw(len(vs) + 1)
			add(i, &rec5{value.ImmutableList(vs[:k]), &model.Node{K: model.List, Elems: n.Elems[:k]}, "built over a shared array"})
			j := (i + 1) % len(slots)
			add(j, &rec5{value.ImmutableList(vs), n, "built over a shared array"})
			s.Hit("two lists over one array")
		}
		s.End()
	}
	for i := range slots {
		if slots[i].Load() == nil {
			n, v := c.small()
			add(i, &rec5{v, n, "built"})
		}
	}
	// operations shared by the tasks, and with them the caller's slices
	ops := make([]*cop, 1+s.Draw(6))
	for i := range ops {
		o := c.op()
		vs := append(make([]value.Value, 0, len(o.vals)+3), o.vals...)
		for j := range vs[:cap(vs)] {
			if j >= len(vs) {
				vs[:cap(vs)][j] = sentinel
			}
		}
		o.vals = vs
		ops[i] = o
	}
	nums := make([]*rec5, 2+s.Draw(3))
	for i := range nums {
		n := c.number()
		nums[i] = &rec5{fresh.Value(n), n, "number"}
		all = append(all, nums[i])
	}

	co := coop.New(s)
	type outcome struct{ made []*rec5 }
	tasks := 2 + s.Draw(4)
	outs := make([]*outcome, tasks)
	for i := 0; i < tasks; i++ {
		outs[i] = &outcome{}
		var prog []*step5
		for k := 1 + s.Draw(7); k > 0; k-- {
			s.Begin()
			prog = append(prog, c.step5(ops, nums, len(slots)))
			s.End()
		}
		out := outs[i]
		co.Go(fmt.Sprint("task", i), func(t *coop.Task) {
			for _, st := range prog {
				task5(t, st, slots, c.space, func(r *rec5) { out.made = append(out.made, r) })
			}
		})
	}
	co.Run()

	for _, o := range outs {
		all = append(all, o.made...)
	}
	for _, r := range all {
		fail := func(class, format string, a ...any) {
			s.Fail(class, "after the run: %s", fmt.Sprintf(format, a...))
		}
		same5(fail, r)
		s.Observe(r.n.Canon())
	}
	for _, o := range ops {
		for j, x := range o.vals[:cap(o.vals)] {
			switch {
			case j >= len(o.vals):
				if x != sentinel {
					s.Fail("argument", "%s wrote %s behind the end of its caller's slice", o, model.Snap(x))
				}
			case model.Snap(x) != canonOf(o.node[j]) || (x == nil) != o.wasNil(j):
				s.Fail("argument", "%s changed element %d of its caller's slice to %s", o, j, model.Snap(x))
			}
		}
	}
	s.Stats["values checked after the run"] += int64(len(all))
}

func (o *cop) wasNil(j int) bool { return o.nils[j] }

// shared builds a value, sometimes with entries supplied by the caller that
// yield.
func (c *collGen) shared(n *model.Node) value.Value {
	s := c.s
	if n.K == model.Map && c.probe && s.Chance(30) {
		es := make([]value.MapEntry, 0, len(n.Elems)+s.Draw(3))
		for i, e := range n.Elems {
			es = append(es, probeEntry{value.ImmutableEntry(n.Keys[i], c.b.Value(e))})
		}
		return value.ImmutableMap(es, true)
	}
	return c.initial(n)
}

func (c *collGen) number() *model.Node {
	s := c.s
	switch s.Draw(4) {
	case 0:
		return &model.Node{K: model.Long, I: c.g.Integer()}
	case 1:
		return &model.Node{K: model.Double, F: float64(s.Draw(1000))/8 - 50}
	case 2:
		n := &model.Node{K: model.BigInt}
		n.Big = bigOf(s)
		return n
	default:
		return &model.Node{K: model.Decimal, Big: bigOf(s), Exp: int32(s.Draw(7) - 3)}
	}
}

func bigOf(s *core.Sim) *big.Int {
	x := new(big.Int).SetBytes(s.Sub().Bytes(s.Draw(12)))
	if s.Draw(2) == 1 {
		x.Neg(x)
	}
	return x
}

func (c *collGen) step5(ops []*cop, nums []*rec5, slots int) *step5 {
	s := c.s
	st := &step5{kind: s.Weighted(6, 6, 4, 2, 2, 2, 2, 1), slot: s.Draw(slots), dst: s.Draw(slots), key: c.key(), pos: s.Draw(1 << 16), flag: s.Draw(2) == 1}
	st.op = ops[s.Draw(len(ops))]
	st.num = nums[s.Draw(len(nums))]
	for k := 1 + s.Draw(4); k > 0; k-- {
		st.which = append(st.which, s.Draw(14))
	}
	switch st.kind {
	case 2, 5:
		for k := s.Draw(4); k > 0; k-- {
			if s.Draw(2) == 1 {
				st.ops = append(st.ops, ops[s.Draw(len(ops))])
				st.upd = append(st.upd, nil)
			} else {
				n, v := c.elem()
				if s.Rare(6) {
					n, v = model.NullNode, nil
				}
				st.ops = append(st.ops, nil)
				st.upd = append(st.upd, &upd5{pos: s.Draw(1 << 16), n: n, v: v, mode: s.Weighted(6, 1)})
			}
		}
	case 4:
		st.op = nil
		st.upd = nil
		st.slot = s.Draw(len(nums))
		other := nums[st.slot]
		st.ops = nil
		st.dst = s.Draw(8)
		st.which = nil
		st.op = &cop{vals: []value.Value{other.v}, node: []*model.Node{other.n}}
	}
	return st
}

// pick is the slot's value, or the next slot's that has the wanted kind.
func pick5(slots []atomic.Pointer[rec5], i int, want ...value.Kind) *rec5 {
	for k := range slots {
		r := slots[(i+k)%len(slots)].Load()
		for _, w := range want {
			if r.v.Kind() == w {
				return r
			}
		}
	}
	return nil
}

func task5(t *coop.Task, st *step5, slots []atomic.Pointer[rec5], space int, made func(*rec5)) {
	switch st.kind {
	case 0: // derive a new value and share it
		r := pick5(slots, st.slot, value.MAP, value.LIST)
		if r == nil {
			return
		}
		idx := st.op.index(r.n, space)
		t.Op("derive by %s at %d from a value %s", st.op, idx, r.how)
		d := &rec5{do(r.v, st.op, idx), refer(r.n, st.op, idx), "derived by " + st.op.String()}
		if d.v == nil {
			t.Failf("content", "%s gives nil", st.op)
		}
		made(d)
		if g, w := model.Snap(d.v), d.n.Canon(); g != w {
			t.Failf("derived", "%s at %d of %s gives %s, want %s", st.op, idx, core.Clip(r.n.Canon(), 300), core.Clip(g, 300), core.Clip(w, 300))
		}
		if st.flag {
			slots[st.dst].Store(d)
		}
	case 1: // observe
		r := slots[st.slot].Load()
		for _, q := range st.which {
			t.Op("observation %d of a value %s", q, r.how)
			observe5(t.Failf, r, q, t.Hit, func() *rec5 { return slots[st.dst].Load() })
			if r.v.Kind() == value.MAP || r.v.Kind() == value.LIST {
				lookup(t.Failf, r.v, r.n, q, st.key, (&cop{pos: st.pos}).index(r.n, space))
			}
		}
	case 2: // a private mutable copy, updated in place, copied back
		r := pick5(slots, st.slot, value.MAP)
		if r == nil {
			return
		}
		t.Op("mutable copy of a map %s", r.how)
		priv := &rec5{value.SortedMapCopyOf(r.v.(value.Map)), r.n, "mutable copy"}
		var back *rec5
		for i := range st.upd {
			private5(t, priv, st.upd[i], st.ops[i], space)
			if i == len(st.upd)/2 && st.flag {
				t.Op("immutable copy of it")
				back = &rec5{value.ImmutableMapCopyOf(priv.v.(value.Map)), priv.n, "copied from a mutable map"}
				made(back)
				slots[st.dst].Store(back)
			}
		}
		t.Op("compare source and copies")
		same5(t.Failf, r)
		if g, w := model.Snap(priv.v), priv.n.Canon(); g != w {
			t.Failf("copy", "the mutable copy is %s, want %s", core.Clip(g, 300), core.Clip(w, 300))
		}
		if back != nil {
			same5(t.Failf, back)
			t.Hit("immutable copy of a map still being updated")
		}
	case 3: // in-place updates of immutable values are refused
		r := pick5(slots, st.slot, value.MAP, value.LIST)
		if r == nil || r.n.K == model.Sparse {
			return
		}
		u := &never5{}
		t.Op("in-place update of an immutable value %s", r.how)
		if r.n.K == model.Map {
			key := st.key
			if len(r.n.Keys) > 0 && st.flag {
				key = r.n.Keys[st.pos%len(r.n.Keys)]
			}
			if r.v.(value.Map).Update(key, u) {
				t.Failf("update", "Update(%q) of an immutable map returns true", key)
			}
		} else if r.v.(value.List).UpdateAt((&cop{pos: st.pos}).index(r.n, space), u) {
			t.Failf("update", "UpdateAt of an immutable list returns true")
		}
		if u.called {
			t.Failf("update", "an update of an immutable value calls the caller's function")
		}
		for _, e := range r.v.(value.Collection).Entries() {
			e.Update(u)
		}
		if r.n.K == model.List {
			for _, e := range r.v.(value.List).Items() {
				e.Update(u)
			}
		}
		same5(t.Failf, r)
		t.Hit("in-place update of an immutable value refused")
	case 4: // arithmetic and conversions of shared numbers
		a, b := st.num, st.op
		t.Op("number operation %d of %s and %s", st.dst, a.n.Canon(), b.node[0].Canon())
		g := number5(st.dst, a.v.(value.Number), b.vals[0].(value.Number))
		w := number5(st.dst, fresh.Value(a.n).(value.Number), fresh.Value(b.node[0]).(value.Number))
		if g != w {
			t.Failf("number", "operation %d of %s and %s gives %s, alone it gives %s", st.dst, a.n.Canon(), b.node[0].Canon(), g, w)
		}
		same5(t.Failf, a)
	case 5: // collections handed out by typed lookups belong to the caller
		r := pick5(slots, st.slot, value.MAP, value.LIST)
		if r == nil || len(r.n.Elems) == 0 {
			return
		}
		t.Op("change what a typed lookup of a value %s handed out", r.how)
		var got value.Value
		i := st.pos % len(r.n.Elems)
		if e := r.n.Elems[i]; e != nil && (e.K == model.List || e.K == model.Sparse) {
			break
		}
		switch {
		case r.n.K == model.Map && st.flag:
			got = r.v.(value.Map).GetList(r.n.Keys[i])
		case r.n.K == model.Map:
			got = r.v.(value.Map).GetMap(r.n.Keys[i])
		case r.n.K == model.Sparse:
			got = r.v.(value.List).GetListAt(r.n.Idx[i])
		default:
			got = r.v.(value.List).GetListAt(i)
		}
		for k, u := range st.upd {
			if u != nil {
				t.Op("update what was handed out")
				if got.Kind() == value.MAP {
					for _, key := range got.(value.Map).Keys() {
						got.(value.Map).Update(key, u)
						break
					}
				} else {
					got.(value.List).UpdateAt(u.pos%4, u)
				}
			} else {
				o := st.ops[k]
				t.Op("%s on what was handed out", o)
				got = do(got, o, o.pos%4)
			}
		}
		same5(t.Failf, r)
		t.Hit("changed a collection a typed lookup handed out")
	case 6: // decode a copy of the encoding and share it
		r := slots[st.slot].Load()
		if hasEmptySparse(r.n) {
			return
		}
		t.Op("decode a value %s", r.how)
		b, err := value.Pack(r.v)
		if err != nil {
			t.Failf("pack", "Pack fails: %v", err)
		}
		v, err := value.Unpack(b, st.flag)
		if err != nil {
			t.Failf("unpack", "Unpack fails: %v", err)
		}
		if g, w := model.Snap(v), r.n.Canon(); g != w {
			t.Failf("decoded", "decoding gives %s, want %s", core.Clip(g, 300), core.Clip(w, 300))
		}
		if v.Kind() == value.LIST && v.Class() != value.EmptyImmutableList().Class() && v.Class() != value.EmptySparseList().Class() ||
			v.Kind() == value.MAP && v.Class() != value.EmptyImmutableMap().Class() {
			return
		}
		d := &rec5{v, r.n, "decoded"}
		made(d)
		slots[st.dst].Store(d)
	default:
		t.Op("stall")
		t.Op("stall")
	}
}

func hasNull(n *model.Node) bool {
	if n == nil || n.K == model.Null {
		return true
	}
	for _, e := range n.Elems {
		if hasNull(e) {
			return true
		}
	}
	return false
}

func hasEmptySparse(n *model.Node) bool {
	if n == nil {
		return false
	}
	if n.K == model.Sparse && len(n.Idx) == 0 {
		return true
	}
	for _, e := range n.Elems {
		if hasEmptySparse(e) {
			return true
		}
	}
	return false
}

// private5 changes a private sorted map by an operation or in place.
func private5(t *coop.Task, p *rec5, u *upd5, o *cop, space int) {
	if u == nil {
		t.Op("%s on the private copy", o)
		p.n = refer(p.n, o, 0)
		p.v = do(p.v, o, 0)
		return
	}
	m := p.v.(value.Map)
	if len(p.n.Keys) == 0 {
		return
	}
	key := p.n.Keys[u.pos%len(p.n.Keys)]
	t.Op("in-place update of %q in the private copy", key)
	if u.mode == 1 {
		if !survive(func() { m.Update(key, bomb5{}) }) {
			t.Failf("update", "Update(%q) hides the panic of the caller's function", key)
		}
		t.Hit("fault:updater panics")
		return
	}
	if !m.Update(key, u) {
		t.Failf("update", "Update(%q) of a mutable copy returns false", key)
	}
	i := lowerMap(p.n, key)
	elems := append([]*model.Node(nil), p.n.Elems...)
	elems[i] = u.n
	p.n = &model.Node{K: model.Map, Keys: p.n.Keys, Elems: elems}
	t.Hit("in-place update of a mutable copy")
}

// same5 compares a value with what it was made as.
func same5(fail failer, r *rec5) {
	if g, w := model.Snap(r.v), r.n.Canon(); g != w {
		fail("changed", "the value %s is now %s, it was %s", r.how, core.Clip(g, 400), core.Clip(w, 400))
	}
	if g, w := wireOf(fail, r.v), r.n.WireCanon(); g != w && !hasEmptySparse(r.n) {
		fail("changed", "the encoding of the value %s now reads %s, it was %s", r.how, core.Clip(g, 400), core.Clip(w, 400))
	}
}

// observe5 makes one observation and compares it with the same observation of
// a fresh value of the same content that nobody else knows.
func observe5(fail failer, r *rec5, q int, hit func(string), other func() *rec5) {
	alone := fresh.Value(r.n)
	same := func(what, g, w string) {
		if g != w {
			fail("observation", "%s of %s (%s) is %s, alone it is %s", what, core.Clip(r.n.Canon(), 300), r.how, core.Clip(g, 300), core.Clip(w, 300))
		}
	}
	switch q {
	case 0:
		same5(fail, r)
	case 1:
		same("String", r.v.String(), alone.String())
	case 2:
		var b strings.Builder
		r.v.PrintJSON(&b)
		same("PrintJSON", b.String(), value.Jsonify(alone))
	case 3:
		g, err := value.Pack(r.v)
		w, _ := value.Pack(alone)
		same("Pack", fmt.Sprintf("%x %v", g, err), fmt.Sprintf("%x <nil>", w))
	case 4:
		var g, w bytes.Buffer
		p := value.MessagePacker(&g)
		r.v.Pack(yieldPacker{p})
		alone.Pack(value.MessagePacker(&w))
		same("Pack", fmt.Sprintf("%x %v", g.Bytes(), p.Error()), fmt.Sprintf("%x <nil>", w.Bytes()))
	case 5:
		_, g, err := value.Hash(r.v, crypto.MD5)
		_, w, _ := value.Hash(alone, crypto.MD5)
		same("Hash", fmt.Sprintf("%x %v", g, err), fmt.Sprintf("%x <nil>", w))
	case 6:
		w, _ := value.Pack(alone)
		same("Hex", value.Hex(r.v), hex.EncodeToString(w))
	case 7:
		g, err := r.v.MarshalBinary()
		w, _ := value.Pack(alone)
		same("MarshalBinary", fmt.Sprintf("%x %v", g, err), fmt.Sprintf("%x <nil>", w))
	case 8:
		g, err := r.v.MarshalJSON()
		same("MarshalJSON", fmt.Sprintf("%s %v", g, err), value.Jsonify(alone)+" <nil>")
	case 9:
		o := other()
		if hasNull(r.n) && hasNull(o.n) {
			break // elements may be nil here and null there
		}
		g := value.Equal(r.v, o.v)
		w := value.Equal(alone, fresh.Value(o.n))
		same("Equal with "+core.Clip(o.n.Canon(), 200), fmt.Sprint(g), fmt.Sprint(w))
	case 11:
		left := len(r.n.Elems) / 2
		if survive(func() { r.v.Pack(bombPacker{value.MessagePacker(&bytes.Buffer{}), &left}) }) {
			hit("fault:packer panics in the middle of an encoding")
		}
		same5(fail, r)
	case 10:
		same("Equal with itself", fmt.Sprint(r.v.Equal(r.v)), fmt.Sprint(alone.Equal(alone)))
	default:
		same5(fail, r)
	}
}

func number5(op int, a, b value.Number) string {
	switch op {
	case 0, 1:
		return model.Snap(a.Add(b))
	case 2, 3:
		return model.Snap(a.Subtract(b))
	case 4:
		return fmt.Sprint(a.Long(), a.Type(), a.IsNaN())
	case 5:
		return fmt.Sprint(math.Float64bits(a.Double()))
	case 6:
		return a.BigInt().String()
	default:
		return a.Decimal().String() + a.String()
	}
}
