package scen

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/codeallergy/value"
	"verifsim/coop"
	"verifsim/core"
	"verifsim/model"
)

// The first-use world: goroutines pack and unpack structs of types that nobody
// in the process has used before, valid and invalid ones that refer to each
// other, all at the same time.

func init() {
	register(&World{Prop: "C09", Name: "first-use", Run: runC09, Inst: true, Race: true, Batch: 300,
		Rule: "One run is one history of 2-5 goroutines packing and unpacking shared instances of struct types new to the process (nested, repeated, listed, self-referential, valid and invalid). It is non-trivial if at least two goroutines used the codec; two runs are distinct if their schedules differ.",
		Real: "PackStruct, UnpackStruct, the description of types and its cache, Pack and Unpack of every value type, package reflect",
		Stub: "scheduler, the goroutines' programs, package sync of the library (same semantics, waiting goes through the scheduler)"})
}

const (
	fAny = iota
	fNumber
	fString
	fBool
	fList
	fMap
	fStruct
	fBad
)

var fieldTypes = []reflect.Type{
	reflect.TypeOf((*value.Value)(nil)).Elem(),
	reflect.TypeOf((*value.Number)(nil)).Elem(),
	reflect.TypeOf((*value.String)(nil)).Elem(),
	reflect.TypeOf((*value.Bool)(nil)).Elem(),
	reflect.TypeOf((*value.List)(nil)).Elem(),
	reflect.TypeOf((*value.Map)(nil)).Elem(),
}

type fdef struct {
	num   int // position in the struct
	tag   int
	kind  int
	slice bool
	arr   int // length of an array
	rep   bool
	sub   *tdef
}

// tdef is the definition of a struct type as the simulator knows it.
type tdef struct {
	name string
	t    reflect.Type
	f    []*fdef // ascending tags
	bad  string  // why it is invalid
}

// inst9 is the content of one struct: values per field.
type inst9 struct {
	d    *tdef
	vals [][]*elem9 // per field; nil: the field is nil
}

type elem9 struct {
	n   *model.Node
	v   value.Value
	sub *inst9
}

var typeSerial int // types made so far in this process
var staticUsed int

type gen9 struct {
	s     *core.Sim
	g     *model.Gen
	b     *model.Builder
	types []*tdef
}

// dynamic makes a new type, with references to the types made before.
func (g *gen9) dynamic(bad bool) *tdef {
	s := g.s
	s.Begin()
	defer s.End()
	typeSerial++
	d := &tdef{name: fmt.Sprint("type", len(g.types))}
	n := 1 + s.Draw(6)
	if s.Rare(12) {
		n = 7 + s.Draw(40)
		s.Hit("many fields")
	}
	badAt := -1
	if bad {
		badAt = s.Draw(n)
	}
	used := map[int]bool{}
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		tag := s.Draw(2 * max(6, n))
		if s.Rare(4) {
			tag = []int{-1, 127, 128, 255, 256, 65536, -33, 1 << 31, 1 << 40, -1 << 40}[s.Draw(10)]
		}
		for used[tag] {
			tag++
		}
		used[tag] = true
		f := &fdef{num: i, tag: tag, kind: s.Weighted(4, 3, 3, 1, 1, 1)}
		var sub *tdef
		if len(g.types) > 0 && s.Chance(45) {
			sub = g.types[s.Draw(len(g.types))]
		}
		var ft reflect.Type
		if sub != nil {
			f.kind, f.sub = fStruct, sub
			ft = reflect.PointerTo(sub.t)
			if sub.bad != "" && d.bad == "" {
				d.bad = "refers to " + sub.name + ", which " + sub.bad
			}
		} else {
			ft = fieldTypes[f.kind]
		}
		switch s.Weighted(5, 2, 2) {
		case 1:
			f.slice = true
			if sub == nil && s.Draw(6) == 5 {
				f.arr = 1 + s.Draw(4)
			}
		case 2:
			f.slice, f.rep = true, true
		}
		if f.arr > 0 {
			ft = reflect.ArrayOf(f.arr, ft)
			s.Hit("array field")
		} else if f.slice {
			ft = reflect.SliceOf(ft)
		}
		st := fmt.Sprintf(`tag:"%d"`, tag)
		if f.rep {
			st += ` repeated:"true"`
		} else if s.Rare(5) {
			st += ` repeated:"false"`
		}
		name, pkg := "F"+strconv.Itoa(i), ""
		if i == badAt {
			switch s.Draw(10) {
			case 7:
				if i > 0 {
					st = fmt.Sprintf(`tag:"%d"`, d.f[s.Draw(i)].tag)
					d.bad = "has two fields with the same tag"
					break
				}
				fallthrough
			case 8:
				name = "f" + strconv.Itoa(i)
				pkg = "verifsim/scen"
				d.bad = "has an unexported field"
			case 9:
				ft = reflect.ArrayOf(3, fieldTypes[0])
				st = fmt.Sprintf(`tag:"%d" repeated:"true"`, tag)
				d.bad = "has a repeated array"
			case 0:
				st = ""
				d.bad = "has a field without tag"
			case 1:
				st = `tag:"x"`
				d.bad = "has a field with a tag that is no number"
			case 2:
				ft = reflect.TypeOf(0)
				d.bad = "has an int field"
			case 3:
				ft = reflect.TypeOf("")
				d.bad = "has a string field"
			case 4:
				ft = reflect.TypeOf((*int)(nil))
				d.bad = "has a field pointing to an int"
			case 5:
				ft = reflect.TypeOf([]byte(nil))
				d.bad = "has a byte slice field"
			default:
				ft = reflect.TypeOf(map[string]value.Value(nil))
				d.bad = "has a map field"
			}
			f.kind = fBad
		}
		if i == 0 {
			// this makes the type new to the process
			st += fmt.Sprintf(` serial:"%d"`, typeSerial)
		}
		fs = append(fs, reflect.StructField{Name: name, PkgPath: pkg, Type: ft, Tag: reflect.StructTag(st)})
		d.f = append(d.f, f)
	}
	d.t = reflect.StructOf(fs)
	d.sort()
	return d
}

func (d *tdef) sort() {
	for i := 1; i < len(d.f); i++ {
		for j := i; j > 0 && d.f[j].tag < d.f[j-1].tag; j-- {
			d.f[j], d.f[j-1] = d.f[j-1], d.f[j]
		}
	}
}

// recursive takes a family of declared types that refer to themselves.
func (g *gen9) recursive() {
	if staticUsed >= len(static9) {
		staticUsed = 0
	}
	if staticUsed == len(static9)-1 {
		exhausted = true
	}
	ts := static9[staticUsed]()
	staticUsed++
	rec, peer := &tdef{name: "rec", t: ts[0]}, &tdef{name: "peer", t: ts[1]}
	rec.f = []*fdef{{num: 0, tag: 12, kind: fStruct, slice: true, sub: rec}, {num: 1, tag: 3, kind: fNumber}, {num: 2, tag: -1, kind: fStruct, sub: rec}, {num: 3, tag: 7, kind: fStruct, sub: peer}, {num: 4, tag: 200, kind: fString, slice: true, rep: true}}
	peer.f = []*fdef{{num: 0, tag: 1, kind: fAny}, {num: 1, tag: 4, kind: fStruct, slice: true, rep: true, sub: rec}, {num: 2, tag: 2, kind: fStruct, sub: rec}, {num: 3, tag: 70000, kind: fList}, {num: 4, tag: 3, kind: fStruct, slice: true, sub: peer}}
	good := &tdef{name: "good", t: ts[2]}
	good.f = []*fdef{{num: 0, tag: 2, kind: fString}, {num: 1, tag: 1, kind: fStruct, sub: good}}
	bad := &tdef{name: "bad", t: ts[3], bad: "has an int field"}
	worse := &tdef{name: "worse", t: ts[4], bad: "refers to bad"}
	worse.f = []*fdef{{num: 0, tag: 1, kind: fString}}
	rec.sort()
	peer.sort()
	good.sort()
	switch g.s.Draw(4) {
	case 3:
		a := &tdef{name: "twin", t: ts[5]}
		a.f = []*fdef{{num: 0, tag: 3, kind: fString}, {num: 1, tag: 1, kind: fNumber}, {num: 2, tag: 2, kind: fStruct, sub: a}}
		b := &tdef{name: "twin", t: ts[6]}
		b.f = []*fdef{{num: 0, tag: 1, kind: fString, slice: true, rep: true}, {num: 1, tag: 2, kind: fString}, {num: 2, tag: 3, kind: fStruct, slice: true, sub: b}}
		c := &tdef{name: "twin", t: ts[7], bad: "has an int field"}
		c.f = []*fdef{{num: 0, tag: 1, kind: fString}}
		a.sort()
		twins := []*tdef{a, b, c}
		if a.t.String() != b.t.String() || a.t.String() != c.t.String() || a.t == b.t {
			panic("the twins are not twins")
		}
		k := g.s.Draw(3)
		g.types = append(g.types, twins[k], twins[(k+1+g.s.Draw(2))%3])
		g.s.Hit("types of the same name")
	case 0:
		g.types = append(g.types, rec, peer)
	case 1:
		g.types = append(g.types, rec, peer, good, bad, worse)
	default:
		g.types = append(g.types, worse, good, bad)
	}
	g.s.Hit("self-referential types")
}

func (g *gen9) elem(f *fdef, depth int) *elem9 {
	s := g.s
	if f.kind == fStruct {
		return &elem9{sub: g.inst(f.sub, depth-1)}
	}
	g.g.Nodes = 4
	var n *model.Node
	switch f.kind {
	case fAny:
		n = g.g.Value()
	case fNumber:
		n = &model.Node{K: model.Long, I: g.g.Integer()}
		if s.Draw(3) == 2 {
			n = &model.Node{K: model.Decimal, Big: bigOf(s), Exp: int32(s.Draw(9) - 4)}
		}
	case fString:
		n = &model.Node{K: model.Utf8, S: lookTexts[s.Draw(len(lookTexts))]}
		if s.Draw(3) == 2 {
			n = &model.Node{K: model.Raw, S: string(s.Sub().Bytes(s.Draw(40)))}
		}
	case fBool:
		n = &model.Node{K: model.Bool, B: s.Draw(2) == 1}
	case fList:
		n = &model.Node{K: model.List}
		for k := s.Draw(4); k > 0; k-- {
			n.Elems = append(n.Elems, g.g.Scalar())
		}
	case fMap:
		n = &model.Node{K: model.Map}
		for k := s.Draw(4); k > 0; k-- {
			n.Keys = append(n.Keys, keys6[s.Draw(len(keys6))])
			n.Elems = append(n.Elems, g.g.Scalar())
		}
		n.SortMap()
	}
	return &elem9{n: n, v: g.b.Value(n)}
}

func (g *gen9) inst(d *tdef, depth int) *inst9 {
	s := g.s
	s.Begin()
	defer s.End()
	x := &inst9{d: d, vals: make([][]*elem9, len(d.f))}
	for i, f := range d.f {
		if f.kind == fBad || f.sub != nil && (depth <= 0 || f.sub.bad != "") {
			continue
		}
		switch {
		case f.arr == 0 && s.Draw(4) == 3: // nil
		case f.slice:
			k := s.Draw(4)
			if s.Rare(25) && f.sub == nil {
				k = 4 + s.Draw(300)
			}
			if f.arr > 0 {
				k = f.arr
			}
			x.vals[i] = make([]*elem9, k)
			for j := range x.vals[i] {
				x.vals[i][j] = g.elem(f, depth)
			}
		default:
			x.vals[i] = []*elem9{g.elem(f, depth)}
		}
	}
	return x
}

// chain puts the struct at the end of a long chain of structs of its type, if
// the type refers to itself.
func (g *gen9) chain(x *inst9) *inst9 {
	for i, f := range x.d.f {
		if f.sub != x.d || f.slice {
			continue
		}
		for k := 1 + g.s.Draw(120); k > 0; k-- {
			y := &inst9{d: x.d, vals: make([][]*elem9, len(x.d.f))}
			for j, h := range x.d.f {
				if h.kind != fStruct && !h.slice && g.s.Draw(4) == 3 {
					y.vals[j] = []*elem9{g.elem(h, 0)}
				}
			}
			y.vals[i] = []*elem9{{sub: x}}
			x = y
		}
		g.s.Hit("chain of structs")
		break
	}
	return x
}

// inSlices lists the elements of slices anywhere in the struct.
func (x *inst9) inSlices(out []*elem9) []*elem9 {
	for i, f := range x.d.f {
		for _, e := range x.vals[i] {
			if f.slice {
				out = append(out, e)
			}
			if e.sub != nil {
				out = e.sub.inSlices(out)
			}
		}
	}
	return out
}

func (x *inst9) node() *model.Node { return x.with(nil, nil) }

// with is the MessagePack map the struct stands for, in ascending tag order,
// after replacing one element.
func (x *inst9) with(old, by *elem9) *model.Node {
	n := &model.Node{K: model.Sparse}
	add := func(tag int, e *model.Node) {
		n.Idx = append(n.Idx, tag)
		n.Elems = append(n.Elems, e)
	}
	for i, f := range x.d.f {
		vs := x.vals[i]
		switch {
		case vs == nil:
		case f.slice && !f.rep:
			l := &model.Node{K: model.List}
			for _, e := range vs {
				l.Elems = append(l.Elems, e.with(old, by))
			}
			add(f.tag, l)
		default:
			for _, e := range vs {
				add(f.tag, e.with(old, by))
			}
		}
	}
	return n
}

func (e *elem9) node() *model.Node { return e.with(nil, nil) }

func (e *elem9) with(old, by *elem9) *model.Node {
	if e == old {
		return by.n
	}
	if e.sub != nil {
		return e.sub.with(old, by)
	}
	return e.n
}

// show renders the content field by field; an empty repeated field is the same
// as an absent one.
func (x *inst9) show(b *strings.Builder) {
	b.WriteString("{")
	for i, f := range x.d.f {
		vs := x.vals[i]
		if vs == nil || f.rep && len(vs) == 0 {
			continue
		}
		fmt.Fprintf(b, "%d=[", f.tag)
		for _, e := range vs {
			if e.sub != nil {
				e.sub.show(b)
			} else {
				b.WriteString(e.n.Canon())
			}
			b.WriteString(" ")
		}
		b.WriteString("] ")
	}
	b.WriteString("}")
}

func (x *inst9) String() string {
	var b strings.Builder
	x.show(&b)
	return b.String()
}

// build makes the Go struct.
func (x *inst9) build() reflect.Value { return x.buildHole(nil) }

// buildHole is build with a nil in place of one element.
func (x *inst9) buildHole(hole *elem9) reflect.Value {
	p := reflect.New(x.d.t)
	for i, f := range x.d.f {
		vs := x.vals[i]
		if vs == nil {
			continue
		}
		fv := p.Elem().Field(f.num)
		one := func(e *elem9) reflect.Value {
			if e.sub != nil {
				return e.sub.buildHole(hole)
			}
			return reflect.ValueOf(e.v)
		}
		if !f.slice {
			fv.Set(one(vs[0]))
			continue
		}
		if f.arr > 0 {
			for j, e := range vs {
				if e != hole {
					fv.Index(j).Set(one(e))
				}
			}
			continue
		}
		sl := reflect.MakeSlice(fv.Type(), 0, len(vs))
		for _, e := range vs {
			if e == hole {
				sl = reflect.Append(sl, reflect.Zero(fv.Type().Elem()))
				continue
			}
			sl = reflect.Append(sl, one(e))
		}
		fv.Set(sl)
	}
	return p
}

// readBack renders a Go struct as show does.
func readBack(b *strings.Builder, d *tdef, v reflect.Value) {
	b.WriteString("{")
	for _, f := range d.f {
		fv := v.Field(f.num)
		if f.arr == 0 && fv.IsNil() || f.rep && fv.Len() == 0 {
			continue
		}
		fmt.Fprintf(b, "%d=[", f.tag)
		one := func(e reflect.Value) {
			switch {
			case e.IsNil():
				b.WriteString("nil")
			case f.sub != nil:
				readBack(b, f.sub, e.Elem())
			default:
				b.WriteString(model.Snap(e.Interface().(value.Value)))
			}
			b.WriteString(" ")
		}
		if f.slice {
			for j := 0; j < fv.Len(); j++ {
				one(fv.Index(j))
			}
		} else {
			one(fv)
		}
		b.WriteString("] ")
	}
	b.WriteString("}")
}

// obj9 is an instance shared by the tasks.
type obj9 struct {
	x    *inst9
	p    any    // the struct
	b    []byte // its encoding by another implementation
	show string
	wire string
}

type step9 struct {
	kind int
	o    *obj9
	d    *tdef
	copy bool
	cut  int
}

func runC09(s *core.Sim) {
	g := &gen9{s: s, g: model.NewGen(s), b: &model.Builder{S: s}}
	g.g.Depth, g.g.HugePct, g.g.BigPct = 2, 0, 3
	if s.Chance(35) {
		g.recursive()
	}
	for k := 1 + s.Draw(3); k > 0; k-- {
		g.types = append(g.types, g.dynamic(s.Chance(20)))
	}
	var good, bad []*tdef
	for _, d := range g.types {
		if d.bad == "" {
			good = append(good, d)
		} else {
			bad = append(bad, d)
		}
	}
	var objs []*obj9
	if len(good) > 0 {
		for k := 1 + s.Draw(5); k > 0; k-- {
			x := g.inst(good[s.Draw(len(good))], 3)
			if s.Rare(8) {
				x = g.chain(x)
			}
			n := x.node()
			objs = append(objs, &obj9{x: x, p: x.build().Interface(), b: n.Encode(nil, s, s.Draw(2) == 1), show: x.String(), wire: n.WireCanon()})
		}
	}
	co := coop.New(s)
	tasks := 2 + s.Draw(4)
	packed := make([][][]byte, tasks)
	for i := 0; i < tasks; i++ {
		var prog []*step9
		for k := 1 + s.Draw(4); k > 0; k-- {
			s.Begin()
			st := &step9{kind: s.Weighted(10, 10, 6, 2, 2, 2, 1), copy: s.Draw(2) == 1, cut: s.Draw(1 << 12)}
			if len(objs) == 0 || len(bad) > 0 && st.kind == 2 {
				st.kind = 2
				st.d = bad[s.Draw(len(bad))]
			} else {
				if st.kind == 2 {
					st.kind = 0
				}
				st.o = objs[s.Draw(len(objs))]
			}
			prog = append(prog, st)
			s.End()
		}
		out := &packed[i]
		co.Go(fmt.Sprint("task", i), func(t *coop.Task) {
			for _, st := range prog {
				task9(t, st, out)
			}
		})
	}
	co.Run()

	// once more, alone
	for _, o := range objs {
		fail := func(class, format string, a ...any) {
			s.Fail(class, "after the run: "+format, a...)
		}
		pack9(fail, o)
		unpack9(fail, o, s.Draw(2) == 1)
		s.Observe(o.show)
	}
	for _, d := range bad {
		refuse9(func(class, format string, a ...any) { s.Fail(class, "after the run: "+format, a...) }, d, false)
		s.Observe(d.bad)
	}
	s.Stats["struct types first used"] += int64(len(g.types))
}

func task9(t *coop.Task, st *step9, out *[][]byte) {
	switch st.kind {
	case 0:
		t.Op("pack a %s", st.o.x.d.name)
		*out = append(*out, pack9(t.Failf, st.o))
	case 1:
		t.Op("unpack a %s", st.o.x.d.name)
		unpack9(t.Failf, st.o, st.copy)
	case 2:
		t.Op("use the invalid type %s", st.d.name)
		refuse9(t.Failf, st.d, st.copy)
		t.Hit("invalid type refused")
	case 3: // there and back
		t.Op("pack and unpack a %s", st.o.x.d.name)
		b := pack9(t.Failf, st.o)
		q := reflect.New(st.o.x.d.t)
		if err := value.UnpackStruct(b, q.Interface(), st.copy); err != nil {
			t.Failf("unpack", "UnpackStruct of what PackStruct gave for %s fails: %v", core.Clip(st.o.show, 300), err)
		}
		same9(t.Failf, st.o, q.Elem(), "there and back")
	case 5: // a nil among the elements: refused or written as nil
		es := st.o.x.inSlices(nil)
		if len(es) == 0 {
			return
		}
		t.Op("pack a %s with a nil element", st.o.x.d.name)
		e := es[st.cut%len(es)]
		b, err := value.PackStruct(st.o.x.buildHole(e).Interface())
		if err == nil {
			want := st.o.x.with(e, &elem9{n: model.NullNode}).WireCanon()
			if w, n, err := model.DecodeWire(b); err != nil || n != len(b) || w != want {
				t.Failf("pack", "PackStruct of %s with a nil in place of %s gives %x", core.Clip(st.o.show, 300), core.Clip(e.node().Canon(), 100), clipBytes(b))
			}
		}
		t.Hit("fault:nil element")
	case 6: // not a struct at all
		t.Op("pack and unpack what is no pointer to a %s", st.o.x.d.name)
		odd9(t.Failf, st.o, st.cut)
		t.Hit("not a pointer to a struct")
	default: // truncated input
		if len(st.o.b) == 0 {
			return
		}
		t.Op("unpack a truncated %s", st.o.x.d.name)
		q := reflect.New(st.o.x.d.t)
		if err := value.UnpackStruct(st.o.b[:st.cut%len(st.o.b)], q.Interface(), st.copy); err == nil {
			t.Failf("unpack", "UnpackStruct of the first %d of %d bytes of %s succeeds", st.cut%len(st.o.b), len(st.o.b), core.Clip(st.o.show, 300))
		}
		t.Hit("fault:truncated struct")
	}
}

// odd9 uses the codec on something that is no pointer to a struct.
func odd9(fail failer, o *obj9, which int) {
	what := ""
	var err error
	switch which % 9 {
	case 0:
		what = "PackStruct of a struct"
		_, err = value.PackStruct(reflect.ValueOf(o.p).Elem().Interface())
	case 1:
		what = "PackStruct of a pointer to a slice"
		_, err = value.PackStruct(&[]value.Value{value.True})
	case 2:
		what = "UnpackStruct into a struct"
		err = value.UnpackStruct(o.b, reflect.ValueOf(o.p).Elem().Interface(), which&8 != 0)
	case 3:
		what = "UnpackStruct into a pointer to a pointer"
		p := reflect.New(reflect.PointerTo(o.x.d.t))
		p.Elem().Set(reflect.New(o.x.d.t))
		err = value.UnpackStruct(o.b, p.Interface(), which&8 != 0)
	case 4:
		what = "UnpackStruct into nil"
		err = value.UnpackStruct(o.b, nil, which&8 != 0)
	case 5:
		what = "UnpackStruct into a nil pointer"
		err = value.UnpackStruct(o.b, reflect.Zero(reflect.PointerTo(o.x.d.t)).Interface(), which&8 != 0)
	case 6:
		what = "PackStruct of a nil pointer"
		_, err = value.PackStruct(reflect.Zero(reflect.PointerTo(o.x.d.t)).Interface())
	case 7: // a value packs as itself
		v := fresh.Value(o.x.node())
		b, e := value.PackStruct(v)
		w, _ := value.Pack(v)
		if e != nil || string(b) != string(w) {
			fail("pack", "PackStruct of a value gives %x %v, Pack %x", clipBytes(b), e, clipBytes(w))
		}
		return
	default:
		if b, e := value.PackStruct(nil); e != nil || string(b) != "\xc0" {
			fail("pack", "PackStruct of nil gives %x %v", b, e)
		}
		return
	}
	if err == nil {
		fail("invalid", "%s is accepted", what)
	}
}

func pack9(fail failer, o *obj9) []byte {
	b, err := value.PackStruct(o.p)
	if err != nil {
		fail("pack", "PackStruct of %s fails: %v", core.Clip(o.show, 400), err)
	}
	w, n, err := model.DecodeWire(b)
	if err != nil || n != len(b) {
		fail("pack", "PackStruct of %s gives %x: %v", core.Clip(o.show, 400), clipBytes(b), err)
	}
	if w != o.wire {
		fail("pack", "PackStruct of %s gives %s, want %s", core.Clip(o.show, 300), core.Clip(w, 400), core.Clip(o.wire, 400))
	}
	return b
}

func unpack9(fail failer, o *obj9, cp bool) {
	q := reflect.New(o.x.d.t)
	if err := value.UnpackStruct(o.b, q.Interface(), cp); err != nil {
		fail("unpack", "UnpackStruct of %s fails: %v", core.Clip(o.show, 400), err)
	}
	same9(fail, o, q.Elem(), "unpacking")
}

func same9(fail failer, o *obj9, v reflect.Value, what string) {
	var b strings.Builder
	readBack(&b, o.x.d, v)
	if b.String() != o.show {
		fail("unpack", "%s gives %s, want %s", what, core.Clip(b.String(), 400), core.Clip(o.show, 400))
	}
}

func refuse9(fail failer, d *tdef, unpack bool) {
	p := reflect.New(d.t)
	if unpack {
		if err := value.UnpackStruct([]byte{0x80}, p.Interface(), false); err == nil {
			fail("invalid", "UnpackStruct accepts a type that %s", d.bad)
		}
		return
	}
	if b, err := value.PackStruct(p.Interface()); err == nil {
		fail("invalid", "PackStruct accepts a type that %s and gives %x", d.bad, b)
	}
}
