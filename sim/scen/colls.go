package scen

import (
	"crypto"
	_ "crypto/md5"
	"encoding/hex"
	"fmt"
	"strconv"
	"strings"

	"github.com/codeallergy/value"
	"verifsim/coop"
	"verifsim/core"
	"verifsim/model"
)

// Operations on collections, and the ordinary ordered collections they are
// compared with.

const (
	oInsert = iota
	oPut
	oRemove
	oInsertAll
	oDeleteAll
	oAppend
	nOps
)

var opName = []string{"Insert", "Put", "Remove", "InsertAll", "DeleteAll", "Append"}

// cop is one drawn operation; what it hits depends on the collection it is
// applied to.
type cop struct {
	op   int
	key  string
	pos  int
	node []*model.Node
	vals []value.Value
	nils []bool // which of vals are nil
}

func (o *cop) String() string {
	return fmt.Sprintf("%s(%q/%d, %d values)", opName[o.op], o.key, o.pos, len(o.node))
}

var keys6 = []string{"a", "b", "c", "d", "aa", "", "b\x00", "Z", "é", "\xff", "10", "2"}

// collGen draws collections and operations on them.
type collGen struct {
	s *core.Sim
	g *model.Gen
	b *model.Builder
	// keys in use: small spaces make duplicates and hits likely
	space int
	probe bool // elements may be probes that yield in every method
	nils  bool // values may be nil
	np    int
	// large: a collection of hundreds of elements (0: none in this run)
	large int
}

var largeCounts = []int{30, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 513, 1025}

func newCollGen(s *core.Sim, immutable bool) *collGen {
	c := &collGen{s: s, g: model.NewGen(s), nils: true}
	c.g.Depth, c.g.HugePct, c.g.BigPct = 2, 0, 2
	c.g.NoSparse = immutable
	c.b = &model.Builder{S: s, Immutable: immutable, NilNulls: true}
	c.space = 2 + s.Draw(len(keys6)-1)
	if s.Rare(10) {
		// larger elements
		c.g.BigPct = 250
	}
	if s.Rare(40) {
		c.large = largeCounts[s.Draw(len(largeCounts))]
		s.Hit("collections:large")
	}
	return c
}

// awkward strings for typed lookups
var lookTexts = []string{"true", "false", "12", "-3.5", "null", "nan", "", "x", "0x1f", "base64,AAE"}

func (c *collGen) elem() (*model.Node, value.Value) {
	s := c.s
	switch {
	case c.probe && s.Chance(25):
		c.np++
		n := &model.Node{K: model.Ext, Tag: byte(50 + c.np%100), S: strconv.Itoa(c.np)}
		return n, newProbe(n)
	case s.Chance(45):
		return c.small()
	}
	c.g.Nodes = 5
	n := c.g.Value()
	if n.K == model.Null && c.nils && s.Draw(2) == 1 {
		return n, nil
	}
	return n, c.b.Value(n)
}

// few is elem, but cheap after the first dozen.
func (c *collGen) few(i int) (*model.Node, value.Value) {
	if i < 12 {
		return c.elem()
	}
	n := &model.Node{K: model.Long, I: int64(i)}
	return n, c.b.Value(n)
}

func (c *collGen) small() (*model.Node, value.Value) {
	s := c.s
	n := &model.Node{K: model.Long, I: int64(s.Draw(1000))}
	if s.Draw(4) == 3 {
		n = &model.Node{K: model.Utf8, S: lookTexts[s.Draw(len(lookTexts))]}
	}
	return n, c.b.Value(n)
}

func (c *collGen) key() string {
	if c.large > 0 && c.s.Draw(4) > 0 {
		return fmt.Sprintf("k%04d", c.s.Draw(c.large+10))
	}
	return keys6[c.s.Draw(min(c.space, len(keys6)))]
}

func (c *collGen) op() *cop {
	s := c.s
	s.Begin()
	defer s.End()
	o := &cop{op: s.Weighted(5, 5, 5, 4, 3, 3), key: c.key(), pos: s.Draw(1 << 16)}
	k := 0
	switch o.op {
	case oInsert, oPut, oAppend:
		k = 1
	case oInsertAll:
		k = s.Weighted(2, 3, 4, 2, 1)
		if s.Rare(40) {
			k = 10 + s.Draw(10)
		}
		if c.large > 0 && s.Rare(3) {
			k = 1 + s.Draw(c.large)
		}
	}
	for i := 0; i < k; i++ {
		n, v := c.few(i)
		if k == 1 && c.nils && s.Rare(8) {
			n, v = model.NullNode, nil
		}
		if n.K == model.Null {
			n = model.StoredNull
		}
		o.node = append(o.node, n)
		o.vals = append(o.vals, v)
		o.nils = append(o.nils, v == nil)
	}
	return o
}

// collection draws the initial content.
func (c *collGen) collection(k model.Kind) *model.Node {
	s := c.s
	s.Begin()
	defer s.End()
	n := &model.Node{K: k}
	cnt := s.Draw(7)
	if s.Rare(20) {
		cnt = 12 + s.Draw(10)
	}
	if c.large > 0 && s.Draw(3) > 0 {
		cnt = max(0, c.large+s.Draw(5)-2)
	}
	for i := 0; i < cnt; i++ {
		c.g.Nodes = 4
		e := &model.Node{K: model.Long, I: int64(i)}
		if i < 24 {
			e = c.g.Value()
		}
		switch k {
		case model.Map:
			n.Keys = append(n.Keys, c.key())
		case model.Sparse:
			if c.large > 0 && c.space < len(keys6)+1 && s.Draw(2) == 1 {
				c.space = c.large + 10
			}
			n.Idx = append(n.Idx, c.sparseIdx(s.Draw(1<<16)))
		}
		n.Elems = append(n.Elems, e)
	}
	switch k {
	case model.Map:
		n.SortMap()
	case model.Sparse:
		n.SortSparse()
	}
	return n
}

func (c *collGen) sparseIdx(pos int) int { return sparseIdx(pos, c.space) }

func sparseIdx(pos, space int) int {
	if pos%61 == 60 {
		return []int{1 << 40, -1 << 40, 1 << 31, 65535, -129}[pos/61%5]
	}
	return pos%(space+4) - 2
}

// index is what an operation's position means in the given collection.
func (o *cop) index(n *model.Node, space int) int {
	if n.K == model.List {
		return o.pos%(len(n.Elems)+4) - 2
	}
	return sparseIdx(o.pos, space)
}

// lower is the first position whose key is not less.
func lowerMap(n *model.Node, key string) int {
	i := 0
	for i < len(n.Keys) && n.Keys[i] < key {
		i++
	}
	return i
}

func lowerIdx(n *model.Node, k int) int {
	i := 0
	for i < len(n.Idx) && n.Idx[i] < k {
		i++
	}
	return i
}

func splice[T any](xs []T, i, del int, ins ...T) []T {
	r := make([]T, 0, len(xs)-del+len(ins))
	r = append(r, xs[:i]...)
	r = append(r, ins...)
	return append(r, xs[i+del:]...)
}

func rep[T any](x T, n int) []T {
	r := make([]T, n)
	for i := range r {
		r[i] = x
	}
	return r
}

// refer applies an operation to the reference collection and returns the new
// one; the old one stays as it is.
func refer(n *model.Node, o *cop, idx int) *model.Node {
	switch n.K {
	case model.Map:
		i := lowerMap(n, o.key)
		eq := 0
		for i+eq < len(n.Keys) && n.Keys[i+eq] == o.key {
			eq++
		}
		set := func(del int, vs []*model.Node) *model.Node {
			return &model.Node{K: model.Map, Keys: splice(n.Keys, i, del, rep(o.key, len(vs))...), Elems: splice(n.Elems, i, del, vs...)}
		}
		switch o.op {
		case oInsert, oAppend:
			return set(0, o.node[:1])
		case oInsertAll:
			return set(0, o.node)
		case oPut:
			return set(min(eq, 1), o.node[:1])
		case oRemove:
			return set(min(eq, 1), nil)
		default:
			return set(eq, nil)
		}
	case model.Sparse:
		if o.op == oAppend {
			idx = value.FirstIndexKey
			if l := len(n.Idx); l > 0 {
				idx = n.Idx[l-1] + 1
			}
		}
		i := lowerIdx(n, idx)
		eq := 0
		for i+eq < len(n.Idx) && n.Idx[i+eq] == idx {
			eq++
		}
		set := func(del int, vs []*model.Node) *model.Node {
			return &model.Node{K: model.Sparse, Idx: splice(n.Idx, i, del, rep(idx, len(vs))...), Elems: splice(n.Elems, i, del, vs...)}
		}
		switch o.op {
		case oInsert, oAppend:
			return set(0, o.node[:1])
		case oInsertAll:
			return set(0, o.node)
		case oPut:
			return set(min(eq, 1), o.node[:1])
		case oRemove:
			return set(min(eq, 1), nil)
		default:
			return set(eq, nil)
		}
	default:
		l := len(n.Elems)
		if o.op == oAppend {
			idx = l
		}
		if idx < 0 {
			return n
		}
		set := func(i, del int, vs ...*model.Node) *model.Node {
			return &model.Node{K: model.List, Elems: splice(n.Elems, i, del, vs...)}
		}
		switch o.op {
		case oInsert, oAppend:
			return set(min(idx, l), 0, o.node[0])
		case oInsertAll:
			return set(min(idx, l), 0, o.node...)
		case oPut:
			if idx < l {
				return set(idx, 1, o.node[0])
			}
			return set(l, 0, append(rep(model.NullNode, idx-l), o.node[0])...)
		default:
			if idx < l {
				return set(idx, 1)
			}
			return n
		}
	}
}

// do applies an operation to the real collection.
func do(v value.Value, o *cop, idx int) value.Value {
	if v.Kind() == value.MAP {
		m := v.(value.Map)
		switch o.op {
		case oInsert, oAppend:
			return m.Insert(o.key, o.vals[0])
		case oPut:
			return m.Put(o.key, o.vals[0])
		case oRemove:
			return m.Remove(o.key)
		case oInsertAll:
			return m.InsertAll(o.key, o.vals)
		default:
			return m.DeleteAll(o.key)
		}
	}
	l := v.(value.List)
	switch o.op {
	case oInsert:
		return l.InsertAt(idx, o.vals[0])
	case oAppend:
		return l.Append(o.vals[0])
	case oPut:
		return l.PutAt(idx, o.vals[0])
	case oRemove:
		return l.RemoveAt(idx)
	case oInsertAll:
		return l.InsertAll(idx, o.vals)
	default:
		return l.DeleteAll(idx)
	}
}

// nulls checks that a null stored by an operation is shown as null, not nil.
func nulls(fail failer, v value.Value, n *model.Node) {
	some := false
	for _, e := range n.Elems {
		some = some || e.Stored
	}
	if !some {
		return
	}
	if n.K == model.Map {
		es := v.(value.Map).Entries()
		for j, e := range n.Elems {
			if e.Stored && j < len(es) && es[j].Value() == nil {
				fail("null", "the null stored under %q of %s is shown as nil", n.Keys[j], core.Clip(n.Canon(), 400))
			}
		}
		return
	}
	es := v.(value.List).Items()
	for j, e := range n.Elems {
		if e.Stored && j < len(es) && es[j].Value() == nil {
			fail("null", "the null stored as item %d of %s is shown as nil", j, core.Clip(n.Canon(), 400))
		}
	}
}

// failer reports a violation.
type failer func(class, format string, a ...any)

var fresh = &model.Builder{Simple: true}

// typed lookups as the reference answers them.
func wantBool(n *model.Node) string {
	if n == nil || n.K == model.Null {
		return model.Snap(value.False)
	}
	v := fresh.Value(n)
	if b, ok := v.(value.Bool); ok {
		return model.Snap(b)
	}
	return model.Snap(value.ParseBoolean(v.String()))
}

func wantNumber(n *model.Node) string {
	if n == nil || n.K == model.Null {
		return model.Snap(value.Zero)
	}
	v := fresh.Value(n)
	if b, ok := v.(value.Number); ok {
		return model.Snap(b)
	}
	return model.Snap(value.ParseNumber(v.String()))
}

func wantString(n *model.Node) string {
	if n == nil || n.K == model.Null {
		return model.Snap(value.EmptyString)
	}
	v := fresh.Value(n)
	if b, ok := v.(value.String); ok {
		return model.Snap(b)
	}
	return model.Snap(value.ParseString(v.String()))
}

func wantList(n *model.Node) string {
	e := &model.Node{K: model.List}
	if n != nil {
		switch n.K {
		case model.List, model.Sparse:
			e = n
		case model.Map:
			e = &model.Node{K: model.List, Elems: n.Elems}
		}
	}
	return e.Canon()
}

// wantMap is "" where the conversion is not specified.
func wantMap(n *model.Node) string {
	e := &model.Node{K: model.Map}
	if n != nil {
		switch n.K {
		case model.Map:
			e = n
		case model.List:
			for i := range n.Elems {
				e.Keys = append(e.Keys, strconv.Itoa(i))
			}
			e.Elems = append(e.Elems, n.Elems...)
			e.SortMap()
		case model.Sparse:
			if n.HasDup() {
				return ""
			}
			for _, i := range n.Idx {
				e.Keys = append(e.Keys, strconv.Itoa(i))
			}
			e.Elems = append(e.Elems, n.Elems...)
			e.SortMap()
		}
	}
	return e.Canon()
}

func canonOf(n *model.Node) string {
	if n == nil {
		return model.NullNode.Canon()
	}
	return n.Canon()
}

func joinNodes(ns []*model.Node) string {
	var b strings.Builder
	for _, n := range ns {
		b.WriteString(canonOf(n))
		b.WriteString(" ")
	}
	return b.String()
}

func joinVals(vs []value.Value) string {
	var b strings.Builder
	for _, v := range vs {
		b.WriteString(model.Snap(v))
		b.WriteString(" ")
	}
	return b.String()
}

// forms compares what else can be observed of a collection (encodings, JSON,
// hash, equality) with a collection of the same content that was built at once.
func forms(fail failer, v value.Value, n *model.Node, which, pos int) {
	alone := fresh.Value(n)
	ask := func(what, got, want string) {
		if got != want {
			fail("form", "%s of %s is %s, of the same content built at once %s", what, core.Clip(n.Canon(), 400), core.Clip(got, 300), core.Clip(want, 300))
		}
	}
	switch pos % 6 {
	case 0:
		w := value.Jsonify(alone)
		switch which % 3 {
		case 0:
			ask("String", v.String(), w)
		case 1:
			g, err := v.MarshalJSON()
			ask("MarshalJSON", fmt.Sprintf("%s %v", g, err), w+" <nil>")
		default:
			ask("Jsonify", value.Jsonify(v), w)
		}
	case 1:
		w, _ := value.Pack(alone)
		if which%2 == 0 {
			g, err := v.MarshalBinary()
			ask("MarshalBinary", fmt.Sprintf("%x %v", g, err), fmt.Sprintf("%x <nil>", w))
		} else {
			ask("Hex", value.Hex(v), hex.EncodeToString(w))
		}
	case 2:
		_, g, err := value.Hash(v, crypto.MD5)
		_, w, _ := value.Hash(alone, crypto.MD5)
		ask("Hash", fmt.Sprintf("%x %v", g, err), fmt.Sprintf("%x <nil>", w))
	default:
		eq := func(what string, o *model.Node, equal bool) {
			x := fresh.Value(o)
			if !equal || !hasNotFinite(n) {
				ask("Equal with "+what, fmt.Sprint(value.Equal(v, x)), fmt.Sprint(equal))
				ask("Equal of "+what, fmt.Sprint(value.Equal(x, v)), fmt.Sprint(equal))
				return
			}
			ask("Equal with "+what, fmt.Sprint(value.Equal(v, x)), fmt.Sprint(value.Equal(alone, x)))
			ask("Equal of "+what, fmt.Sprint(value.Equal(x, v)), fmt.Sprint(value.Equal(x, alone)))
		}
		l := len(n.Elems)
		q := pos / 6
		switch which % 4 {
		case 0:
			if hasNull(n) {
				break // elements may be nil here and null there
			}
			eq("the same content", n, true)
			if l > 0 {
				j := q % l
				eq(fmt.Sprintf("another element %d", j), n.With(j, another(n.Elems[j])), false)
			}
		case 1: // one less
			if l > 0 {
				eq("an element less", without(n, []int{0, l - 1, q % l}[q%3]), false)
			}
		case 2: // another key
			if l > 0 && n.K == model.Map {
				o := *n
				o.Keys = append([]string(nil), n.Keys...)
				o.Keys[l-1] += "+"
				eq("another key", &o, false)
			} else if l > 0 && n.K == model.Sparse {
				o := *n
				o.Idx = append([]int(nil), n.Idx...)
				o.Idx[l-1]++
				eq("another index", &o, false)
			}
		default: // another kind
			eq("a scalar", &model.Node{K: model.Long, I: int64(l)}, false)
			if n.K == model.Map {
				eq("an empty list", &model.Node{K: model.List}, false)
			} else {
				eq("an empty map", &model.Node{K: model.Map}, false)
			}
			ask("Equal with nil", fmt.Sprint(value.Equal(v, nil)), "false")
		}
	}
}

// another is an element of other content, of the same kind where that is easy.
func another(e *model.Node) *model.Node {
	switch e.K {
	case model.Utf8, model.Raw, model.Ext:
		o := *e
		o.S += "+"
		return &o
	case model.Bool:
		return &model.Node{K: model.Bool, B: !e.B}
	case model.Long:
		return &model.Node{K: model.Long, I: e.I ^ 1}
	}
	if len(e.Elems) > 0 && e.K != model.Map {
		return e.With(0, another(e.Elems[0]))
	}
	return &model.Node{K: model.Utf8, S: "another"}
}

// hasNotFinite tells of NaN, which equals nothing, and of infinities, which the
// library's number equality (not a property decided here) does not hold equal.
func hasNotFinite(n *model.Node) bool {
	if n == nil {
		return false
	}
	if n.K == model.Double && n.F-n.F != 0 {
		return true
	}
	for _, e := range n.Elems {
		if hasNotFinite(e) {
			return true
		}
	}
	return false
}

// without is the collection without element j.
func without(n *model.Node, j int) *model.Node {
	o := &model.Node{K: n.K, Elems: splice(n.Elems, j, 1)}
	if n.K == model.Map {
		o.Keys = splice(n.Keys, j, 1)
	}
	if n.K == model.Sparse {
		o.Idx = splice(n.Idx, j, 1)
	}
	return o
}

// lookup asks the collection one question and compares the answer.
func lookup(fail failer, v value.Value, n *model.Node, which int, key string, idx int) {
	if which >= 1 && which <= 7 && idx&3 == 3 {
		// an element that has no content of its own
		for j, e := range n.Elems {
			if e.K != model.Null {
				continue
			}
			switch n.K {
			case model.Map:
				key = n.Keys[j]
			case model.Sparse:
				idx = n.Idx[j]
			default:
				idx = j
			}
			break
		}
	}
	ask := func(what, got, want string) {
		if got != want {
			fail("lookup", "%s of %s answers %s, want %s", what, core.Clip(n.Canon(), 400), core.Clip(got, 300), core.Clip(want, 300))
		}
	}
	if n.K == model.Map {
		m := v.(value.Map)
		i := lowerMap(n, key)
		var hit *model.Node
		var sel []*model.Node
		for j := i; j < len(n.Keys) && n.Keys[j] == key; j++ {
			sel = append(sel, n.Elems[j])
		}
		if len(sel) > 0 {
			hit = sel[0]
		}
		switch which % 12 {
		case 0:
			g := m.Get(key)
			if g == nil && (hit == nil || hit.Stored) {
				fail("lookup", "Get(%q) of %s answers nil, not null", key, core.Clip(n.Canon(), 400))
			}
			ask(fmt.Sprintf("Get(%q)", key), model.Snap(g), canonOf(hit))
		case 1:
			ask(fmt.Sprintf("GetBool(%q)", key), model.Snap(m.GetBool(key)), wantBool(hit))
		case 2:
			ask(fmt.Sprintf("GetNumber(%q)", key), model.Snap(m.GetNumber(key)), wantNumber(hit))
		case 3:
			ask(fmt.Sprintf("GetString(%q)", key), model.Snap(m.GetString(key)), wantString(hit))
		case 4:
			ask(fmt.Sprintf("GetList(%q)", key), model.Snap(m.GetList(key)), wantList(hit))
		case 5:
			if w := wantMap(hit); w != "" {
				ask(fmt.Sprintf("GetMap(%q)", key), model.Snap(m.GetMap(key)), w)
			}
		case 6, 7:
			ask(fmt.Sprintf("Select(%q)", key), joinVals(m.Select(key)), joinNodes(sel))
		case 8:
			ask("Len", strconv.Itoa(m.Len()), strconv.Itoa(len(n.Keys)))
			ask("Keys", fmt.Sprintf("%q", m.Keys()), fmt.Sprintf("%q", n.Keys))
		case 9:
			ask("Values", joinVals(m.Values()), joinNodes(n.Elems))
		case 10:
			var b, w strings.Builder
			for _, e := range m.Entries() {
				fmt.Fprintf(&b, "%q=%s ", e.Key(), model.Snap(e.Value()))
			}
			for j, k := range n.Keys {
				fmt.Fprintf(&w, "%q=%s ", k, canonOf(n.Elems[j]))
			}
			ask("Entries", b.String(), w.String())
		default:
			h := m.HashMap()
			seen := map[string]bool{}
			for _, k := range n.Keys {
				seen[k] = true
			}
			if len(h) != len(seen) {
				fail("lookup", "HashMap of %s has %d keys, want %d", core.Clip(n.Canon(), 400), len(h), len(seen))
			}
			for j, k := range n.Keys {
				single := (j == 0 || n.Keys[j-1] != k) && (j+1 == len(n.Keys) || n.Keys[j+1] != k)
				x, ok := h[k]
				if !ok || single && model.Snap(x) != canonOf(n.Elems[j]) {
					fail("lookup", "HashMap of %s has %s under %q", core.Clip(n.Canon(), 400), model.Snap(x), k)
				}
			}
		}
		return
	}
	l := v.(value.List)
	var hit *model.Node
	var sel []*model.Node
	length := len(n.Elems)
	keys := n.Idx
	if n.K == model.Sparse {
		length = 0
		for j, k := range n.Idx {
			length = k + 1
			if k == idx {
				sel = append(sel, n.Elems[j])
			}
		}
	} else {
		keys = make([]int, length)
		for j := range keys {
			keys[j] = j
		}
		if idx >= 0 && idx < length {
			sel = n.Elems[idx : idx+1]
		}
	}
	if len(sel) > 0 {
		hit = sel[0]
	}
	switch which % 12 {
	case 0, 11:
		g := l.GetAt(idx)
		if g == nil && (hit == nil || hit.Stored) {
			fail("lookup", "GetAt(%d) of %s answers nil, not null", idx, core.Clip(n.Canon(), 400))
		}
		ask(fmt.Sprintf("GetAt(%d)", idx), model.Snap(g), canonOf(hit))
	case 1:
		ask(fmt.Sprintf("GetBoolAt(%d)", idx), model.Snap(l.GetBoolAt(idx)), wantBool(hit))
	case 2:
		ask(fmt.Sprintf("GetNumberAt(%d)", idx), model.Snap(l.GetNumberAt(idx)), wantNumber(hit))
	case 3:
		ask(fmt.Sprintf("GetStringAt(%d)", idx), model.Snap(l.GetStringAt(idx)), wantString(hit))
	case 4:
		ask(fmt.Sprintf("GetListAt(%d)", idx), model.Snap(l.GetListAt(idx)), wantList(hit))
	case 5:
		if w := wantMap(hit); w != "" {
			ask(fmt.Sprintf("GetMapAt(%d)", idx), model.Snap(l.GetMapAt(idx)), w)
		}
	case 6, 7:
		got := l.Select(idx)
		if n.K == model.List && len(sel) == 1 && sel[0].K == model.Null {
			// a stored null may be listed or not
			if len(got) > 1 || len(got) == 1 && model.Snap(got[0]) != "n" {
				fail("lookup", "Select(%d) of %s answers %s", idx, core.Clip(n.Canon(), 400), joinVals(got))
			}
			break
		}
		ask(fmt.Sprintf("Select(%d)", idx), joinVals(got), joinNodes(sel))
	case 8:
		ask("Len", strconv.Itoa(l.Len()), strconv.Itoa(length))
		var b, w strings.Builder
		for _, e := range l.Entries() {
			fmt.Fprintf(&b, "%q=%s ", e.Key(), model.Snap(e.Value()))
		}
		for j, k := range keys {
			fmt.Fprintf(&w, "%q=%s ", strconv.Itoa(k), canonOf(n.Elems[j]))
		}
		ask("Entries", b.String(), w.String())
	case 9:
		if n.K == model.List {
			ask("Values", joinVals(l.Values()), joinNodes(n.Elems))
			break
		}
		if length > 4096 {
			break
		}
		// dense: absent positions are null, negative ones are left out; of
		// several values at one index any may be listed
		vs := l.Values()
		if len(vs) != max(length, 0) {
			fail("lookup", "Values of %s lists %d values, want %d", core.Clip(n.Canon(), 400), len(vs), max(length, 0))
		}
		for j, x := range vs {
			ok := false
			absent := true
			for q, k := range n.Idx {
				if k == j {
					absent = false
					ok = ok || canonOf(n.Elems[q]) == model.Snap(x)
				}
			}
			if absent && model.Snap(x) != "n" || !absent && !ok {
				fail("lookup", "Values of %s lists %s at %d", core.Clip(n.Canon(), 400), model.Snap(x), j)
			}
		}
	default:
		var b, w strings.Builder
		for _, e := range l.Items() {
			fmt.Fprintf(&b, "%d=%s ", e.Key(), model.Snap(e.Value()))
		}
		for j, k := range keys {
			fmt.Fprintf(&w, "%d=%s ", k, canonOf(n.Elems[j]))
		}
		ask("Items", b.String(), w.String())
	}
}

// wireOf decodes the value's encoding independently.
func wireOf(fail failer, v value.Value) string {
	b, err := value.Pack(v)
	if err != nil {
		fail("pack", "Pack fails: %v", err)
	}
	w, _, err := model.DecodeWire(b)
	if err != nil {
		fail("pack", "Pack gives %x, which is %v", clipBytes(b), err)
	}
	return w
}

// probe is an element supplied by the caller: an extension whose methods let
// other tasks run in the middle of the library's operations.
type probe struct{ value.Extension }

func newProbe(n *model.Node) value.Value {
	var u value.Value = value.Unknown(append([]byte{n.Tag}, n.S...))
	return probe{u.(value.Extension)}
}

func (p probe) Pack(k value.Packer) {
	coop.SeamYield()
	p.Extension.Pack(k)
	coop.SeamYield()
}
func (p probe) String() string {
	coop.SeamYield()
	return p.Extension.String()
}
func (p probe) PrintJSON(o *strings.Builder) {
	coop.SeamYield()
	p.Extension.PrintJSON(o)
	coop.SeamYield()
}
func (p probe) Equal(v value.Value) bool {
	coop.SeamYield()
	if q, ok := v.(probe); ok {
		return p.Extension.Equal(q.Extension)
	}
	return p.Extension.Equal(v)
}

// probeEntry is a map entry supplied by the caller.
type probeEntry struct{ value.MapEntry }

func (p probeEntry) Key() string {
	coop.SeamYield()
	return p.MapEntry.Key()
}
func (p probeEntry) Value() value.Value {
	coop.SeamYield()
	return p.MapEntry.Value()
}

// yieldPacker lets other tasks run between the tokens of an encoding.
type yieldPacker struct{ value.Packer }

func (p yieldPacker) PackNil()                      { coop.SeamYield(); p.Packer.PackNil() }
func (p yieldPacker) PackBool(x bool)               { coop.SeamYield(); p.Packer.PackBool(x) }
func (p yieldPacker) PackLong(x int64)              { coop.SeamYield(); p.Packer.PackLong(x) }
func (p yieldPacker) PackDouble(x float64)          { coop.SeamYield(); p.Packer.PackDouble(x) }
func (p yieldPacker) PackStr(x string)              { coop.SeamYield(); p.Packer.PackStr(x) }
func (p yieldPacker) PackBin(x []byte)              { coop.SeamYield(); p.Packer.PackBin(x) }
func (p yieldPacker) PackExt(t value.Ext, x []byte) { coop.SeamYield(); p.Packer.PackExt(t, x) }
func (p yieldPacker) PackList(n int)                { coop.SeamYield(); p.Packer.PackList(n) }
func (p yieldPacker) PackMap(n int)                 { coop.SeamYield(); p.Packer.PackMap(n) }
func (p yieldPacker) PackRaw(x []byte)              { coop.SeamYield(); p.Packer.PackRaw(x) }
