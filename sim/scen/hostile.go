package scen

import (
	"bytes"
	"crypto"
	_ "crypto/sha256"
	"fmt"
	"io"
	"math"
	"math/big"
	"runtime/metrics"

	"github.com/codeallergy/value"
	"github.com/shopspring/decimal"
	"golang.org/x/crypto/nacl/box"
	"verifsim/core"
	"verifsim/model"
	"verifsim/simhook"
)

// The damage world: bytes that storage or the network has damaged, or that a
// hostile peer made up, reach every decoding entry point.

func init() {
	register(&World{Prop: "C04", Name: "damage", Run: runC04, Batch: 6000,
		Rule: "One run damages one message (a valid encoding, a struct, a sealed envelope, a deep nest or garbage) with 0-6 faults and gives the result to every decoding entry point. It is non-trivial if the input is not empty; two runs are distinct if the resulting input bytes differ.",
		Real: "Unpack, Read, ReadStream, Parse, UnpackStruct, Unseal, MessageReader, MessageUnpacker, MessageParser, all value types and their accessors; NaCl box",
		Stub: "network and storage (bit flips, overwritten, lost, duplicated, swapped, zeroed blocks, truncation, splices, inflated lengths, garbage, short and zero-byte reads), hostile peer"})
}

type inner04 struct {
	A value.Number `tag:"1"`
	B value.String `tag:"2"`
	L value.List   `tag:"3"`
	N *inner04     `tag:"13"`
}

type outer04 struct {
	A value.Number    `tag:"1"`
	B value.String    `tag:"2"`
	C value.List      `tag:"3"`
	D value.Map       `tag:"4"`
	E value.Bool      `tag:"5"`
	F value.Value     `tag:"6"`
	G value.Extension `tag:"7"`
	H []value.Number  `tag:"8"`
	I []value.Value   `tag:"9" repeated:"true"`
	J *inner04        `tag:"10"`
	K []*outer04      `tag:"11"`
	L []*inner04      `tag:"12" repeated:"true"`
	M *outer04        `tag:"13"`
	N []value.List    `tag:"14" repeated:"true"`
}

type flat04 struct {
	A value.Number  `tag:"1"`
	B value.String  `tag:"2"`
	F value.Value   `tag:"6"`
	H []value.Value `tag:"8"`
}

type fixedReader byte

func (f fixedReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(f)*31 + byte(i)*7 + 1
	}
	return len(p), nil
}

type keyPair struct{ pub, priv *[32]byte }

func newKeys(seed byte) keyPair {
	pub, priv, err := box.GenerateKey(fixedReader(seed))
	if err != nil {
		core.Harness("%v", err)
	}
	return keyPair{pub, priv}
}

var keys04 = []keyPair{newKeys(1), newKeys(2)}

// probes04 are what decoded values are compared with.
var probes04 = []value.Value{
	value.Long(0), value.Long(math.MinInt64), value.Double(math.Inf(1)), value.Double(math.Inf(-1)), value.Nan, value.Double(1e300), value.Double(5e-324),
	value.BigInt(big.NewInt(-1)), value.BigInt(new(big.Int).Lsh(big.NewInt(1), 200)),
	value.Decimal(decimal.New(1, math.MaxInt32)), value.Decimal(decimal.New(-1, math.MinInt32)), value.Decimal(decimal.New(0, 77)), value.Decimal(decimal.New(15, -1)),
	value.Utf8("0x1x7f"), value.Raw(nil, false), value.True,
	value.EmptyImmutableList(), value.EmptySparseList(), value.EmptyImmutableMap(), value.EmptyMutableMap(), value.EmptyMutableList(),
	value.Tuple(value.Null, nil, value.Double(math.Inf(1))), value.SparseListOf([]value.Value{nil, value.Long(1), value.Null}),
	value.SparseList([]value.ListItem{value.MutableItem(-5, nil)}, true), value.SparseList([]value.ListItem{value.MutableItem(math.MaxInt64, value.True)}, true),
	value.SortedMapOf(map[string]value.Value{"k": nil, "": value.Null}), value.ImmutableMapOf(map[string]value.Value{"a": value.Nan, "0": value.Zero}),
	value.Unknown([]byte{5, 6}),
}

const nProbeNumbers = 13

var nasty = []string{"", "0x", "-0x", "0x1x1122334455", "0xzz", "0x1x7f", "0x1x", "0x1x-", "0x1x80000000", "-", "nan", "null", "1.", ".", "..", "1e999999999", "9223372036854775808",
	"-9223372036854775809", "0x0000000000000000001", "base64,", "base64,!!!!", "base64,AA", "data:", "data:application/x-msgpack-ext;base64,", "true", "TRUE", "t", "\x00", "\xff\xfe", "\"", "\\", "0xx", "-0x1x-ffffffff", "0x1x0123456789"}

var lengths = []uint32{0xffffffff, 0x7fffffff, 0x80000000, 0xfffffffe, 0x00ffffff, 0x01000000, 0x00100000, 0x10000000, 0x00010000, 0x0000ffff, 300, 17}

type hostile struct {
	s     *core.Sim
	g     *model.Gen
	input []byte
	deep  int

	dense    value.List // a sparse list whose values, gaps included, fit no memory
	denseKey int
}

func (h *hostile) nastyNode() *model.Node {
	s := h.s
	n := &model.Node{}
	leaf := func() *model.Node {
		switch s.Weighted(5, 1, 1, 1, 1) {
		case 1:
			return &model.Node{K: model.Raw, S: nasty[s.Draw(len(nasty))]}
		case 2:
			return model.NullNode
		case 3:
			return &model.Node{K: model.Double, F: []float64{math.NaN(), math.Inf(1), math.Inf(-1), 1e300, -0.0}[s.Draw(5)]}
		case 4:
			return h.g.Scalar()
		}
		return &model.Node{K: model.Utf8, S: nasty[s.Draw(len(nasty))]}
	}
	k := 1 + s.Draw(4)
	switch s.Draw(3) {
	case 0:
		n.K = model.List
		for i := 0; i < k; i++ {
			n.Elems = append(n.Elems, leaf())
		}
	case 1:
		n.K = model.Map
		for i := 0; i < k; i++ {
			n.Keys = append(n.Keys, nasty[s.Draw(len(nasty))])
			n.Elems = append(n.Elems, leaf())
		}
		n.SortMap()
	default:
		n.K = model.Sparse
		for i := 0; i < k; i++ {
			n.Idx = append(n.Idx, []int{0, 1, 2, -1, -2, -100, 5, math.MaxInt64, math.MinInt64, 1 << 40, math.MaxInt32}[s.Draw(11)])
			n.Elems = append(n.Elems, leaf())
		}
		n.SortSparse()
	}
	return n
}

// structBytes makes something like an encoded struct.
func (h *hostile) structBytes(depth int) []byte {
	s := h.s
	s.Begin()
	defer s.End()
	var b []byte
	k := s.Draw(6)
	b = append(b, 0x80|byte(k))
	for i := 0; i < k; i++ {
		tag := byte(1 + s.Draw(15))
		b = append(b, tag)
		sub := func() {
			if depth < 4 {
				b = append(b, h.structBytes(depth+1)...)
			} else {
				b = append(b, 0x80)
			}
		}
		right := s.Draw(8) > 0
		switch {
		case !right:
			b = append(b, h.g.Value().Encode(nil, s, true)...)
		case tag == 1:
			b = (&model.Node{K: model.Long, I: h.g.Integer()}).Encode(b, s, false)
		case tag == 2:
			b = (&model.Node{K: model.Utf8, S: nasty[s.Draw(len(nasty))]}).Encode(b, s, false)
		case tag == 3 || tag == 14:
			b = append(b, 0x92, 1, 0xc0)
		case tag == 4:
			b = append(b, 0x81, 0xa1, 'k', 2)
		case tag == 5:
			b = append(b, 0xc3)
		case tag == 7:
			b = append(b, 0xd4, 5, 6)
		case tag == 8:
			b = append(b, 0x93, 1, 2, 0xcb, 0, 0, 0, 0, 0, 0, 0, 0)
		case tag == 10 || tag == 12 || tag == 13:
			sub()
		case tag == 11:
			n := s.Draw(3)
			b = append(b, 0x90|byte(n))
			for j := 0; j < n; j++ {
				sub()
			}
		default:
			b = append(b, h.g.Value().Encode(nil, s, true)...)
		}
	}
	return b
}

func (h *hostile) nest() []byte {
	s := h.s
	units := []string{"\x91", "\x81\x01", "\x81\xa1k", "\x81", "\xdd\x00\x00\x00\x01", "\x81\x0d", "\x81\x0b\x91", "\x81\x0c", "\x92\x01", "\xdf\x00\x00\x00\x01\x01", "\x81\x06\x91", "\x91\x81\xa1a"}
	n := 0
	u := units[s.Draw(len(units))]
	switch s.Weighted(60, 30, 10) {
	case 0:
		n = 1 + s.Draw(60)
	case 1:
		n = 60 + s.Draw(2000)
	default:
		n = []int{9000, 10500, 20000, 60000}[s.Draw(4)]
		if s.Rare(16) {
			n = 3000000
			if s.Draw(2) == 1 {
				u = "\x81\x0d" // structs in structs
			}
			s.Hit("nest:3000000")
		}
	}
	b := bytes.Repeat([]byte(u), n)
	if s.Draw(4) == 3 {
		v := units[s.Draw(len(units))]
		b = append(b, bytes.Repeat([]byte(v), min(n, 3000))...)
	}
	if s.Draw(3) > 0 {
		b = append(b, h.g.Scalar().Encode(nil, s, true)...)
		if u == "\x81" { // nested in keys: each needs a value too
			b = append(b, bytes.Repeat([]byte{0xc0}, n)...)
		}
	}
	h.deep = n
	s.Hit("input:nest")
	return b
}

// forged makes an extension that claims to be a number, among other values.
func (h *hostile) forged() []byte {
	s := h.s
	s.Hit("input:forged-extension")
	var b []byte
	k := 1 + s.Draw(3)
	if k > 1 {
		b = append(b, 0x90|byte(k))
	}
	for i := 0; i < k; i++ {
		s.Begin()
		if k > 1 && s.Draw(3) == 2 {
			b = h.g.Scalar().Encode(b, s, false)
			s.End()
			continue
		}
		n := s.Draw(24)
		if s.Rare(30) {
			n = 250 + s.Draw(10)
		}
		var d []byte
		for len(d) < n {
			d = append(d, []byte{0, 1, 2, 3, 4, 5, 0x80, 0xff, 0x7f}[s.Draw(9)])
		}
		tag := byte(1 + s.Draw(4))
		switch f := s.Draw(4); {
		case f == 0 && (n == 1 || n == 2 || n == 4 || n == 8 || n == 16):
			b = append(b, 0xd4+byte(map[int]int{1: 0, 2: 1, 4: 2, 8: 3, 16: 4}[n]))
		case f <= 1 && n < 256:
			b = append(b, 0xc7, byte(n))
		case f <= 2:
			b = append(b, 0xc8, byte(n>>8), byte(n))
		default:
			b = append(b, 0xc9, 0, 0, byte(n>>8), byte(n))
		}
		b = append(append(b, tag), d...)
		s.End()
	}
	return b
}

// bulk makes one large collection, which costs time or memory if its elements
// are handled other than one by one.
func (h *hostile) bulk() []byte {
	s := h.s
	s.Hit("input:bulk")
	n := 500 + s.Draw(8000)
	if s.Rare(8) {
		n = 20000 + s.Draw(40000)
	}
	rng := s.Sub()
	order := s.Draw(5)
	kind := s.Draw(12)
	if kind > 6 {
		return bulkStruct(kind-7, n)
	}
	at := func(i int) int {
		switch order {
		case 0:
			return n - i
		case 1:
			return int(rng.N(uint32(n)))
		case 2:
			return 7
		case 3:
			return min(i, n-i)
		}
		return i
	}
	var b []byte
	if kind == 6 {
		b = append(b, 0xdd, 0, 0, byte(n>>8), byte(n))
	} else {
		b = append(b, 0xdf, 0, 0, byte(n>>8), byte(n))
	}
	for i := 0; i < n; i++ {
		x := at(i)
		k := kind
		if k == 4 {
			k = i % 3
		}
		if k == 5 {
			if k = 0; i > n/2 {
				k = 1
			}
		}
		switch k {
		case 0:
			b = append(b, 0xcd, byte(x>>8), byte(x))
		case 1:
			b = append(b, fmt.Sprintf("\xa6%06d", x)...)
		case 2:
			b = append(b, 0xd6, 1, 0, byte(x>>16), byte(x>>8), byte(x))
		case 3:
			b = append(b, 0xc4, 2, byte(x>>8), byte(x))
		}
		b = append(b, byte(i&0x7f))
	}
	return b
}

// bulkStruct makes a struct with one large or often repeated field.
func bulkStruct(kind, n int) []byte {
	one := [][]byte{{9, 1}, {12, 0x80}, {14, 0x90}}
	if kind < len(one) {
		b := []byte{0xdf, 0, 0, byte(n >> 8), byte(n)}
		return append(b, bytes.Repeat(one[kind], n)...)
	}
	b := []byte{0x81, byte(8 + 3*(kind-3)), 0xdd, 0, 0, byte(n >> 8), byte(n)}
	return append(b, bytes.Repeat([]byte{byte(0x01 + 0x7f*(kind-3))}, n)...)
}

func (h *hostile) build() {
	s := h.s
	h.g = model.NewGen(s)
	h.g.Mixed = true
	h.g.HugePct = 0
	s.Begin()
	switch s.Weighted(50, 18, 12, 12, 8, 8, 6) {
	case 0:
		for i, n := 0, 1+s.Draw(2); i < n; i++ {
			h.input = append(h.input, h.g.Value().Encode(nil, s, true)...)
		}
		s.Hit("input:encoding")
	case 1:
		h.input = h.structBytes(0)
		s.Hit("input:struct")
	case 2:
		n := h.nastyNode()
		if s.Draw(3) == 2 {
			n = &model.Node{K: model.List, Elems: []*model.Node{n, h.nastyNode()}}
		}
		h.input = n.Encode(nil, s, true)
		s.Hit("input:awkward-content")
	case 3:
		h.input = h.nest()
	case 5:
		h.input = h.forged()
	case 6:
		h.input = h.bulk()
	default:
		n := s.Draw(40)
		if s.Rare(20) {
			n = s.Draw(4000)
		}
		h.input = s.Sub().Bytes(n)
		s.Hit("input:garbage")
	}
	s.End()
	ops := s.Weighted(20, 35, 20, 10, 5, 5, 5)
	for i := 0; i < ops; i++ {
		s.Begin()
		h.damage()
		s.End()
	}
	if ops == 0 {
		s.Hit("input:undamaged")
	}
}

func (h *hostile) pos() int {
	s := h.s
	b := h.input
	if s.Draw(4) == 3 || len(b) > 1<<16 {
		return s.Draw(len(b) + 1)
	}
	t := model.Tokens(b)
	p := t[s.Draw(len(t))]
	if s.Draw(4) == 3 {
		p += s.Draw(3)
	}
	return min(p, len(b))
}

func (h *hostile) damage() {
	s := h.s
	b := h.input
	if len(b) == 0 {
		h.input = s.Sub().Bytes(1 + s.Draw(4))
		return
	}
	at := h.pos()
	atB := min(at, len(b)-1)
	span := func() (int, int) {
		n := 1 + s.Draw(8)
		if s.Rare(4) {
			n = 1 + s.Draw(len(b))
		}
		return at, min(at+n, len(b))
	}
	cut := func(i, j int, mid []byte) []byte {
		r := append([]byte(nil), b[:i]...)
		r = append(r, mid...)
		return append(r, b[j:]...)
	}
	switch s.Draw(11) {
	case 0:
		s.Fault("bit-flip")
		h.input = append([]byte(nil), b...)
		h.input[atB] ^= 1 << uint(s.Draw(8))
	case 1:
		s.Fault("overwrite")
		h.input = append([]byte(nil), b...)
		h.input[atB] = byte([]int{0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xff, 0x00, 0x7f, 0xc1, 0xc0}[s.Draw(11)])
		if s.Draw(3) > 0 {
			h.input[atB] = byte(0xc0 + s.Draw(32))
		}
	case 2:
		s.Fault("lost-block")
		i, j := span()
		h.input = cut(i, j, nil)
	case 3:
		s.Fault("duplicated-block")
		i, j := span()
		h.input = cut(i, i, b[i:j])
	case 4:
		s.Fault("swapped-blocks")
		i, j := span()
		k := min(j+(j-i), len(b))
		h.input = cut(i, k, append(append([]byte(nil), b[j:k]...), b[i:j]...))
	case 5:
		s.Fault("zeroed-block")
		i, j := span()
		h.input = cut(i, j, make([]byte, j-i))
	case 6:
		s.Fault("truncation")
		h.input = append([]byte(nil), b[:at]...)
	case 7:
		s.Fault("splice")
		o := h.g.Value().Encode(nil, s, true)
		h.input = append(append([]byte(nil), b[:at]...), o[s.Draw(len(o)+1):]...)
	case 8, 9:
		s.Fault("inflated-length")
		l := lengths[s.Draw(len(lengths))]
		code := []byte{0xdd, 0xdf, 0xdb, 0xc6, 0xc9}[s.Draw(5)]
		hd := []byte{code, byte(l >> 24), byte(l >> 16), byte(l >> 8), byte(l)}
		if s.Draw(4) == 3 {
			hd = []byte{[]byte{0xdc, 0xde, 0xda, 0xc5, 0xc8}[s.Draw(5)], byte(l >> 8), byte(l)}
		}
		h.input = cut(at, min(at+1, len(b)), hd)
	default:
		s.Fault("garbage-block")
		h.input = cut(at, at, s.Sub().Bytes(1+s.Draw(12)))
	}
}

// storm is a reader that hands out the input in drawn pieces.
type storm struct {
	s     *core.Sim
	b     []byte
	style int
	reads int
	max   int
	zeros int
}

func (r *storm) Read(p []byte) (int, error) {
	r.reads++
	if r.reads > r.max {
		panic(&core.Violation{Class: "steps", Msg: fmt.Sprintf("more than %d reads for %d bytes of input", r.max, len(r.b))})
	}
	if len(p) == 0 {
		return 0, nil
	}
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := min(len(p), len(r.b))
	if r.style > 0 && n > 1 {
		switch {
		case r.style == 1:
			n = 1
		case r.zeros < 20 && r.s.Draw(8) == 7:
			r.zeros++
			r.max++
			return 0, nil
		default:
			n = 1 + r.s.Draw(n)
		}
	}
	copy(p, r.b[:n])
	r.b = r.b[n:]
	if len(r.b) == 0 && r.style == 3 {
		return n, io.EOF
	}
	return n, nil
}

type stormByte struct{ *storm }

func (r stormByte) ReadByte() (byte, error) {
	var b [1]byte
	n, err := r.storm.Read(b[:])
	for n == 0 && err == nil {
		n, err = r.storm.Read(b[:])
	}
	if n == 1 {
		return b[0], nil
	}
	return 0, err
}

// counter counts what a parser asks for.
type counter struct {
	u     value.Unpacker
	calls int
	max   int
}

func (c *counter) tick() {
	c.calls++
	if c.calls > c.max {
		panic(&core.Violation{Class: "steps", Msg: fmt.Sprintf("more than %d decoding steps", c.max)})
	}
}
func (c *counter) Next() (value.Format, []byte) { c.tick(); return c.u.Next() }
func (c *counter) Read(n int) ([]byte, error)   { c.tick(); return c.u.Read(n) }

var memSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(memSample)
	return memSample[0].Value.Uint64()
}

// call runs one decoding call under the memory bound.
func (h *hostile) call(what string, n int, f func()) {
	s := h.s
	s.Logf("%s", what)
	before := allocated()
	// the instrumented build counts the statements of the library as well
	budget := 200000 + 400*int64(n)
	r := &simhook.Runner{Quantum: budget, Park: func(bool) {
		simhook.SetCur(nil)
		panic(&core.Violation{Class: "statements", Msg: fmt.Sprintf("%s of %d bytes (%x) runs more than %d statements", what, n, clipBytes(h.input), budget)})
	}}
	simhook.SetCur(r)
	try(s, what, f)
	simhook.SetCur(nil)
	used := allocated() - before
	if used > 1<<20+4096*uint64(n) {
		s.Fail("memory", "%s of %d bytes (%x) allocates %d bytes", what, n, clipBytes(h.input), used)
	}
	s.Steps++
}

func hasMap(b []byte) bool {
	for _, t := range model.Tokens(b) {
		if t < len(b) {
			c := b[t]
			if c >= 0x80 && c <= 0x8f || c == 0xde || c == 0xdf {
				return true
			}
		}
	}
	return false
}

func runC04(s *core.Sim) {
	h := &hostile{s: s}
	h.build()
	in := h.input
	n, merr := model.Measure(in)
	for i := 0; i < len(in); i += 1 + len(in)/2000 {
		s.Mark(uint64(in[i]))
	}
	s.Mark(uint64(len(in)))
	s.Trivial = len(in) == 0
	s.Logf("input %d bytes: %x (first value: %d bytes, %v)", len(in), clipBytes(in), n, merr)
	if merr != nil {
		s.Hit("input:" + merr.Error())
	} else {
		s.Hit("input:well-formed")
	}
	wire := ""
	if merr == nil && h.deep < 5000 && !hasMap(in[:n]) {
		wire, _, _ = model.DecodeWire(in[:n])
	}
	orig := append([]byte(nil), in...)
	var other value.Value
	got := func(what string, v value.Value, err error) {
		if err == nil && v == nil {
			s.Fail("nothing", "%s returns neither a value nor an error for %x", what, clipBytes(orig))
		}
		if err != nil {
			s.Hit("result:error")
			s.Observe("error")
			return
		}
		s.Hit("result:value")
		if merr != nil {
			s.Fail("junk", "%s returns a value (%s) although the input %x is %v", what, v.Kind(), clipBytes(orig), merr)
		}
		if wire != "" {
			var p []byte
			try(s, "Pack of the value from "+what, func() { p, err = value.Pack(v) })
			w, _, e2 := model.DecodeWire(p)
			if err != nil || e2 != nil || w != wire {
				s.Fail("wrong-value", "%s of %x gives a value that encodes as %s (%v %v), want %s", what, clipBytes(orig), core.Clip(w, 300), err, e2, core.Clip(wire, 300))
			}
			s.Hit("result:content-checked")
		}
		h.use(v, other)
		if other == nil {
			other = v
		}
	}
	limit := 8*len(in) + 64
	order := s.Draw(8)
	for k := 0; k < 8; k++ {
		switch (k + order) % 8 {
		case 0, 1:
			cp := (k+order)%8 == 0
			var v value.Value
			var err error
			what := fmt.Sprintf("Unpack(copy=%v)", cp)
			h.call(what, len(in), func() { v, err = value.Unpack(in, cp) })
			got(what, v, err)
		case 2:
			var v value.Value
			var err error
			r := &storm{s: s, b: in, style: s.Draw(4), max: limit}
			var rd io.Reader = r
			if s.Draw(2) == 1 {
				rd = stormByte{r}
			}
			h.call("Read", len(in), func() { v, err = value.Read(rd) })
			got("Read", v, err)
		case 3:
			r := &storm{s: s, b: in, style: s.Draw(4), max: limit}
			var rd io.Reader = r
			if s.Draw(2) == 1 {
				rd = stormByte{r}
			}
			if len(in) > 1<<20 {
				break
			}
			c := make(chan value.Value, len(in)+1)
			var err error
			h.call("ReadStream", len(in), func() { err = value.ReadStream(rd, c) })
			if err == nil {
				s.Fail("no-error", "ReadStream of %x ends without an error", clipBytes(orig))
			}
			off := 0
			for v := range c {
				m, e := model.Measure(in[off:])
				if e != nil {
					s.Fail("junk", "ReadStream returns a value (%s) although the input at byte %d of %x is %v", v.Kind(), off, clipBytes(orig), e)
				}
				if off == 0 {
					got("ReadStream", v, nil)
				} else {
					h.use(v, other)
				}
				off += m
			}
		case 4, 5:
			var v value.Value
			var err error
			var u value.Unpacker
			if (k+order)%8 == 4 {
				u = value.MessageUnpacker(in, s.Draw(2) == 1)
			} else {
				u = value.MessageReader(&storm{s: s, b: in, style: s.Draw(4), max: limit})
			}
			cu := &counter{u: u, max: limit}
			h.call("Parse", len(in), func() { v, err = value.Parse(cu, value.MessageParser()) })
			got("Parse", v, err)
		case 6:
			var err error
			var o any
			switch s.Draw(4) {
			case 0:
				o = &flat04{}
			case 3:
				o = &inner04{}
			default:
				o = &outer04{}
			}
			h.call("UnpackStruct", len(in), func() { err = value.UnpackStruct(in, o, s.Draw(2) == 1) })
			if err != nil {
				s.Observe("struct error")
				break
			}
			s.Hit("result:struct")
			if merr != nil {
				s.Fail("junk", "UnpackStruct succeeds although the input %x is %v", clipBytes(orig), merr)
			}
			var p []byte
			try(s, "PackStruct of the unpacked struct", func() { p, err = value.PackStruct(o) })
			if err != nil {
				s.Fail("struct-repack", "the struct unpacked from %x cannot be packed: %v", clipBytes(orig), err)
			}
			s.Observe(fmt.Sprintf("struct %x", clipBytes(p)))
			for _, v := range fields04(o) {
				h.use(v, other)
			}
		default:
			var v value.Value
			var err error
			if s.Draw(3) == 0 || len(in) > 1<<16 {
				// the input itself, taken for an envelope
				h.call("Unseal", len(in), func() { v, err = value.Unseal(in, keys04[0].pub, keys04[1].priv) })
				if err == nil {
					s.Fail("junk", "Unseal opens %x, which nobody sealed", clipBytes(orig))
				}
				s.Hit("unseal:forged")
				break
			}
			// a hostile peer seals the input
			var nonce [24]byte
			copy(nonce[:], s.Sub().Bytes(24))
			e := box.Seal(nonce[:], in, &nonce, keys04[1].pub, keys04[0].priv)
			h.call("Unseal", len(e), func() { v, err = value.Unseal(e, keys04[0].pub, keys04[1].priv) })
			got("Unseal", v, err)
			s.Hit("unseal:opened")
		}
	}
	if len(in) < 1<<12 {
		h.call("UnpackBigInt", len(in), func() {
			if x, err := value.UnpackBigInt(in); err == nil {
				h.use(value.BigInt(x), other)
			}
		})
		h.call("UnpackDecimal", len(in), func() {
			if x, err := value.UnpackDecimal(in); err == nil {
				h.use(value.Decimal(x), other)
			}
		})
	}
	if h.dense != nil && s.Draw(20) == 19 {
		s.Hit("values of a vast sparse list")
		func() {
			defer func() {
				if e := recover(); e != nil {
					s.Fail("values-vast", "Values of a decoded sparse list with index %d panics: %v", h.denseKey, e)
				}
			}()
			_ = h.dense.Values()
		}()
	}
	if !bytes.Equal(in, orig) {
		s.Fail("input-modified", "decoding changed its input from %x to %x", clipBytes(orig), clipBytes(in))
	}
}

func fields04(o any) []value.Value {
	var vs []value.Value
	add := func(v value.Value, ok bool) {
		if ok {
			vs = append(vs, v)
		}
	}
	switch x := o.(type) {
	case *flat04:
		add(x.A, x.A != nil)
		add(x.B, x.B != nil)
		add(x.F, x.F != nil)
		vs = append(vs, x.H...)
	case *inner04:
		add(x.A, x.A != nil)
		add(x.B, x.B != nil)
		add(x.L, x.L != nil)
	case *outer04:
		add(x.A, x.A != nil)
		add(x.B, x.B != nil)
		add(x.C, x.C != nil)
		add(x.D, x.D != nil)
		add(x.E, x.E != nil)
		add(x.F, x.F != nil)
		add(x.G, x.G != nil)
		for _, e := range x.H {
			add(e, true)
		}
		vs = append(vs, x.I...)
		for _, e := range x.N {
			add(e, true)
		}
	}
	if len(vs) > 20 {
		vs = vs[:20]
	}
	return vs
}

// printable reports that v is not too deep to be printed at every level.
func printable(v value.Value, depth int, budget *int) bool {
	*budget--
	if v == nil || *budget < 0 {
		return true
	}
	if depth > 300 {
		return false
	}
	switch v.Kind() {
	case value.LIST:
		for _, it := range v.(value.List).Items() {
			if !printable(it.Value(), depth+1, budget) {
				return false
			}
		}
	case value.MAP:
		for _, e := range v.(value.Map).Entries() {
			if !printable(e.Value(), depth+1, budget) {
				return false
			}
		}
	}
	return true
}

// use does with a decoded value what a program does with it.
func (h *hostile) use(v value.Value, other value.Value) {
	s := h.s
	what := ""
	try(s, "using the decoded value", func() {
		defer func() {
			if e := recover(); e != nil {
				if s.Verbose {
					s.Logf("panic in %s", what)
				}
				panic(e)
			}
		}()
		what = "Pack"
		p, err := value.Pack(v)
		if err != nil {
			s.Fail("repack", "a decoded value cannot be packed: %v", err)
		}
		if _, err := model.Measure(p); err != nil {
			s.Fail("repack", "a decoded value packs into bytes that are %v: %x", err, clipBytes(p))
		}
		s.Observe(fmt.Sprintf("value %d %x", len(p), clipBytes(p)))
		what = "Hash"
		if _, _, err := value.Hash(v, crypto.SHA256); err != nil {
			s.Fail("repack", "a decoded value cannot be hashed: %v", err)
		}
		what = "MarshalBinary"
		if _, err := v.MarshalBinary(); err != nil {
			s.Fail("repack", "a decoded value cannot be marshalled: %v", err)
		}
		what = "Equal"
		if len(p) < 1<<16 {
			self := v.Equal(v)
			if !self && !bytes.Contains(p, []byte{0xcb, 0x7f}) && !bytes.Contains(p, []byte{0xcb, 0xff}) {
				s.Fail("not-itself", "a decoded value (%x) is not equal to itself", clipBytes(p))
			}
			if other != nil {
				what = "Equal with another value"
				value.Equal(v, other)
				value.Equal(other, v)
			}
			value.Equal(v, nil)
			value.Equal(v, value.Null)
			what = "Equal with ordinary values"
			for i, n := s.Draw(len(probes04)), 0; n < 4; i, n = i+1, n+1 {
				o := probes04[i%len(probes04)]
				value.Equal(v, o)
				value.Equal(o, v)
			}
		}
		budget := 3000
		if printable(v, 0, &budget) && budget >= 0 {
			what = "printing"
			_ = value.Hex(v)
			_ = v.String()
			_ = value.Jsonify(v)
			if _, err := v.MarshalJSON(); err != nil {
				s.Fail("print", "a decoded value has no JSON form: %v", err)
			}
			n := 60
			h.look(v, 0, &n, &what)
			s.Hit("used:fully")
		} else {
			s.Hit("used:without-printing")
		}
		if other != nil && other.Kind() == v.Kind() && len(p) < 1<<12 {
			h.relate(v, other, &what)
		}
	})
}

// relate compares parts of two values of one kind.
func (h *hostile) relate(a, b value.Value, what *string) {
	*what = "Equal of parts"
	if a.Kind() == value.LIST {
		x, y := a.(value.List), b.(value.List)
		for i := -1; i < 4; i++ {
			value.Equal(x.GetAt(i), y.GetAt(i))
			value.Equal(x, y.GetAt(i))
		}
		d := x.DeleteAll(0)
		value.Equal(x, d)
		value.Equal(d, x)
	}
}

func (h *hostile) look(v value.Value, depth int, n *int, what *string) {
	if v == nil || *n <= 0 || depth > 4 {
		return
	}
	*n--
	_ = v.Class()
	_ = v.Object()
	switch v.Kind() {
	case value.NUMBER:
		x := v.(value.Number)
		*what = "number accessors"
		_ = x.IsNaN()
		_ = x.Type()
		_, _ = x.Long(), x.Double()
		_, _ = x.BigInt(), x.Decimal()
		*what = "comparing numbers"
		for _, o := range probes04[:nProbeNumbers] {
			value.Equal(x, o)
			value.Equal(o, x)
		}
	case value.STRING:
		x := v.(value.String)
		*what = "string accessors"
		_, _, _ = x.Len(), x.Utf8(), x.Raw()
	case value.UNKNOWN:
		*what = "extension accessors"
		_ = v.(value.Extension).Native()
	case value.LIST:
		x := v.(value.List)
		*what = "list listings"
		items := x.Items()
		_ = x.Len()
		_ = x.Entries()
		if m := len(items); m == 0 || items[m-1].Key() < 4096 {
			*what = "list values"
			_ = x.Values()
		} else if k := items[m-1].Key(); k >= 1<<60 {
			h.dense, h.denseKey = x, k
		}
		ks := []int{-1, 0, 1, x.Len(), math.MaxInt64, math.MinInt64}
		for i := 0; i < len(items) && i < 5; i++ {
			ks = append(ks, items[i].Key())
		}
		for _, k := range ks {
			*what = fmt.Sprintf("GetAt(%d)", k)
			e := x.GetAt(k)
			*what = fmt.Sprintf("GetBoolAt(%d)", k)
			_ = x.GetBoolAt(k)
			*what = fmt.Sprintf("GetNumberAt(%d)", k)
			_ = x.GetNumberAt(k)
			*what = fmt.Sprintf("GetStringAt(%d)", k)
			_ = x.GetStringAt(k)
			*what = fmt.Sprintf("GetListAt(%d)", k)
			_ = x.GetListAt(k)
			*what = fmt.Sprintf("GetMapAt(%d)", k)
			_ = x.GetMapAt(k)
			*what = fmt.Sprintf("Select(%d)", k)
			_ = x.Select(k)
			h.look(e, depth+1, n, what)
		}
	case value.MAP:
		x := v.(value.Map)
		*what = "map listings"
		ents := x.Entries()
		_, _, _, _ = x.Len(), x.Keys(), x.Values(), x.HashMap()
		ks := []string{"", "k", "\xff", "0"}
		for i := 0; i < len(ents) && i < 5; i++ {
			ks = append(ks, ents[i].Key())
		}
		for _, k := range ks {
			*what = fmt.Sprintf("Get(%q)", k)
			e := x.Get(k)
			*what = fmt.Sprintf("GetBool(%q)", k)
			_ = x.GetBool(k)
			*what = fmt.Sprintf("GetNumber(%q)", k)
			_ = x.GetNumber(k)
			*what = fmt.Sprintf("GetString(%q)", k)
			_ = x.GetString(k)
			*what = fmt.Sprintf("GetList(%q)", k)
			_ = x.GetList(k)
			*what = fmt.Sprintf("GetMap(%q)", k)
			_ = x.GetMap(k)
			*what = fmt.Sprintf("Select(%q)", k)
			_ = x.Select(k)
			h.look(e, depth+1, n, what)
		}
	}
}
