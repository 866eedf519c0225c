package model

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"

	"verifsim/core"
)

// Gen draws value content.
type Gen struct {
	S        *core.Sim
	Depth    int  // maximum nesting
	Nodes    int  // budget of nodes
	BigPct   int  // chance (in 1/1000) of a boundary-sized payload
	HugePct  int  // chance (in 1/1000) of a payload or container beyond 65535
	NoDup    bool // no duplicate keys
	NoSparse bool
	NoNull   bool // no null at top level
	KeySpace int  // map keys are drawn from a small space (0: default)
	Mixed    bool // maps whose keys a foreign encoder may write as integers
	Plain    bool // only strings, numbers, bools
}

func NewGen(s *core.Sim) *Gen { return &Gen{S: s, Depth: 3, Nodes: 24, BigPct: 30, HugePct: 1} }

var sizes = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 14, 15, 16, 17, 30, 31, 32, 33, 127, 128, 254, 255, 256, 257, 300}
var midSizes = []int{500, 511, 512, 513, 999, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4090, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 16384, 32767, 32768, 32769}
var bigSizes = []int{65534, 65535, 65536, 65537, 70000}

func (g *Gen) size() int {
	s := g.S
	d := s.Draw(1000)
	switch {
	case d >= 1000-g.HugePct:
		s.Hit("value:payload>=65534")
		return bigSizes[s.Draw(len(bigSizes))]
	case d >= 1000-g.HugePct-g.BigPct:
		if s.Draw(8) == 7 {
			s.Hit("value:payload>=500")
			return midSizes[s.Draw(len(midSizes))]
		}
		if s.Draw(8) == 7 {
			return s.Draw(1200)
		}
		return sizes[s.Draw(len(sizes))]
	default:
		return s.Draw(9)
	}
}

func (g *Gen) text(n int) string {
	s := g.S
	if n > 40 {
		r := s.Sub()
		b := r.Bytes(n)
		if s.Draw(4) < 3 {
			for i := range b {
				b[i] = 'a' + b[i]%26
			}
		}
		return string(b)
	}
	b := make([]byte, 0, n)
	mode := s.Draw(6)
	for len(b) < n {
		switch {
		case mode == 4 && n-len(b) >= 2:
			b = append(b, "é"...)
		case mode == 5:
			b = append(b, byte(s.Draw(256)))
		default:
			b = append(b, "abcdefgh0123-.x\"\\ "[s.Draw(18)])
		}
	}
	return string(b)
}

// Payload draws a payload of 30000 bytes and more.
func (g *Gen) Payload() string {
	n := []int{32767, 32769, 65535, 65536, 65537, 70000, 100000, 131073}[g.S.Draw(8)]
	if g.S.Draw(3) == 2 {
		n = 30000 + g.S.Draw(70000)
	}
	if g.S.Rare(24) {
		g.S.Hit("value:payload>=1MiB")
		n = []int{1<<20 - 1, 1 << 20, 1<<20 + 1, 3 << 20}[g.S.Draw(4)]
	}
	return g.bytes(n)
}

func (g *Gen) bytes(n int) string {
	if n > 40 {
		return string(g.S.Sub().Bytes(n))
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(g.S.Draw(256))
	}
	return string(b)
}

var edges = []int64{0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64,
	-1, -31, -32, -33, -127, -128, -129, -32768, -32769, math.MinInt32, math.MinInt32 - 1, math.MinInt64, math.MinInt64 + 1}

func (g *Gen) Integer() int64 {
	s := g.S
	switch s.Weighted(4, 4, 2) {
	case 0:
		return int64(s.Draw(100))
	case 1:
		return edges[s.Draw(len(edges))]
	default:
		return int64(s.Sub().U64()) >> uint(s.Draw(63))
	}
}

func (g *Gen) bigInt() *big.Int {
	s := g.S
	n := []int{0, 1, 2, 3, 4, 6, 7, 8, 9, 14, 15, 16, 17, 30, 254, 255}[s.Draw(16)]
	if s.Rare(50) {
		n = []int{31, 32, 33, 63, 64, 65, 100, 249, 250, 251, 256, 257, 300, 1000, 4096}[s.Draw(15)]
	}
	b := []byte(g.bytes(n))
	if n > 0 && b[0] == 0 {
		b[0] = 1
	}
	x := new(big.Int).SetBytes(b)
	if s.Draw(2) == 1 {
		x.Neg(x)
	}
	return x
}

var floats = []float64{0, 1, -1, 0.5, -12.34, math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1), math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, 1e300, 3,
	math.SmallestNonzeroFloat32, -0x1.fffffcp-127, 0x1p-126, 0x1.000002p0, -math.MaxFloat32, 0x1.fffffffp127, 0x1p-1022, math.Float64frombits(0x7ff0000000000001), math.Float64frombits(0xfff8000000000001), 1 << 53, -1<<63, 1e15}

// Scalar draws a value that is not a collection.
func (g *Gen) Scalar() *Node {
	s := g.S
	k := s.Weighted(6, 2, 3, 5, 3, 3, 2, 3, 3)
	if g.Plain && (k == 1 || k == 8) {
		k = 0
	}
	switch k {
	case 0:
		return &Node{K: Long, I: g.Integer()}
	case 1:
		if g.NoNull {
			return &Node{K: Long, I: 7}
		}
		return NullNode
	case 2:
		return &Node{K: Bool, B: s.Draw(2) == 1}
	case 3:
		return &Node{K: Utf8, S: g.text(g.size())}
	case 4:
		return &Node{K: Raw, S: g.bytes(g.size())}
	case 5:
		switch s.Draw(4) {
		case 0:
			return &Node{K: Double, F: floats[s.Draw(len(floats))]}
		case 1:
			return &Node{K: Double, F: float64(s.Draw(1000)) / 8}
		case 2:
			return &Node{K: Double, F: float64(math.Float32frombits(uint32(s.Sub().U64())))}
		default:
			return &Node{K: Double, F: math.Float64frombits(s.Sub().U64())}
		}
	case 6:
		return &Node{K: BigInt, Big: g.bigInt()}
	case 7:
		e := []int32{0, 1, -1, 2, -2, 7, -19, 127, -128, 300, math.MaxInt32, math.MinInt32, math.MinInt32 + 1}[s.Draw(13)]
		if s.Draw(8) == 7 {
			e = int32(s.Draw(1<<16)) - 1<<15
		}
		return &Node{K: Decimal, Big: g.bigInt(), Exp: e}
	default:
		tag := byte(s.Draw(256))
		if tag == 1 || tag == 2 {
			tag += 2
		}
		return &Node{K: Ext, Tag: tag, S: g.bytes(g.size())}
	}
}

// Value draws any value.
func (g *Gen) Value() *Node {
	g.S.Begin()
	defer g.S.End()
	return g.value(g.Depth)
}

func (g *Gen) value(depth int) *Node {
	s := g.S
	g.Nodes--
	if depth <= 0 || g.Nodes <= 0 || !s.Chance(45) {
		return g.Scalar()
	}
	return g.coll(depth)
}

// Collection draws a list or map.
func (g *Gen) Collection() *Node {
	g.S.Begin()
	defer g.S.End()
	return g.coll(g.Depth)
}

func (g *Gen) count() int {
	s := g.S
	d := s.Draw(1000)
	switch {
	case d >= 1000-g.HugePct:
		return bigSizes[s.Draw(len(bigSizes))]
	case d >= 1000-g.HugePct-g.BigPct:
		if s.Draw(12) == 11 {
			s.Hit("value:container>=500")
			return midSizes[s.Draw(len(midSizes))]
		}
		if s.Draw(6) == 5 {
			return s.Draw(300)
		}
		return []int{13, 14, 15, 16, 17, 31, 32, 33, 40, 64, 65, 127, 128, 129, 255, 256, 257}[s.Draw(17)]
	default:
		return s.Draw(5)
	}
}

func (g *Gen) chain() int {
	s := g.S
	if s.Draw(10) == 9 {
		s.Hit("value:chain>40")
		return []int{63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 512, 1000, 1025}[s.Draw(16)]
	}
	return s.Range(1, 40)
}

func (g *Gen) coll(depth int) *Node {
	s := g.S
	w := []int{5, 4, 3}
	if g.NoSparse {
		w[2] = 0
	}
	kind := s.Weighted(w...)
	if s.Rare(60) { // a chain
		n := g.Scalar()
		for i, d := 0, g.chain(); i < d; i++ {
			if s.Draw(3) == 2 {
				n = &Node{K: Map, Keys: []string{"k"}, Elems: []*Node{n}}
			} else {
				n = &Node{K: List, Elems: []*Node{n}}
			}
		}
		s.Hit("value:chain")
		return n
	}
	n := g.count()
	small := n > 12
	if n >= 65534 {
		s.Hit("value:container>=65534")
	} else if n > 12 {
		s.Hit("value:container>12")
	}
	pattern := 0
	if small {
		pattern = s.Draw(6)
	}
	elem := func(i int) *Node {
		if small {
			switch {
			case pattern == 3 && i%3 == 0:
				return &Node{K: Utf8, S: strconv.Itoa(i)}
			case pattern == 4 && (i%16 == 15 || i == n-1):
				return []*Node{{K: List}, {K: List, Elems: []*Node{{K: Long, I: int64(i)}}}, {K: Map, Keys: []string{"k"}, Elems: []*Node{{K: Bool}}}, NullNode, {K: Raw, S: "r"}, {K: Double, F: 1.5}}[i/16%6]
			case pattern == 5:
				return &Node{K: Double, F: float64(i) / 4}
			case n > 300:
				return &Node{K: Long, I: int64(i % 100)}
			}
			return &Node{K: Long, I: int64(i * 7)}
		}
		return g.value(depth - 1)
	}
	switch kind {
	case 0:
		l := &Node{K: List}
		for i := 0; i < n; i++ {
			l.Elems = append(l.Elems, elem(i))
		}
		return l
	case 1:
		m := &Node{K: Map}
		run := 1
		if small && !g.NoDup && s.Draw(4) == 3 {
			run = 2 + s.Draw(20)
		}
		for i := 0; i < n; i++ {
			var k string
			switch {
			case small:
				k = fmt.Sprintf("k%06d", i/run)
			case g.KeySpace > 0:
				k = string(rune('a' + s.Draw(g.KeySpace)))
			case s.Chance(15):
				k = g.text(g.size())
			default:
				k = []string{"a", "b", "c", "ab", "name", "0", "10", "2", "", "Z"}[s.Draw(10)]
			}
			m.Keys = append(m.Keys, k)
			m.Elems = append(m.Elems, elem(i))
		}
		m.SortMap()
		if g.NoDup {
			m.dedup()
		} else if m.HasDup() {
			s.Hit("value:duplicate-keys")
		}
		if g.Mixed && !small && s.Chance(30) {
			g.mixed(m)
		}
		return m
	default:
		m := &Node{K: Sparse}
		if n == 0 {
			n = 1
		}
		stride, first := 1, 0
		if small {
			stride = []int{1, 1, 2, 3, 1000, 1 << 33}[s.Draw(6)]
			first = []int{0, 0, 1, -3, 100}[s.Draw(5)]
		}
		run := 1
		if small && !g.NoDup && s.Draw(4) == 3 {
			run = 2 + s.Draw(20)
		}
		for i := 0; i < n; i++ {
			var k int
			switch {
			case small:
				k = first + i/run*stride
			case s.Chance(10):
				k = []int{-1, -5, -32, -33, -128, -129, -32769, 127, 128, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1 << 32, 1 << 40, 1 << 62, -1 << 31, -1<<31 - 1, -1 << 62}[s.Draw(21)]
			default:
				k = s.Draw(12)
			}
			m.Idx = append(m.Idx, k)
			m.Elems = append(m.Elems, elem(i))
		}
		m.SortSparse()
		if g.NoDup {
			m.dedup()
		} else if m.HasDup() {
			s.Hit("value:duplicate-indexes")
		}
		return m
	}
}

// mixed marks some keys of a map as written as integers, keeping at least one
// string key.
func (g *Gen) mixed(m *Node) {
	m.IntKey = make([]bool, len(m.Keys))
	strs := 0
	for i, k := range m.Keys {
		v, err := strconv.ParseInt(k, 10, 64)
		m.IntKey[i] = err == nil && strconv.FormatInt(v, 10) == k
		if !m.IntKey[i] {
			strs++
		}
	}
	if strs == 0 {
		m.Keys = append(m.Keys, "~")
		m.Elems = append(m.Elems, &Node{K: Long, I: 1})
		m.IntKey = append(m.IntKey, false)
	}
	if strs < len(m.Keys) {
		g.S.Hit("value:mixed-key-map")
	}
}

func (n *Node) dedup() {
	k := 0
	for i := range n.Elems {
		if i > 0 && (n.K == Map && n.Keys[i] == n.Keys[k-1] || n.K == Sparse && n.Idx[i] == n.Idx[k-1]) {
			continue
		}
		n.Elems[k] = n.Elems[i]
		if n.K == Map {
			n.Keys[k] = n.Keys[i]
		} else {
			n.Idx[k] = n.Idx[i]
		}
		k++
	}
	n.Elems = n.Elems[:k]
	if n.K == Map {
		n.Keys = n.Keys[:k]
	} else {
		n.Idx = n.Idx[:k]
	}
}

// Dedup removes duplicate keys everywhere, keeping the first of each.
func (n *Node) Dedup() *Node {
	for _, e := range n.Elems {
		e.Dedup()
	}
	if n.K == Map || n.K == Sparse {
		n.dedup()
	}
	return n
}

func SortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
