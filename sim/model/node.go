// Package model holds the reference side of the simulator: the expected
// content of values, an independent MessagePack codec, and the canonical
// renderings under which expected and observed content are compared.
package model

import (
	"fmt"
	"hash/fnv"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"github.com/codeallergy/value"
)

type Kind int

const (
	Null Kind = iota
	Bool
	Long
	Double
	BigInt
	Decimal
	Utf8
	Raw
	Ext
	List
	Sparse
	Map
)

// Node is the expected content of a value.
type Node struct {
	K     Kind
	B     bool
	I     int64
	F     float64
	Big   *big.Int
	Exp   int32
	S     string // text, raw bytes or extension data
	Tag   byte
	Elems []*Node
	Keys  []string // Map: sorted, duplicates allowed
	Idx   []int    // Sparse: sorted, duplicates allowed
	// IntKey marks Map keys that a foreign encoder writes as integers.
	IntKey []bool
	// Stored marks a null that an operation put into a collection: it is shown
	// as null, never as nil.
	Stored bool
}

var NullNode = &Node{K: Null}

// StoredNull is a null (or nil) handed to an operation of a collection.
var StoredNull = &Node{K: Null, Stored: true}

func payload(b *strings.Builder, s string) {
	if len(s) <= 120 {
		b.WriteString(strconv.Quote(s))
		return
	}
	h := fnv.New64a()
	h.Write([]byte(s))
	fmt.Fprintf(b, "#%d:%x", len(s), h.Sum64())
}

func double(b *strings.Builder, f float64) {
	fmt.Fprintf(b, "%x", math.Float64bits(f))
}

// Canon renders the content as the API shows it.
func (n *Node) Canon() string {
	var b strings.Builder
	n.canon(&b)
	return b.String()
}

func (n *Node) canon(b *strings.Builder) {
	if n == nil {
		b.WriteString("n")
		return
	}
	switch n.K {
	case Null:
		b.WriteString("n")
	case Bool:
		b.WriteString("b")
		b.WriteString(strconv.FormatBool(n.B))
	case Long:
		b.WriteString("i")
		b.WriteString(strconv.FormatInt(n.I, 10))
	case Double:
		b.WriteString("f")
		double(b, n.F)
	case BigInt:
		b.WriteString("B")
		b.WriteString(n.Big.Text(62))
	case Decimal:
		b.WriteString("D")
		b.WriteString(n.Big.Text(62))
		b.WriteString("e")
		b.WriteString(strconv.Itoa(int(n.Exp)))
	case Utf8:
		b.WriteString("u")
		payload(b, n.S)
	case Raw:
		b.WriteString("r")
		payload(b, n.S)
	case Ext:
		fmt.Fprintf(b, "x%d:", n.Tag)
		payload(b, n.S)
	case List:
		fmt.Fprintf(b, "L%d[", len(n.Elems))
		for i, e := range n.Elems {
			b.WriteString(strconv.Itoa(i))
			b.WriteString("=")
			e.canon(b)
			b.WriteString(" ")
		}
		b.WriteString("]")
	case Sparse:
		l := 0
		if len(n.Idx) > 0 {
			l = n.Idx[len(n.Idx)-1] + 1
		}
		fmt.Fprintf(b, "L%d[", l)
		for i, e := range n.Elems {
			b.WriteString(strconv.Itoa(n.Idx[i]))
			b.WriteString("=")
			e.canon(b)
			b.WriteString(" ")
		}
		b.WriteString("]")
	case Map:
		fmt.Fprintf(b, "M%d{", len(n.Elems))
		for i, e := range n.Elems {
			payload(b, n.Keys[i])
			b.WriteString("=")
			e.canon(b)
			b.WriteString(" ")
		}
		b.WriteString("}")
	}
}

// Snap renders an observed value in the form of Canon, through public
// accessors only.
func Snap(v value.Value) string {
	var b strings.Builder
	snap(&b, v)
	return b.String()
}

func snap(b *strings.Builder, v value.Value) {
	if v == nil {
		b.WriteString("n")
		return
	}
	switch v.Kind() {
	case value.NULL:
		b.WriteString("n")
	case value.BOOL:
		b.WriteString("b")
		b.WriteString(strconv.FormatBool(v.(value.Bool).Boolean()))
	case value.NUMBER:
		x := v.(value.Number)
		switch x.Type() {
		case value.LONG:
			b.WriteString("i")
			b.WriteString(strconv.FormatInt(x.Long(), 10))
		case value.DOUBLE:
			b.WriteString("f")
			double(b, x.Double())
		case value.BIGINT:
			b.WriteString("B")
			b.WriteString(x.BigInt().Text(62))
		case value.DECIMAL:
			d := x.Decimal()
			b.WriteString("D")
			b.WriteString(d.Coefficient().Text(62))
			b.WriteString("e")
			b.WriteString(strconv.Itoa(int(d.Exponent())))
		default:
			fmt.Fprintf(b, "number-type-%v", x.Type())
		}
	case value.STRING:
		x := v.(value.String)
		switch x.Type() {
		case value.UTF8:
			b.WriteString("u")
			payload(b, x.Utf8())
		case value.RAW:
			b.WriteString("r")
			payload(b, string(x.Raw()))
		default:
			fmt.Fprintf(b, "string-type-%v", x.Type())
		}
	case value.UNKNOWN:
		x, ok := v.(value.Extension)
		if !ok {
			b.WriteString("x?")
			return
		}
		nat := x.Native()
		if len(nat) == 0 {
			b.WriteString("x(empty)")
			return
		}
		fmt.Fprintf(b, "x%d:", nat[0])
		payload(b, string(nat[1:]))
	case value.LIST:
		x := v.(value.List)
		fmt.Fprintf(b, "L%d[", x.Len())
		for _, it := range x.Items() {
			b.WriteString(strconv.Itoa(it.Key()))
			b.WriteString("=")
			snap(b, it.Value())
			b.WriteString(" ")
		}
		b.WriteString("]")
	case value.MAP:
		x := v.(value.Map)
		fmt.Fprintf(b, "M%d{", x.Len())
		for _, e := range x.Entries() {
			payload(b, e.Key())
			b.WriteString("=")
			snap(b, e.Value())
			b.WriteString(" ")
		}
		b.WriteString("}")
	default:
		fmt.Fprintf(b, "kind-%v", v.Kind())
	}
}

// WireCanon renders what the value must look like on the wire: arrays and maps
// with typed keys, as an independent MessagePack implementation reads them.
func (n *Node) WireCanon() string {
	var b strings.Builder
	n.wire(&b)
	return b.String()
}

func (n *Node) wire(b *strings.Builder) {
	switch n.K {
	case List:
		fmt.Fprintf(b, "A%d[", len(n.Elems))
		for _, e := range n.Elems {
			e.wire(b)
			b.WriteString(" ")
		}
		b.WriteString("]")
	case Sparse:
		fmt.Fprintf(b, "M%d{", len(n.Elems))
		for i, e := range n.Elems {
			b.WriteString("i")
			b.WriteString(strconv.Itoa(n.Idx[i]))
			b.WriteString("=")
			e.wire(b)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case Map:
		fmt.Fprintf(b, "M%d{", len(n.Elems))
		for i, e := range n.Elems {
			b.WriteString("u")
			payload(b, n.Keys[i])
			b.WriteString("=")
			e.wire(b)
			b.WriteString(" ")
		}
		b.WriteString("}")
	default:
		n.canon(b)
	}
}

// With is the collection with element j replaced.
func (n *Node) With(j int, e *Node) *Node {
	c := *n
	c.Elems = append([]*Node(nil), n.Elems...)
	c.Elems[j] = e
	return &c
}

// Size counts nodes.
func (n *Node) Size() int {
	c := 1
	for _, e := range n.Elems {
		c += e.Size()
	}
	return c
}

// SortMap orders entries by key, keeping the order of duplicates.
func (n *Node) SortMap() {
	idx := make([]int, len(n.Keys))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return n.Keys[idx[a]] < n.Keys[idx[b]] })
	ks, es := make([]string, len(idx)), make([]*Node, len(idx))
	for i, j := range idx {
		ks[i], es[i] = n.Keys[j], n.Elems[j]
	}
	n.Keys, n.Elems = ks, es
}

func (n *Node) SortSparse() {
	idx := make([]int, len(n.Idx))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return n.Idx[idx[a]] < n.Idx[idx[b]] })
	ks, es := make([]int, len(idx)), make([]*Node, len(idx))
	for i, j := range idx {
		ks[i], es[i] = n.Idx[j], n.Elems[j]
	}
	n.Idx, n.Elems = ks, es
}

// HasDup reports duplicate keys anywhere in the content.
func (n *Node) HasDup() bool {
	for i := 1; i < len(n.Keys); i++ {
		if n.Keys[i] == n.Keys[i-1] {
			return true
		}
	}
	for i := 1; i < len(n.Idx); i++ {
		if n.Idx[i] == n.Idx[i-1] {
			return true
		}
	}
	for _, e := range n.Elems {
		if e.HasDup() {
			return true
		}
	}
	return false
}
