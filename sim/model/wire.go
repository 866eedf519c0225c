package model

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
)

// An independent MessagePack codec, written from the specification.

var ErrShort = errors.New("truncated")
var ErrBad = errors.New("malformed")

// Measure returns the length of the first MessagePack value in b without
// interpreting it; ErrShort if it is incomplete, ErrBad if it is malformed.
func Measure(b []byte) (int, error) {
	off := 0
	need := 1 // values still to be read
	for need > 0 {
		if off >= len(b) {
			return 0, ErrShort
		}
		h, payload, kids, err := head(b[off:])
		if err != nil {
			return 0, err
		}
		off += h + payload
		if off > len(b) {
			return 0, ErrShort
		}
		need += kids - 1
		if need > len(b)-off+1 && need > 0 && need > len(b) {
			// more values announced than bytes exist: truncated for sure
			// (unless a malformed byte comes first)
			for off < len(b) {
				h, p, _, err := head(b[off:])
				if err != nil {
					return 0, err
				}
				off += h + p
			}
			return 0, ErrShort
		}
	}
	return off, nil
}

// Tokens lists the offsets at which a token begins or a payload begins.
func Tokens(b []byte) []int {
	t := []int{0}
	for off := 0; off < len(b) && len(t) < 5000; {
		h, p, _, err := head(b[off:])
		if err != nil {
			break
		}
		if p > 0 {
			t = append(t, off+h)
		}
		off += h + p
		t = append(t, off)
	}
	return t
}

// head returns header length, payload length and number of child values.
func head(b []byte) (hdr, pay, kids int, err error) {
	c := b[0]
	u := func(n int) (int, bool) {
		if len(b) < 1+n {
			return 0, false
		}
		switch n {
		case 1:
			return int(b[1]), true
		case 2:
			return int(binary.BigEndian.Uint16(b[1:])), true
		default:
			return int(binary.BigEndian.Uint32(b[1:])), true
		}
	}
	sized := func(n, extra int) (int, int, int, error) {
		l, ok := u(n)
		if !ok {
			return 0, 0, 0, ErrShort
		}
		return 1 + n, l + extra, 0, nil
	}
	kidsOf := func(n, mul int) (int, int, int, error) {
		l, ok := u(n)
		if !ok {
			return 0, 0, 0, ErrShort
		}
		return 1 + n, 0, l * mul, nil
	}
	switch {
	case c <= 0x7f || c >= 0xe0:
		return 1, 0, 0, nil
	case c <= 0x8f:
		return 1, 0, 2 * int(c&15), nil
	case c <= 0x9f:
		return 1, 0, int(c & 15), nil
	case c <= 0xbf:
		return 1, int(c & 31), 0, nil
	}
	switch c {
	case 0xc0, 0xc2, 0xc3:
		return 1, 0, 0, nil
	case 0xc1:
		return 0, 0, 0, ErrBad
	case 0xc4, 0xd9:
		return sized(1, 0)
	case 0xc5, 0xda:
		return sized(2, 0)
	case 0xc6, 0xdb:
		return sized(4, 0)
	case 0xc7:
		return sized(1, 1)
	case 0xc8:
		return sized(2, 1)
	case 0xc9:
		return sized(4, 1)
	case 0xca, 0xce, 0xd2:
		return 1, 4, 0, nil
	case 0xcb, 0xcf, 0xd3:
		return 1, 8, 0, nil
	case 0xcc, 0xd0:
		return 1, 1, 0, nil
	case 0xcd, 0xd1:
		return 1, 2, 0, nil
	case 0xd4:
		return 1, 2, 0, nil
	case 0xd5:
		return 1, 3, 0, nil
	case 0xd6:
		return 1, 5, 0, nil
	case 0xd7:
		return 1, 9, 0, nil
	case 0xd8:
		return 1, 17, 0, nil
	case 0xdc:
		return kidsOf(2, 1)
	case 0xdd:
		return kidsOf(4, 1)
	case 0xde:
		return kidsOf(2, 2)
	case 0xdf:
		return kidsOf(4, 2)
	}
	return 0, 0, 0, ErrBad
}

// DecodeWire reads one value and renders it in the form of WireCanon.
func DecodeWire(b []byte) (canon string, n int, err error) {
	n, err = Measure(b)
	if err != nil {
		return "", 0, err
	}
	var sb strings.Builder
	m, err := decode(b[:n], &sb, 0)
	if err != nil {
		return "", 0, err
	}
	if m != n {
		return "", 0, fmt.Errorf("internal: decoded %d of %d", m, n)
	}
	return sb.String(), n, nil
}

func be(b []byte) uint64 {
	var x uint64
	for _, c := range b {
		x = x<<8 | uint64(c)
	}
	return x
}

func decode(b []byte, sb *strings.Builder, depth int) (int, error) {
	if depth > 100000 {
		return 0, ErrBad
	}
	h, pay, kids, err := head(b)
	if err != nil {
		return 0, err
	}
	c := b[0]
	data := b[h : h+pay]
	integer := func(v int64) { sb.WriteString("i" + strconv.FormatInt(v, 10)) }
	switch {
	case c <= 0x7f:
		integer(int64(c))
	case c >= 0xe0:
		integer(int64(int8(c)))
	case c >= 0xa0 && c <= 0xbf, c >= 0xd9 && c <= 0xdb:
		sb.WriteString("u")
		payload(sb, string(data))
	case c >= 0xc4 && c <= 0xc6:
		sb.WriteString("r")
		payload(sb, string(data))
	case c == 0xc0:
		sb.WriteString("n")
	case c == 0xc2:
		sb.WriteString("bfalse")
	case c == 0xc3:
		sb.WriteString("btrue")
	case c == 0xca:
		sb.WriteString("f")
		double(sb, float64(math.Float32frombits(uint32(be(data)))))
	case c == 0xcb:
		sb.WriteString("f")
		double(sb, math.Float64frombits(be(data)))
	case c >= 0xcc && c <= 0xcf:
		sb.WriteString("i" + strconv.FormatUint(be(data), 10))
	case c == 0xd0:
		integer(int64(int8(be(data))))
	case c == 0xd1:
		integer(int64(int16(be(data))))
	case c == 0xd2:
		integer(int64(int32(be(data))))
	case c == 0xd3:
		integer(int64(be(data)))
	case c >= 0xd4 && c <= 0xd8, c >= 0xc7 && c <= 0xc9:
		if err := decodeExt(data[0], data[1:], sb); err != nil {
			return 0, err
		}
	default: // containers
		off := h
		isMap := c >= 0x80 && c <= 0x8f || c == 0xde || c == 0xdf
		if isMap {
			fmt.Fprintf(sb, "M%d{", kids/2)
		} else {
			fmt.Fprintf(sb, "A%d[", kids)
		}
		for i := 0; i < kids; i++ {
			n, err := decode(b[off:], sb, depth+1)
			if err != nil {
				return 0, err
			}
			off += n
			if isMap && i%2 == 0 {
				sb.WriteString("=")
			} else {
				sb.WriteString(" ")
			}
		}
		if isMap {
			sb.WriteString("}")
		} else {
			sb.WriteString("]")
		}
		return off, nil
	}
	return h + pay, nil
}

// The two extensions the library defines: 1 is a big integer (a version and
// sign byte, then the magnitude), 2 a decimal (exponent, then such an integer).
func decodeExt(tag byte, d []byte, sb *strings.Builder) error {
	gob := func(d []byte) (*big.Int, bool) {
		if len(d) == 0 {
			return new(big.Int), true
		}
		if d[0]>>1 != 1 {
			return nil, false
		}
		x := new(big.Int).SetBytes(d[1:])
		if d[0]&1 == 1 {
			x.Neg(x)
		}
		return x, true
	}
	switch tag {
	case 1:
		x, ok := gob(d)
		if !ok {
			break
		}
		sb.WriteString("B" + x.Text(62))
		return nil
	case 2:
		if len(d) < 4 {
			break
		}
		x, ok := gob(d[4:])
		if !ok {
			break
		}
		sb.WriteString("D" + x.Text(62) + "e" + strconv.Itoa(int(int32(be(d[:4])))))
		return nil
	}
	// not a number, whatever its tag says
	fmt.Fprintf(sb, "x%d:", tag)
	payload(sb, string(d))
	return nil
}

// Chooser picks among valid encodings; nil always picks the shortest.
type Chooser interface {
	Draw(n int) int
}

type enc struct {
	b []byte
	c Chooser
}

func (e *enc) pick(n int) int {
	if e.c == nil || n < 2 {
		return 0
	}
	return e.c.Draw(n)
}

func (e *enc) be(v uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		e.b = append(e.b, byte(v>>(8*uint(i))))
	}
}

// sized writes a length header in a valid width.
func (e *enc) sized(l, fixMax int, fix byte, codes [3]byte, hasOne bool) {
	var opts []int
	if fixMax >= 0 && l <= fixMax {
		opts = append(opts, 0)
	}
	if hasOne && l <= 255 {
		opts = append(opts, 1)
	}
	if l <= 65535 {
		opts = append(opts, 2)
	}
	opts = append(opts, 4)
	switch o := opts[e.pick(len(opts))]; o {
	case 0:
		e.b = append(e.b, fix|byte(l))
	case 1:
		e.b = append(e.b, codes[0], byte(l))
	case 2:
		e.b = append(e.b, codes[1])
		e.be(uint64(l), 2)
	case 4:
		e.b = append(e.b, codes[2])
		e.be(uint64(l), 4)
	}
}

func (e *enc) integer(v int64) {
	var opts []int
	if v >= -32 && v <= 127 {
		opts = append(opts, 0)
	}
	for i, n := range []uint{8, 16, 32} {
		if v >= 0 && v < 1<<n {
			opts = append(opts, 0xcc+i)
		}
		if v >= -(1<<(n-1)) && v < 1<<(n-1) {
			opts = append(opts, 0xd0+i)
		}
	}
	if v >= 0 {
		opts = append(opts, 0xcf)
	}
	opts = append(opts, 0xd3)
	o := opts[e.pick(len(opts))]
	if o == 0 {
		e.b = append(e.b, byte(v))
		return
	}
	e.b = append(e.b, byte(o))
	n := 1 << uint(o-0xcc)
	if o >= 0xd0 {
		n = 1 << uint(o-0xd0)
	}
	e.be(uint64(v), n)
}

func (e *enc) ext(tag byte, d string) {
	l := len(d)
	fixed := map[int]byte{1: 0xd4, 2: 0xd5, 4: 0xd6, 8: 0xd7, 16: 0xd8}
	if f, ok := fixed[l]; ok && e.pick(3) < 2 {
		e.b = append(e.b, f, tag)
	} else {
		e.sized(l, -1, 0, [3]byte{0xc7, 0xc8, 0xc9}, true)
		e.b = append(e.b, tag)
	}
	e.b = append(e.b, d...)
}

func gobInt(x *big.Int) string {
	s := byte(2)
	if x.Sign() < 0 {
		s = 3
	}
	return string(append([]byte{s}, new(big.Int).Abs(x).Bytes()...))
}

// Encode appends one valid encoding of n. With a chooser the encoding varies
// over the forms the standard allows, and the order of map entries varies
// where shuffle is set (duplicate keys keep their relative order).
func (n *Node) Encode(dst []byte, c Chooser, shuffle bool) []byte {
	e := &enc{dst, c}
	e.node(n, shuffle)
	return e.b
}

func (e *enc) node(n *Node, shuffle bool) {
	switch n.K {
	case Null:
		e.b = append(e.b, 0xc0)
	case Bool:
		if n.B {
			e.b = append(e.b, 0xc3)
		} else {
			e.b = append(e.b, 0xc2)
		}
	case Long:
		e.integer(n.I)
	case Double:
		if f := float32(n.F); float64(f) == n.F && e.pick(2) == 1 {
			e.b = append(e.b, 0xca)
			e.be(uint64(math.Float32bits(f)), 4)
		} else {
			e.b = append(e.b, 0xcb)
			e.be(math.Float64bits(n.F), 8)
		}
	case BigInt:
		e.ext(1, gobInt(n.Big))
	case Decimal:
		var x [4]byte
		binary.BigEndian.PutUint32(x[:], uint32(n.Exp))
		e.ext(2, string(x[:])+gobInt(n.Big))
	case Utf8:
		e.sized(len(n.S), 31, 0xa0, [3]byte{0xd9, 0xda, 0xdb}, true)
		e.b = append(e.b, n.S...)
	case Raw:
		e.sized(len(n.S), -1, 0, [3]byte{0xc4, 0xc5, 0xc6}, true)
		e.b = append(e.b, n.S...)
	case Ext:
		e.ext(n.Tag, n.S)
	case List:
		e.sized(len(n.Elems), 15, 0x90, [3]byte{0, 0xdc, 0xdd}, false)
		for _, k := range n.Elems {
			e.node(k, shuffle)
		}
	case Sparse, Map:
		e.sized(len(n.Elems), 15, 0x80, [3]byte{0, 0xde, 0xdf}, false)
		for _, i := range e.order(n, shuffle) {
			if n.K == Map && n.IntKey != nil && n.IntKey[i] && e.c != nil {
				k, _ := strconv.ParseInt(n.Keys[i], 10, 64)
				e.integer(k)
			} else if n.K == Map {
				e.node(&Node{K: Utf8, S: n.Keys[i]}, false)
			} else {
				e.integer(int64(n.Idx[i]))
			}
			e.node(n.Elems[i], shuffle)
		}
	}
}

func (e *enc) order(n *Node, shuffle bool) []int {
	o := make([]int, len(n.Elems))
	for i := range o {
		o[i] = i
	}
	if !shuffle || e.c == nil || len(o) < 2 {
		return o
	}
	for i := 1; i < len(n.Elems); i++ {
		if n.K == Map && n.Keys[i] == n.Keys[i-1] || n.K == Sparse && n.Idx[i] == n.Idx[i-1] {
			return o
		}
	}
	switch e.pick(4) {
	case 0:
	case 1: // reversed
		for i, j := 0, len(o)-1; i < j; i, j = i+1, j-1 {
			o[i], o[j] = o[j], o[i]
		}
	case 2: // one swap
		i, j := e.pick(len(o)), e.pick(len(o))
		o[i], o[j] = o[j], o[i]
	default:
		if len(o) > 300 {
			k := e.pick(len(o))
			o = append(append([]int(nil), o[k:]...), o[:k]...)
			break
		}
		for i := len(o) - 1; i > 0; i-- {
			j := e.pick(i + 1)
			o[i], o[j] = o[j], o[i]
		}
	}
	return o
}
