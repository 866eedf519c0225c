package scen

import (
	"bufio"
	"bytes"
	"crypto"
	"crypto/md5"
	"crypto/rand"
	"encoding/json"
	"fmt"
	"io"
	"sync/atomic"

	"github.com/codeallergy/value"
	"golang.org/x/crypto/nacl/box"
	"verifsim/coop"
	"verifsim/core"
	"verifsim/model"
)

// The buffers world: goroutines encode and decode, and whoever owns a buffer
// overwrites it at some later moment, to its full capacity. Nothing else may
// notice.

func init() {
	register(&World{Prop: "C11", Name: "buffers", Run: runC11, Inst: true, Race: true, Batch: 400,
		Rule: "One run is one history of 1-4 goroutines decoding from, encoding into and overwriting buffers, sharing values and read-only inputs. It is non-trivial if at least one buffer was overwritten; two runs are distinct if their schedules differ.",
		Real: "every decoding, reading, encoding, hashing, sealing and marshalling entry point and every value type",
		Stub: "scheduler, readers, the owners that overwrite their buffers, crypto/rand.Reader"})
}

type struct11 struct {
	A value.Value    `tag:"1"`
	B value.String   `tag:"2"`
	C []value.Value  `tag:"3"`
	D []value.String `tag:"4" repeated:"true"`
}

// val11 is a value with its content and the bytes that content has alone.
type val11 struct {
	v    value.Value
	n    *model.Node
	pack string
	json string
	how  string
}

// buf11 is a buffer with what it holds now.
type buf11 struct {
	b    []byte
	now  string
	how  string
	free bool // may be overwritten: nothing is allowed to depend on it
}

type input11 struct {
	b    []byte
	want string
	n    *model.Node
	pack string
	json string
}

type step11 struct {
	kind  int
	mode  int
	in    *input11 // private: a buffer made for this step
	more  []*input11
	slot  int
	pick  int
	junk  byte
	chunk int
	share bool
}

func newInput11(s *core.Sim, g *model.Gen) *input11 {
	g.Nodes = 8
	n := g.Value()
	if s.Chance(25) {
		// the forms whose payload is easily lent
		k := s.Draw(30)
		if s.Rare(6) {
			k = s.Draw(1100)
		}
		n = &model.Node{K: []model.Kind{model.Utf8, model.Raw, model.Ext}[s.Draw(3)], S: string(s.Sub().Bytes(k)), Tag: byte(10 + k%100)}
	}
	if s.Rare(300) {
		n = &model.Node{K: model.Raw, S: g.Payload()}
		s.Hit("huge payload")
	}
	return input11Of(s, n)
}

func input11Of(s *core.Sim, n *model.Node) *input11 {
	p, err := value.Pack(fresh.Value(n))
	if err != nil {
		s.Fail("encoding", "Pack fails: %v", err)
	}
	b := n.Encode(make([]byte, 0, 64), s, false)
	return &input11{b: b, want: string(b), n: n, pack: string(p), json: value.Jsonify(fresh.Value(n))}
}

func (in *input11) val(v value.Value, how string) *val11 {
	return &val11{v: v, n: in.n, pack: in.pack, json: in.json, how: how}
}

type seeded11 struct{ r *core.RNG }

func (r seeded11) Read(p []byte) (int, error) { return copy(p, r.r.Bytes(len(p))), nil }

type flow11 struct {
	t     *coop.Task
	vals  []*val11
	bufs  []*buf11
	hits  int
	pub   *[32]byte
	priv  *[32]byte
	slots []atomic.Pointer[val11]
}

// warm11 makes what the library learns about types on first use part of no
// run.
func warm11(s *core.Sim) {
	e := fresh.Value(&model.Node{K: model.Raw})
	u := fresh.Value(&model.Node{K: model.Utf8}).(value.String)
	b, err := value.PackStruct(&struct11{A: e, B: u, C: []value.Value{e}, D: []value.String{u}})
	if err == nil {
		err = value.UnpackStruct(b, &struct11{}, true)
	}
	if err != nil {
		s.Fail("structs", "packing a struct and unpacking it again fails: %v", err)
	}
}

func runC11(s *core.Sim) {
	warm11(s)
	g := model.NewGen(s)
	g.Depth, g.HugePct, g.BigPct = 2, 0, 3
	b := &model.Builder{S: s, NilNulls: true}
	rng := core.NewRNG(s.Sub().U64())
	pub, priv, err := box.GenerateKey(seeded11{rng})
	if err != nil {
		core.Harness("keys: %v", err)
	}
	old := rand.Reader
	rand.Reader = &entropy{}
	defer func() { rand.Reader = old }()

	slots := make([]atomic.Pointer[val11], 1+s.Draw(3))
	var all []*val11
	for i := range slots {
		in := newInput11(s, g)
		v := b.Value(in.n)
		x := in.val(v, "built")
		slots[i].Store(x)
		all = append(all, x)
	}
	shared := make([]*input11, 1+s.Draw(2))
	for i := range shared {
		shared[i] = newInput11(s, g)
	}
	co := coop.New(s)
	tasks := 1 + s.Draw(4)
	flows := make([]*flow11, tasks)
	for i := 0; i < tasks; i++ {
		var prog []*step11
		for k := 3 + s.Draw(9); k > 0; k-- {
			s.Begin()
			st := &step11{kind: s.Weighted(5, 3, 2, 7, 7, 2, 2, 2, 2), mode: s.Draw(16), slot: s.Draw(8), pick: s.Draw(1 << 12), junk: byte(1 + s.Draw(255)), chunk: 1 + s.Draw(40), share: s.Draw(3) == 2}
			switch st.kind {
			case 0, 1:
				st.in = newInput11(s, g)
			case 2:
				huge := s.Rare(60)
				for q := 1 + s.Draw(4); q > 0; q-- {
					if huge {
						st.more = append(st.more, input11Of(s, &model.Node{K: model.Raw, S: g.Payload()}))
						s.Hit("huge payload")
						continue
					}
					st.more = append(st.more, newInput11(s, g))
				}
			case 6:
				k := s.Draw(40)
				if s.Rare(8) {
					k = s.Draw(5000)
				}
				n := &model.Node{K: model.Raw, S: string(s.Sub().Bytes(k))}
				st.in = input11Of(s, n)
				st.in.b = []byte(n.S)
			case 7:
				for q := 0; q < 4; q++ {
					n := &model.Node{K: []model.Kind{model.Utf8, model.Raw}[s.Draw(2)], S: string(s.Sub().Bytes(s.Draw(20)))}
					st.more = append(st.more, input11Of(s, n))
				}
				st.in = newInput11(s, g)
			case 8:
				st.in = shared[s.Draw(len(shared))]
			}
			prog = append(prog, st)
			s.End()
		}
		f := &flow11{pub: pub, priv: priv, slots: slots}
		flows[i] = f
		co.Go(fmt.Sprint("task", i), func(t *coop.Task) {
			f.t = t
			for _, st := range prog {
				f.step(st)
			}
			f.verify(t.Failf)
		})
	}
	co.Run()
	fail := func(class, format string, a ...any) { s.Fail(class, "after the run: "+format, a...) }
	n := 0
	for _, f := range flows {
		f.verify(fail)
		all = append(all, f.vals...)
		n += f.hits
	}
	for _, x := range all {
		x.check(fail)
		s.Observe(x.n.Canon())
	}
	for _, in := range shared {
		if string(in.b) != in.want {
			fail("input", "an input is now %x, it was %x", clipBytes(in.b), clipBytes([]byte(in.want)))
		}
	}
	s.Trivial = n == 0
}

func (x *val11) check(fail failer) {
	if g, w := model.Snap(x.v), x.n.Canon(); g != w {
		fail("value", "the value %s is now %s, it was %s", x.how, core.Clip(g, 400), core.Clip(w, 400))
	}
	b, err := value.Pack(x.v)
	if err != nil || string(b) != x.pack {
		fail("encoding", "Pack of the value %s, %s, gives %x (%v), want %x", x.how, core.Clip(x.n.Canon(), 300), clipBytes(b), err, clipBytes([]byte(x.pack)))
	}
}

func (f *flow11) verify(fail failer) {
	for _, b := range f.bufs {
		if string(b.b) != b.now {
			fail("buffer", "the buffer %s holds %x, it should hold %x", b.how, clipBytes(b.b), clipBytes([]byte(b.now)))
		}
	}
	for _, x := range f.vals {
		x.check(fail)
	}
}

// own takes a returned buffer into possession, to its full capacity.
func (f *flow11) own(b []byte, want, how string) {
	if string(b) != want {
		f.t.Failf("encoding", "%s gives %x, want %x", how, clipBytes(b), clipBytes([]byte(want)))
	}
	f.bufs = append(f.bufs, &buf11{b: b, now: want, how: how, free: true})
}

func (f *flow11) add(x *val11, share bool, slot int) {
	f.vals = append(f.vals, x)
	if share && (x.n.K != model.List && x.n.K != model.Map) {
		f.slots[slot%len(f.slots)].Store(x)
	}
}

func (f *flow11) step(st *step11) {
	t := f.t
	switch st.kind {
	case 0: // decode from a buffer of one's own
		cp := st.mode%4 != 0
		t.Op("Unpack, copy %v", cp)
		v, err := value.Unpack(st.in.b, cp)
		if err != nil {
			t.Failf("decode", "Unpack fails: %v", err)
		}
		f.input(st.in, "given to Unpack", cp)
		f.add(st.in.val(v, "unpacked"), st.share && cp, st.slot)
	case 1: // read from a reader over a buffer of one's own
		t.Op("Read, reader %d", st.mode%5)
		var r io.Reader
		var buf *bytes.Buffer
		switch st.mode % 5 {
		case 0:
			r = bytes.NewReader(st.in.b)
		case 1:
			buf = bytes.NewBuffer(st.in.b)
			r = buf
		case 2:
			r = bufio.NewReaderSize(bytes.NewReader(st.in.b), 16)
		case 3:
			r = struct{ io.Reader }{bytes.NewBuffer(st.in.b)}
		default:
			r = &lender11{b: st.in.b, n: st.chunk}
		}
		v, err := value.Read(r)
		if err != nil {
			t.Failf("decode", "Read fails: %v", err)
		}
		f.input(st.in, "under a reader", true)
		f.add(st.in.val(v, "read"), st.share, st.slot)
		if buf != nil {
			// the buffer goes on to be used
			buf.Reset()
			k := len(st.in.b)
			for i := 0; i < k; i++ {
				buf.WriteByte(st.junk)
			}
			f.bufs[len(f.bufs)-1].now = string(st.in.b)
			t.Hit("fault:reader's buffer reused")
			f.hits++
		}
	case 2: // a stream of values over a buffer of one's own
		t.Op("ReadStream of %d values", len(st.more))
		var b []byte
		for _, in := range st.more {
			b = append(b, in.b...)
		}
		in := &input11{b: b, want: string(b)}
		out := make(chan value.Value, len(st.more)+1)
		var r io.Reader = bytes.NewReader(b)
		if st.mode%2 == 1 {
			r = bytes.NewBuffer(b)
		}
		if err := value.ReadStream(r, out); err != io.EOF {
			t.Failf("decode", "ReadStream ends with %v", err)
		}
		f.input(in, "under a stream", true)
		for _, m := range st.more {
			v, ok := <-out
			if !ok {
				t.Failf("decode", "ReadStream delivered too little")
			}
			f.add(m.val(v, "received from a stream"), st.share, st.slot)
		}
	case 3: // encode
		x := f.slots[st.slot%len(f.slots)].Load()
		if len(f.vals) > 0 && st.pick%2 == 1 {
			x = f.vals[st.pick/2%len(f.vals)]
		}
		f.encode(st, x)
	case 4: // overwrite a buffer one owns
		if len(f.bufs) == 0 {
			return
		}
		b := f.bufs[st.pick%len(f.bufs)]
		if !b.free {
			return
		}
		t.Op("overwrite the buffer %s", b.how)
		full := b.b[:cap(b.b)]
		for i := range full {
			full[i] = st.junk
		}
		b.now = string(b.b)
		f.hits++
		t.Hit("fault:buffer " + b.how + " overwritten")
	case 5:
		t.Op("verify")
		f.verify(t.Failf)
	case 6: // from bytes
		t.Op("Raw, copy true")
		v := value.Raw(st.in.b, true)
		st.in.want = string(st.in.b)
		f.input(st.in, "given to Raw", true)
		f.add(st.in.val(v, "built from bytes"), st.share, st.slot)
	case 7: // structs
		f.structs(st)
	default: // an input nobody owns, read by all
		t.Op("Unpack a shared input, copy %v", st.mode%2 == 1)
		v, err := value.Unpack(st.in.b, st.mode%2 == 1)
		if err != nil {
			t.Failf("decode", "Unpack fails: %v", err)
		}
		f.add(st.in.val(v, "unpacked from a shared input"), false, 0)
	}
}

// input notes that a decoder was given the buffer.
func (f *flow11) input(in *input11, how string, free bool) {
	if string(in.b) != in.want {
		f.t.Failf("input", "the buffer %s is now %x, it was %x", how, clipBytes(in.b), clipBytes([]byte(in.want)))
	}
	f.bufs = append(f.bufs, &buf11{b: in.b, now: in.want, how: how, free: free})
}

func (f *flow11) encode(st *step11, x *val11) {
	t := f.t
	t.Op("encode (%d) a value %s", st.mode, x.how)
	switch st.mode {
	case 0, 1, 2:
		b, err := value.Pack(x.v)
		if err != nil {
			t.Failf("encoding", "Pack fails: %v", err)
		}
		f.own(b, x.pack, "returned by Pack")
	case 3, 4, 5, 6:
		if x.v == nil {
			return
		}
		b, err := x.v.MarshalBinary()
		if err != nil {
			t.Failf("encoding", "MarshalBinary fails: %v", err)
		}
		f.own(b, x.pack, "returned by MarshalBinary")
	case 7, 8:
		b, err := x.v.MarshalJSON()
		if err != nil {
			t.Failf("encoding", "MarshalJSON fails: %v", err)
		}
		f.own(b, x.json, "returned by MarshalJSON")
	case 9, 10:
		b, h, err := value.Hash(x.v, crypto.MD5)
		if err != nil {
			t.Failf("encoding", "Hash fails: %v", err)
		}
		sum := md5.Sum([]byte(x.pack))
		f.own(b, x.pack, "returned by Hash")
		f.own(h, string(sum[:]), "returned by Hash as sum")
	case 11:
		b, err := value.Seal(x.v, f.pub, f.priv)
		if err != nil {
			t.Failf("encoding", "Seal fails: %v", err)
		}
		keep := append([]byte(nil), b...)
		f.own(b, string(keep), "returned by Seal")
		v, err := value.Unseal(keep, f.pub, f.priv)
		if err != nil {
			t.Failf("encoding", "Unseal fails: %v", err)
		}
		f.vals = append(f.vals, &val11{v, x.n, x.pack, x.json, "unsealed"})
	case 12:
		b, err := value.PackStruct(x.v)
		if err != nil {
			t.Failf("encoding", "PackStruct fails: %v", err)
		}
		f.own(b, x.pack, "returned by PackStruct")
	case 13:
		var b bytes.Buffer
		if err := value.Write(&b, x.v); err != nil {
			t.Failf("encoding", "Write fails: %v", err)
		}
		f.own(b.Bytes(), x.pack, "filled by Write")
	case 14:
		b, err := json.Marshal(x.v)
		if err == nil {
			f.own(b, string(append([]byte(nil), b...)), "returned by json.Marshal")
		}
	default:
		var b bytes.Buffer
		c := make(chan value.Value, 2)
		c <- x.v
		c <- x.v
		close(c)
		if err := value.WriteStream(&b, c); err != nil {
			t.Failf("encoding", "WriteStream fails: %v", err)
		}
		f.own(b.Bytes(), x.pack+x.pack, "filled by WriteStream")
	}
}

func (f *flow11) structs(st *step11) {
	t := f.t
	t.Op("structs")
	s := make([]value.Value, 4)
	for i, in := range st.more {
		s[i] = fresh.Value(in.n)
	}
	x := &struct11{A: fresh.Value(st.in.n), B: s[0].(value.String), C: []value.Value{s[1]}, D: []value.String{s[2].(value.String), s[3].(value.String)}}
	b, err := value.PackStruct(x)
	if err != nil {
		t.Failf("encoding", "PackStruct fails: %v", err)
	}
	want := string(append([]byte(nil), b...))
	in := &input11{b: append(make([]byte, 0, len(b)+st.chunk), b...), want: want}
	f.own(b, want, "returned by PackStruct")
	var y struct11
	if err := value.UnpackStruct(in.b, &y, true); err != nil {
		t.Failf("decode", "UnpackStruct fails: %v", err)
	}
	f.input(in, "given to UnpackStruct", true)
	if y.A == nil || y.B == nil || len(y.C) != 1 || len(y.D) != 2 {
		t.Failf("decode", "UnpackStruct loses fields")
	}
	f.vals = append(f.vals, st.in.val(y.A, "unpacked into a struct"), st.more[0].val(y.B, "unpacked into a struct"), st.more[1].val(y.C[0], "unpacked into a struct"), st.more[2].val(y.D[0], "unpacked into a struct"), st.more[3].val(y.D[1], "unpacked into a struct"))
}

// lender11 is a reader that also offers its memory through the interfaces a
// reader may have.
type lender11 struct {
	b []byte
	n int
}

func (l *lender11) Read(p []byte) (int, error) {
	coop.SeamYield()
	if len(l.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p[:min(len(p), l.n)], l.b)
	l.b = l.b[n:]
	return n, nil
}

func (l *lender11) ReadByte() (byte, error) {
	if len(l.b) == 0 {
		return 0, io.EOF
	}
	c := l.b[0]
	l.b = l.b[1:]
	return c, nil
}

func (l *lender11) Next(n int) []byte {
	n = min(n, len(l.b))
	b := l.b[:n]
	l.b = l.b[n:]
	return b
}

func (l *lender11) Peek(n int) ([]byte, error) {
	if n > len(l.b) {
		return l.b, io.EOF
	}
	return l.b[:n], nil
}

func (l *lender11) Discard(n int) (int, error) { return len(l.Next(n)), nil }

func (l *lender11) Bytes() []byte { return l.b }

func (l *lender11) WriteTo(w io.Writer) (int64, error) {
	n, err := w.Write(l.b)
	l.b = l.b[n:]
	return int64(n), err
}
