package scen

import (
	"bytes"
	"container/heap"
	"crypto"
	_ "crypto/md5"
	"crypto/rand"
	_ "crypto/sha512"
	"encoding/hex"
	"fmt"
	"golang.org/x/crypto/nacl/box"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/codeallergy/value"
	"verifsim/core"
	"verifsim/model"
)

// The replica world: replicas of one keyed collection take updates, gossip
// them over a network that loses, delays, duplicates, reorders and partitions,
// crash and recover from encoded snapshots, and in the end hold the same
// content, each by its own history.

func init() {
	register(&World{Prop: "C07", Name: "replicas", Run: runC07, Batch: 3000,
		Rule: "One run is one history of 2-4 replicas of a map or sparse list: bulk load, updates, gossip, partitions, crashes, snapshots, heal. It is non-trivial if at least one update was applied; two runs are distinct if their event sequences, delivery orders and faults differ.",
		Real: "all map and sparse-list constructors and operations (mutable and immutable), every value type, Pack, Write, WriteStream, MarshalBinary, Hex, Hash, PackStruct, Seal, Unpack, Read; Go map iteration (seeded)",
		Stub: "network, disk, clock, the replication protocol (last writer wins), the foreign MessagePack encoder"})
}

type op7 struct {
	key string
	idx int
	ts  int64
	del bool
	n   *model.Node
}

type rep7 struct {
	w    *net7
	id   int
	up   bool
	st   value.Value
	meta map[string]int64
	ops  []*op7         // durable: the write-ahead log
	has  map[int64]bool // time stamps in the log
	snap []byte         // durable: the last checkpoint
	smet map[string]int64
	b    *model.Builder
}

type ev7 struct {
	at  int64
	seq int
	f   func()
}

type evq []ev7

func (q evq) Len() int { return len(q) }
func (q evq) Less(i, j int) bool {
	return q[i].at < q[j].at || q[i].at == q[j].at && q[i].seq < q[j].seq
}
func (q evq) Swap(i, j int) { q[i], q[j] = q[j], q[i] }
func (q *evq) Push(x any)   { *q = append(*q, x.(ev7)) }
func (q *evq) Pop() any     { o := *q; x := o[len(o)-1]; *q = o[:len(o)-1]; return x }

type net7 struct {
	s      *core.Sim
	g      *model.Gen
	sparse bool
	reps   []*rep7
	q      evq
	seq    int
	ts     int64
	side   []int // partition side of each replica
	healed bool
	all    []*op7
	dups   bool
	keys   []string
}

// moreKeys adds keys related to those in use: long ones, prefixes, extensions.
func (w *net7) moreKeys() {
	s := w.s
	w.keys = keys7
	if w.sparse || s.Draw(3) < 2 {
		return
	}
	ks := append([]string(nil), keys7...)
	if s.Draw(3) == 2 {
		ks = ks[:0] // only related ones
	}
	base := []string{"k", "", "name", "\xc3", "a"}[s.Draw(5)]
	ks = append(ks, base)
	for i := 2 + s.Draw(6); i > 0; i-- {
		k := ks[len(ks)-1-s.Draw(min(len(ks), 3))]
		switch s.Draw(5) {
		case 0:
			if n := s.Draw(10); n < len(k) {
				k = k[:len(k)-n]
			}
			k += string([]byte{byte(s.Draw(256))})
		case 1:
			k += []string{"\x00", "\xff", "0", "a", "é", "Z", " "}[s.Draw(7)]
		case 2:
			n := []int{7, 8, 15, 16, 31, 32, 33, 63, 64, 127, 128, 254, 255, 256, 257, 300, 1000}[s.Draw(17)]
			for len(k) < n {
				k += k + "x"
			}
			k = k[:n]
		case 3:
			k = strings.ToUpper(k)
		default:
			k = string(s.Sub().Bytes(s.Draw(12)))
		}
		ks = append(ks, k)
	}
	w.keys = ks
	s.Hit("content:related keys")
}

func (w *net7) after(d int64, f func()) {
	w.seq++
	heap.Push(&w.q, ev7{w.s.Now + d, w.seq, f})
}

func (w *net7) run() {
	for len(w.q) > 0 {
		e := heap.Pop(&w.q).(ev7)
		if e.at > w.s.Now {
			w.s.Now = e.at
		}
		w.s.Steps++
		e.f()
	}
}

func (w *net7) name(o *op7) string {
	if w.sparse {
		return strconv.Itoa(o.idx)
	}
	return o.key
}

func (w *net7) newOp(del bool) *op7 {
	s := w.s
	w.ts++
	o := &op7{ts: w.ts, del: del}
	if w.sparse {
		switch s.Weighted(12, 2, 1) {
		case 0:
			o.idx = s.Draw(14)
		case 1:
			o.idx = []int{127, 128, 255, 256, 65535, 65536, 1 << 31, 1 << 33, 31, 32}[s.Draw(10)]
		default:
			o.idx = []int{-1, -32, -33, -128, -129, math.MinInt64, math.MaxInt64 - 1}[s.Draw(7)]
		}
	} else {
		o.key = w.keys[s.Draw(len(w.keys))]
	}
	if !del {
		w.g.Nodes = 10
		o.n = w.g.Value()
	}
	return o
}

var keys7 = []string{"a", "b", "c", "d", "ab", "abc", "B", "", "0", "1", "10", "2", "-1", "k\x00", "k", "é", "\xff", "long-key-with-more-than-31-bytes-in-it", "name", "zz"}

func (w *net7) stale() value.Value {
	return []value.Value{value.True, value.Utf8("old"), value.EmptyImmutableMap(), value.Tuple(value.Long(1))}[w.s.Draw(4)]
}

// value builds the content anew, in this replica's own way.
func (r *rep7) value(n *model.Node) value.Value {
	if n.K == model.Null && r.w.s.Draw(2) == 1 {
		return nil
	}
	return r.b.Value(n)
}

type setTo struct{ v value.Value }

func (u setTo) Update(value.Value) value.Value { return u.v }

func (r *rep7) apply(o *op7, v value.Value) {
	k := r.w.name(o)
	if r.meta[k] >= o.ts {
		r.w.s.Hit("apply:outdated")
		return
	}
	r.meta[k] = o.ts
	if r.w.sparse {
		r.applySparse(o, v)
	} else {
		r.applyMap(o, v)
	}
}

func (r *rep7) applyMap(o *op7, v value.Value) {
	s, m := r.w.s, r.st.(value.Map)
	if o.del {
		switch s.Draw(4) {
		case 0, 1:
			m = m.Remove(o.key)
		case 2:
			m = m.DeleteAll(o.key)
		default:
			h := m.HashMap()
			delete(h, o.key)
			if s.Draw(2) == 1 {
				m = value.SortedMapOf(h)
			} else {
				m = value.ImmutableMapOf(h)
			}
		}
		r.st = m
		return
	}
	switch s.Draw(10) {
	case 0, 1:
		m = m.Put(o.key, v)
	case 2:
		m = m.DeleteAll(o.key).Insert(o.key, v)
	case 3:
		if m.Update(o.key, setTo{v}) {
			s.Hit("apply:update-in-place")
		} else {
			m = m.Put(o.key, v)
		}
	case 4:
		m = m.Remove(o.key).InsertAll(o.key, []value.Value{v})
	case 5:
		h := m.HashMap()
		h[o.key] = v
		if s.Draw(2) == 1 {
			m = value.SortedMapOf(h)
		} else {
			m = value.ImmutableMapOf(h)
		}
		s.Hit("apply:rebuild-from-go-map")
	case 6:
		var es []value.MapEntry
		for _, e := range m.Remove(o.key).Entries() {
			if s.Draw(2) == 1 {
				es = append(es, value.MutableEntry(e.Key(), e.Value()))
			} else {
				es = append(es, value.ImmutableEntry(e.Key(), e.Value()))
			}
		}
		at := s.Draw(len(es) + 1)
		es = append(es, nil)
		copy(es[at+1:], es[at:])
		es[at] = value.MutableEntry(o.key, v)
		if s.Draw(2) == 1 && len(es) > 1 {
			i, j := s.Draw(len(es)), s.Draw(len(es))
			es[i], es[j] = es[j], es[i]
		}
		if s.Draw(2) == 1 {
			m = value.SortedMap(es, false)
		} else {
			m = value.ImmutableMap(es, false)
		}
		s.Hit("apply:rebuild-from-entries")
	case 7:
		m = m.Put(o.key, r.w.stale()).Put(o.key, v)
	case 8:
		m = m.Insert(o.key, r.w.stale()).DeleteAll(o.key).Put(o.key, v)
	default:
		if s.Draw(2) == 1 {
			m = value.SortedMapCopyOf(m)
		} else {
			m = value.ImmutableMapCopyOf(m)
		}
		s.Hit("apply:convert")
		m = m.Put(o.key, v)
	}
	r.st = m
}

func (r *rep7) applySparse(o *op7, v value.Value) {
	s, l := r.w.s, r.st.(value.List)
	if o.del {
		if s.Draw(2) == 1 {
			r.st = l.DeleteAll(o.idx)
		} else {
			r.st = l.RemoveAt(o.idx)
		}
		return
	}
	switch s.Draw(7) {
	case 0, 1:
		l = l.PutAt(o.idx, v)
	case 2:
		l = l.RemoveAt(o.idx).InsertAt(o.idx, v)
	case 3:
		if l.UpdateAt(o.idx, setTo{v}) {
			s.Hit("apply:update-in-place")
		} else {
			l = l.PutAt(o.idx, v)
		}
	case 4:
		l = l.DeleteAll(o.idx).InsertAll(o.idx, []value.Value{v})
	case 5:
		var es []value.ListItem
		for _, e := range l.RemoveAt(o.idx).Items() {
			if s.Draw(2) == 1 {
				es = append(es, value.MutableItem(e.Key(), e.Value()))
			} else {
				es = append(es, value.ImmutableItem(e.Key(), e.Value()))
			}
		}
		at := s.Draw(len(es) + 1)
		es = append(es, nil)
		copy(es[at+1:], es[at:])
		es[at] = value.ImmutableItem(o.idx, v)
		l = value.SparseList(es, false)
		s.Hit("apply:rebuild-from-items")
	default:
		items := l.Items()
		if n := len(items); n > 0 && items[n-1].Key()+1 == o.idx || n == 0 && o.idx == 0 {
			l = l.Append(v)
			s.Hit("apply:append")
		} else {
			l = l.PutAt(o.idx, r.w.stale()).PutAt(o.idx, v)
		}
	}
	r.st = l
}

func (r *rep7) empty() value.Value {
	if r.w.sparse {
		if r.w.s.Draw(2) == 1 {
			return value.SparseListOf(nil)
		}
		return value.EmptySparseList()
	}
	return value.EmptyMap(r.w.s.Draw(2) == 1)
}

// load builds the initial content the way this replica does.
func (r *rep7) load(ops []*op7) {
	s := r.w.s
	n := &model.Node{K: model.Map}
	if r.w.sparse {
		n.K = model.Sparse
	}
	for _, o := range ops {
		n.Keys = append(n.Keys, o.key)
		n.Idx = append(n.Idx, o.idx)
		n.Elems = append(n.Elems, o.n)
		r.meta[r.w.name(o)] = o.ts
		r.has[o.ts] = true
	}
	if r.w.sparse {
		n.Keys = nil
		n.SortSparse()
	} else {
		n.Idx = nil
		n.SortMap()
	}
	if len(ops) == 0 {
		r.st = r.empty()
	} else {
		r.st = r.b.Value(n)
	}
	r.ops = append(r.ops, ops...)
	s.Hit("replica:loaded")
}

// message is an update on the wire, packed by the library.
func (r *rep7) message(o *op7) []byte {
	m := value.EmptyImmutableMap().Put("t", value.Long(o.ts)).Put("k", value.Utf8(o.key)).Put("i", value.Long(int64(o.idx))).Put("d", value.Boolean(o.del))
	if !o.del {
		m = m.Put("v", r.value(o.n))
	}
	b, err := value.Pack(m)
	if err != nil {
		r.w.s.Fail("pack", "packing an update: %v", err)
	}
	return b
}

func (r *rep7) receive(b []byte) {
	if !r.up {
		r.w.s.Fault("arrived-at-crashed")
		return
	}
	var v value.Value
	var err error
	if r.w.s.Draw(2) == 1 {
		v, err = value.Read(bytes.NewReader(b))
	} else {
		v, err = value.Unpack(b, true)
	}
	if err != nil || v.Kind() != value.MAP {
		r.w.s.Fail("message", "an update does not decode: %v", err)
	}
	m := v.(value.Map)
	ts := m.GetNumber("t").Long()
	if ts < 1 || ts > int64(len(r.w.all)) {
		r.w.s.Fail("message", "an update decodes with time stamp %d", ts)
	}
	o := r.w.all[ts-1]
	if r.has[ts] {
		r.w.s.Hit("apply:duplicate")
	} else {
		r.has[ts] = true
		r.ops = append(r.ops, o)
	}
	var x value.Value
	if !o.del {
		x = m.Get("v")
		if x.Kind() == value.MAP && x.(value.Map).Len() == 0 && o.n.K == model.Sparse {
			x = value.EmptySparseList()
		}
	}
	r.w.s.Mark(uint64(r.id)<<40 | uint64(ts))
	r.apply(o, x)
}

func (w *net7) send(from, to *rep7, o *op7) {
	s := w.s
	b := from.message(o)
	n := 1
	if !w.healed {
		if w.side[from.id] != w.side[to.id] {
			s.Fault("partitioned-away")
			return
		}
		switch s.Weighted(70, 15, 15) {
		case 1:
			s.Fault("message-loss")
			return
		case 2:
			s.Fault("message-duplication")
			n = 2 + s.Draw(2)
		}
	}
	for i := 0; i < n; i++ {
		d := int64(50 + s.Draw(50))
		if s.Chance(30) {
			d += int64(s.Draw(20000))
			s.Fault("message-delay")
		}
		w.after(d, func() { to.receive(b) })
	}
}

func (r *rep7) checkpoint() {
	r.snap = r.w.encode(r, r.st, "checkpoint")
	r.smet = map[string]int64{}
	for k, v := range r.meta {
		r.smet[k] = v
	}
	r.w.s.Hit("replica:checkpoint")
}

// restore makes a state from an encoded one.
func (r *rep7) restore(b []byte) value.Value {
	var v value.Value
	var err error
	switch r.w.s.Draw(3) {
	case 0:
		v, err = value.Unpack(b, true)
	case 1:
		v, err = value.Unpack(b, false)
	default:
		v, err = value.Read(bytes.NewReader(b))
	}
	if err != nil {
		r.w.s.Fail("snapshot", "a snapshot does not decode: %v", err)
	}
	if r.w.sparse && v.Kind() == value.MAP && v.(value.Map).Len() == 0 {
		v = value.EmptySparseList()
	}
	if !r.w.sparse && v.Kind() != value.MAP || r.w.sparse && v.Kind() != value.LIST {
		r.w.s.Fail("snapshot", "a snapshot of a %s decodes as a %s: %x", r.st.Kind(), v.Kind(), clipBytes(b))
	}
	if again := r.w.encode(r, v, "decoded snapshot"); !bytes.Equal(again, b) {
		r.w.s.Fail("re-encoding", "decoding %x and encoding it again gives %x", clipBytes(b), clipBytes(again))
	}
	if !r.w.sparse && r.w.s.Draw(2) == 1 {
		if r.w.s.Draw(2) == 1 {
			v = value.SortedMapCopyOf(v.(value.Map))
		} else {
			v = value.ImmutableMapCopyOf(v.(value.Map))
		}
	}
	return v
}

func (r *rep7) crash() {
	if !r.up {
		return
	}
	s := r.w.s
	s.Fault("replica-crash")
	r.up = false
	r.st, r.meta = nil, nil
	r.w.after(int64(100+s.Draw(8000)), r.recover)
}

func (r *rep7) recover() {
	s := r.w.s
	if r.up {
		return
	}
	r.up = true
	r.meta = map[string]int64{}
	if r.snap != nil {
		r.st = r.empty()
		r.st = r.restore(r.snap)
		for k, v := range r.smet {
			r.meta[k] = v
		}
		s.Hit("replica:recovered-from-snapshot")
	} else {
		r.st = r.empty()
		s.Hit("replica:recovered-from-log")
	}
	// replay the log, in any order
	p := r.ops
	if len(p) < 100 && s.Draw(2) == 1 {
		p = append([]*op7(nil), p...)
		for i := len(p) - 1; i > 0; i-- {
			j := s.Draw(i + 1)
			p[i], p[j] = p[j], p[i]
		}
	}
	for _, o := range p {
		var v value.Value
		if !o.del {
			if r.meta[r.w.name(o)] >= o.ts {
				continue
			}
			v = r.value(o.n)
		}
		r.apply(o, v)
	}
}

// transfer sends the whole state to another replica.
func (w *net7) transfer(from, to *rep7) {
	if !from.up || !to.up || w.side[from.id] != w.side[to.id] && !w.healed {
		return
	}
	s := w.s
	b := w.encode(from, from.st, "snapshot")
	met := map[string]int64{}
	for k, v := range from.meta {
		met[k] = v
	}
	log := append([]*op7(nil), from.ops...)
	s.Hit("replica:snapshot-transfer")
	w.after(int64(100+s.Draw(3000)), func() {
		if !to.up {
			return
		}
		// only a replica that knows nothing newer takes the state as it is
		for k, v := range to.meta {
			if v > met[k] {
				return
			}
		}
		to.st = to.restore(b)
		to.meta = met
		for _, o := range log {
			if !to.has[o.ts] {
				to.has[o.ts] = true
				to.ops = append(to.ops, o)
			}
		}
		s.Hit("replica:snapshot-installed")
	})
}

// encode encodes v through one of the entry points.
func (w *net7) encode(r *rep7, v value.Value, what string) []byte {
	return encode7(w.s, v, w.s.Draw(encodings7), fmt.Sprintf("replica %d, %s", r.id, what))
}

const encodings7 = 11

type struct7 struct {
	V value.Value `tag:"1"`
}

func encode7(s *core.Sim, v value.Value, how int, what string) []byte {
	var b []byte
	var err error
	switch how {
	case 0:
		b, err = value.Pack(v)
	case 1:
		var buf bytes.Buffer
		err = value.Write(&buf, v)
		b = buf.Bytes()
	case 2:
		var buf bytes.Buffer
		c := make(chan value.Value, 1)
		c <- v
		close(c)
		err = value.WriteStream(&buf, c)
		b = buf.Bytes()
	case 3:
		b, err = v.MarshalBinary()
	case 4:
		b, err = hex.DecodeString(value.Hex(v))
	case 5, 6:
		h := []crypto.Hash{crypto.SHA256, crypto.SHA512, crypto.MD5}[s.Draw(3)]
		var sum []byte
		b, sum, err = value.Hash(v, h)
		if err == nil {
			x := h.New()
			x.Write(b)
			if !bytes.Equal(sum, x.Sum(nil)) {
				s.Fail("hash", "%s: Hash returns %x, which is not the %v of the data it returns", what, sum, h)
			}
		}
	case 7:
		var buf bytes.Buffer
		p := value.MessagePacker(&buf)
		v.Pack(p)
		b, err = buf.Bytes(), p.Error()
	case 8:
		b, err = value.PackStruct(v)
	case 9:
		b, err = value.PackStruct(&struct7{v})
		if err == nil {
			if !bytes.HasPrefix(b, []byte{0x81, 1}) {
				s.Fail("pack", "%s: a struct with the value in its field 1 is packed as %x", what, clipBytes(b))
			}
			b = b[2:]
		}
	default:
		old := rand.Reader
		rand.Reader = bytes.NewReader(bytes.Repeat(s.Sub().Bytes(24), 200))
		var sealed []byte
		sealed, err = value.Seal(v, keys04[1].pub, keys04[0].priv)
		rand.Reader = old
		if err == nil {
			var nonce [24]byte
			copy(nonce[:], sealed)
			var ok bool
			if b, ok = box.Open(nil, sealed[24:], &nonce, keys04[0].pub, keys04[1].priv); !ok {
				s.Fail("pack", "%s: the sealed value does not open", what)
			}
		}
	}
	if err != nil {
		s.Fail("pack", "%s: encoding %d fails: %v", what, how, err)
	}
	return b
}

func runC07(s *core.Sim) {
	w := &net7{s: s, g: model.NewGen(s)}
	w.sparse = s.Draw(3) == 2
	w.g.HugePct = 0
	w.g.Depth = 2
	w.moreKeys()
	w.dups = s.Draw(4) == 3
	w.g.NoDup = !w.dups
	value.AllowFastAppends = s.Draw(4) > 0
	n := 2 + s.Draw(3)
	w.side = make([]int, n)
	// bulk load
	var load []*op7
	cnt := 0
	switch s.Weighted(40, 40, 15, 5) {
	case 1:
		cnt = s.Draw(8)
	case 2:
		cnt = 12 + s.Draw(8)
	case 3:
		cnt = 100 + s.Draw(200)
		if s.Rare(60) {
			cnt = 65534 + s.Draw(4)
			s.Hit("content:>=65534")
		}
	}
	used := map[string]bool{}
	for i := 0; i < cnt; i++ {
		var o *op7
		if cnt > 40 {
			w.ts++
			o = &op7{ts: w.ts, key: "k" + strconv.Itoa(i*7919%cnt), idx: i, n: &model.Node{K: model.Long, I: int64(i)}}
		} else {
			o = w.newOp(false)
			for k := 0; used[w.name(o)]; k++ {
				o.key = fmt.Sprintf("k%d", i*10+k)
				o.idx = i*10 + k + 20
			}
		}
		used[w.name(o)] = true
		w.all = append(w.all, o)
		load = append(load, o)
	}
	for i := 0; i < n; i++ {
		r := &rep7{w: w, id: i, up: true, meta: map[string]int64{}, has: map[int64]bool{}}
		r.b = &model.Builder{S: s, Immutable: s.Draw(3) == 2, NilNulls: true}
		r.load(load)
		w.reps = append(w.reps, r)
	}
	// the clients' updates
	steps := s.Draw(28)
	for i := 0; i < steps; i++ {
		s.Begin()
		at := int64(s.Draw(30000))
		r := w.reps[s.Draw(n)]
		switch s.Weighted(60, 14, 6, 6, 6, 5, 3) {
		case 0, 1:
			o := w.newOp(s.Draw(5) == 4)
			w.all = append(w.all, o)
			w.after(at, func() { w.local(r, o) })
		case 2:
			w.after(at, r.crash)
		case 3:
			w.after(at, func() {
				if r.up {
					r.checkpoint()
				}
			})
		case 4:
			t := w.reps[s.Draw(n)]
			w.after(at, func() { w.transfer(r, t) })
		case 5:
			m := s.Draw(1 << n)
			w.after(at, func() {
				for i := range w.side {
					w.side[i] = m >> i & 1
				}
				s.Fault("partition")
			})
		default:
			w.after(at, func() {
				if r.up {
					w.encode(r, r.st, "probe")
					r.st = r.restore(w.encode(r, r.st, "self"))
					s.Hit("replica:round-trip")
				}
			})
		}
		s.End()
	}
	s.Trivial = len(w.all) == 0
	w.run()
	// heal: everybody comes back and exchanges what is missing
	w.healed = true
	for _, r := range w.reps {
		r.recover()
	}
	for _, a := range w.reps {
		for _, b := range w.reps {
			for _, o := range a.ops {
				if !b.has[o.ts] && a != b {
					w.send(a, b, o)
				}
			}
		}
	}
	w.run()
	w.verify()
}

// local is a client's update at one replica.
func (w *net7) local(r *rep7, o *op7) {
	// a client whose replica is down goes to another one
	for i := 0; !r.up && i < len(w.reps); i++ {
		r = w.reps[(r.id+1)%len(w.reps)]
	}
	if !r.up {
		r.recover()
	}
	var v value.Value
	if !o.del {
		v = r.value(o.n)
	}
	r.has[o.ts] = true
	r.ops = append(r.ops, o)
	w.s.Mark(uint64(r.id)<<40 | uint64(o.ts) | 1<<60)
	r.apply(o, v)
	for _, t := range w.reps {
		if t != r {
			w.send(r, t, o)
		}
	}
}

func (r *rep7) at(n *model.Node, i int) value.Value {
	if r.w.sparse {
		return r.st.(value.List).GetAt(n.Idx[i])
	}
	return r.st.(value.Map).Get(n.Keys[i])
}

func (w *net7) verify() {
	s := w.s
	win := map[string]*op7{}
	for _, o := range w.all {
		k := w.name(o)
		if c := win[k]; c == nil || c.ts < o.ts {
			win[k] = o
		}
	}
	want := &model.Node{K: model.Map}
	if w.sparse {
		want.K = model.Sparse
	}
	var ks []string
	for k, o := range win {
		if !o.del {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		if w.sparse {
			want.Idx = append(want.Idx, win[k].idx)
		} else {
			want.Keys = append(want.Keys, k)
		}
		want.Elems = append(want.Elems, win[k].n)
	}
	if w.sparse {
		want.SortSparse()
	} else {
		want.SortMap()
	}
	canon := want.Canon()
	if len(want.Elems) > 0 {
		s.Hit("content:non-empty")
	}
	var ref []byte
	var refWho string
	check := func(who string, v value.Value, how int) {
		b := encode7(s, v, how, who)
		if ref == nil {
			ref, refWho = b, fmt.Sprintf("%s (encoding %d)", who, how)
		} else if !bytes.Equal(ref, b) {
			s.Fail("encodings-differ", "%s gives %x; %s (encoding %d) gives %x; content %s", refWho, clipBytes(ref), who, how, clipBytes(b), core.Clip(canon, 400))
		}
	}
	for _, r := range w.reps {
		if got := model.Snap(r.st); got != canon {
			s.Fail("diverged", "replica %d holds %s, want %s", r.id, core.Clip(got, 500), core.Clip(canon, 500))
		}
		all := len(want.Elems) < 60
		for how := 0; how < encodings7; how++ {
			if all || how == 0 || s.Draw(3) == 0 {
				check(fmt.Sprintf("replica %d", r.id), r.st, how)
			}
		}
	}
	s.Observe(fmt.Sprintf("%d %x", len(ref), clipBytes(ref)))
	// so do the values within
	if len(want.Elems) < 60 {
		for i, n := range want.Elems {
			var ref []byte
			for _, r := range w.reps {
				v := r.at(want, i)
				if v == nil {
					continue
				}
				for k := 0; k < 2; k++ {
					how := s.Draw(encodings7)
					b := encode7(s, v, how, "element")
					if ref == nil {
						ref = b
					} else if !bytes.Equal(ref, b) {
						s.Fail("encodings-differ", "element %s of replica %d (encoding %d) gives %x, elsewhere %x", core.Clip(n.Canon(), 200), r.id, how, clipBytes(b), clipBytes(ref))
					}
				}
			}
		}
	}
	// the other variants of the same content
	if !w.sparse {
		m := w.reps[0].st.(value.Map)
		check("mutable copy", value.SortedMapCopyOf(m), s.Draw(encodings7))
		check("immutable copy", value.ImmutableMapCopyOf(m), s.Draw(encodings7))
		check("rebuilt from Go map", value.ImmutableMapOf(m.HashMap()), s.Draw(encodings7))
		check("rebuilt from Go map", value.SortedMapOf(m.HashMap()), s.Draw(encodings7))
	}
	// decoded again, from our own bytes and from another implementation's
	v, err := value.Unpack(ref, s.Draw(2) == 1)
	if err != nil {
		s.Fail("re-encoding", "%x does not decode: %v", clipBytes(ref), err)
	}
	check("decoded again", v, s.Draw(encodings7))
	if len(want.Elems) < 2000 {
		for i := 0; i < 2; i++ {
			b := want.Encode(nil, s, !w.dups)
			v, err := value.Unpack(b, s.Draw(2) == 1)
			if err != nil {
				s.Fail("foreign", "%x of another implementation does not decode: %v", clipBytes(b), err)
			}
			check(fmt.Sprintf("decoded from %x of another implementation", clipBytes(b)), v, s.Draw(encodings7))
			if !bytes.Equal(b, ref) {
				s.Hit("foreign:other-bytes")
			}
		}
	}
}
