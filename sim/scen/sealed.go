package scen

import (
	"bytes"
	"crypto/rand"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"sync/atomic"

	"github.com/codeallergy/value"
	"golang.org/x/crypto/nacl/box"
	"verifsim/coop"
	"verifsim/core"
	"verifsim/model"
	"verifsim/simhook"
)

// The sealed-mail world: parties seal values for each other at the same time,
// over a network that reads, delays, duplicates, misdelivers and damages the
// messages, with an entropy source that runs slow, short or out.

func init() {
	register(&World{Prop: "C08", Name: "sealed-mail", Run: runC08, Inst: true, Race: true, Batch: 300,
		Rule: "One run is one history of 2-4 parties sealing values for each other concurrently, with entropy faults, and of a network that duplicates, misdelivers and damages what it carries. It is non-trivial if at least one message was sealed; two runs are distinct if their schedules or faults differ.",
		Real: "Seal, Unseal, Pack, Unpack, golang.org/x/crypto/nacl/box, every value type",
		Stub: "crypto/rand.Reader (simulated entropy), network, scheduler"})
}

// pull is what the entropy source does on one read: give n bytes (-1: as many
// as asked for) and the error.
type pull struct {
	n   int
	err error
}

// chunk is a piece of the entropy stream given to one reader.
type chunk struct{ pos, n int }

// entropy is the simulated source; it hands out consecutive pieces of one
// random stream. Its own bookkeeping is no synchronisation between tasks.
type entropy struct {
	rng    []byte
	at     int
	plan   [16][]pull  // what the next reads of each task do
	got    [16][]chunk // what each task was given in this operation
	failed [16]error
}

func (e *entropy) Read(p []byte) (int, error) {
	coop.SeamYield()
	n, err := e.read(p)
	coop.SeamYield()
	return n, err
}

//go:norace
func (e *entropy) read(p []byte) (int, error) {
	id := 15
	if r := simhook.Cur(); r != nil {
		id = r.ID
	}
	do := pull{n: -1}
	if q := e.plan[id]; len(q) > 0 {
		do = q[0]
		e.plan[id] = q[1:]
	}
	n := do.n
	if n < 0 || n > len(p) {
		n = len(p)
	}
	for e.at+n > len(e.rng) {
		e.grow()
	}
	for i := 0; i < n; i++ {
		p[i] = e.rng[e.at+i]
	}
	if n > 0 {
		e.got[id] = append(e.got[id], chunk{e.at, n})
	}
	e.at += n
	if do.err != nil {
		e.failed[id] = do.err
	}
	return n, do.err
}

//go:norace
func (e *entropy) grow() {
	x := uint64(len(e.rng)) + 0x9e3779b97f4a7c15
	for i := 0; i < 512; i++ {
		x = core.Mix(x + uint64(i))
		e.rng = append(e.rng, byte(x>>24))
	}
}

//go:norace
func (e *entropy) begin(id int, plan []pull) {
	e.plan[id] = plan
	e.got[id] = nil
	e.failed[id] = nil
}

//go:norace
func (e *entropy) end(id int) (got []chunk, failed error) {
	e.plan[id] = nil
	return e.got[id], e.failed[id]
}

//go:norace
func (e *entropy) bytes(cs []chunk) (b []byte, at []int) {
	for _, c := range cs {
		for i := 0; i < c.n; i++ {
			b = append(b, e.rng[c.pos+i])
			at = append(at, c.pos+i)
		}
	}
	return b, at
}

// msg8 is a sealed message in the network.
type msg8 struct {
	b        []byte
	copy     []byte
	from, to int
	n        *model.Node
	where    []int
	by       string
}

type step8 struct {
	kind  int
	n     *model.Node
	v     value.Value
	from  int
	to    int
	plan  []pull
	slot  int
	slot2 int
	dmg   int
	pos   int
	bit   int
	extra []byte
	times int
}

func runC08(s *core.Sim) {
	g := model.NewGen(s)
	g.HugePct = 0
	b := &model.Builder{S: s, NilNulls: true}
	parties := 2 + s.Draw(3)
	if s.Rare(20) {
		parties = 5 + s.Draw(12)
	}
	krng := core.NewRNG(s.Sub().U64())
	pub := make([]*[32]byte, parties)
	priv := make([]*[32]byte, parties)
	for i := range pub {
		var err error
		pub[i], priv[i], err = box.GenerateKey(bytes.NewReader(krng.Bytes(64)))
		if err != nil {
			core.Harness("keys: %v", err)
		}
	}
	ent := &entropy{}
	old := rand.Reader
	rand.Reader = ent
	defer func() { rand.Reader = old }()

	net := make([]atomic.Pointer[msg8], 1+s.Draw(6))
	tasks := 1 + s.Draw(4)
	sent := make([][]*msg8, tasks)
	co := coop.New(s)
	for i := 0; i < tasks; i++ {
		var prog []*step8
		k := 2 + s.Draw(6)
		if s.Rare(40) {
			k += s.Draw(60)
			s.Hit("many messages")
		}
		for ; k > 0; k-- {
			s.Begin()
			st := &step8{kind: s.Weighted(5, 5, 6, 1), from: s.Draw(parties), slot: s.Draw(len(net)), slot2: s.Draw(len(net)), pos: s.Draw(1 << 16), bit: s.Draw(8), times: 1 + s.Weighted(4, 1, 1)}
			st.to = (st.from + 1 + s.Draw(parties-1)) % parties
			if s.Rare(12) {
				st.to = st.from // a note to oneself
			}
			switch st.kind {
			case 0:
				g.Nodes = 8
				st.n = g.Value()
				if s.Rare(80) {
					st.n = &model.Node{K: model.Utf8, S: g.Payload()}
					s.Hit("large message")
				}
				if st.n.K != model.Null || s.Draw(2) == 1 {
					st.v = b.Value(st.n)
				}
				st.plan = drawPulls(s)
			case 2:
				st.dmg = s.Draw(nDamage)
				st.extra = s.Sub().Bytes([]int{1, 2, 16, 24, 40, 64, 100}[s.Draw(7)])
				if s.Draw(3) == 2 {
					// padding, line ends
					st.extra = bytes.Repeat([]byte{0, ' ', '\n', 0x80, 0xff, '=', 0xc0, 1}[s.Draw(8):][:1], 1+s.Draw(24))
				}
			}
			prog = append(prog, st)
			s.End()
		}
		i := i
		co.Go(fmt.Sprint("task", i), func(t *coop.Task) {
			for _, st := range prog {
				mail8(t, i, st, ent, net, pub, priv, &sent[i])
			}
		})
	}
	co.Run()

	// no piece of entropy serves twice
	used := map[int]*msg8{}
	nonces := map[string]bool{}
	total := 0
	for _, ms := range sent {
		for _, m := range ms {
			total++
			for _, at := range m.where {
				if used[at] != nil {
					s.Fail("nonce", "byte %d of the entropy stream is in the nonces of two messages, %s and %s", at, used[at].by, m.by)
				}
				used[at] = m
			}
			if nonces[string(m.copy[:24])] {
				s.Fail("nonce", "two messages carry the nonce %x", m.copy[:24])
			}
			nonces[string(m.copy[:24])] = true
			// opened once more, after everything
			v, err := value.Unseal(m.b, pub[m.from], priv[m.to])
			if err != nil {
				s.Fail("refused", "after the run: an unaltered message is refused: %v", err)
			}
			if g, w := model.Snap(v), m.n.Canon(); g != w {
				s.Fail("content", "after the run: a message of %s opens to %s", core.Clip(w, 400), core.Clip(g, 400))
			}
			s.Observe(m.n.Canon())
			for k := 0; k < 2; k++ {
				st := &step8{dmg: s.Draw(nDamage), pos: s.Draw(1 << 16), bit: s.Draw(8), extra: []byte{1, 2, 3}}
				o := ms[s.Draw(len(ms))]
				open8(func(class, format string, a ...any) { s.Fail(class, "after the run: "+format, a...) }, s.Hit, st, m, o, pub, priv)
			}
		}
	}
	s.Trivial = total == 0
	s.Stats["messages sealed"] += int64(total)
}

var errEntropy = errors.New("simulated entropy failure")

func drawPulls(s *core.Sim) []pull {
	var plan []pull
	switch s.Weighted(6, 3, 3, 1) {
	case 1: // short reads
		for k := 1 + s.Draw(5); k > 0; k-- {
			plan = append(plan, pull{n: s.Draw(13)})
		}
		s.Fault("entropy source reads short")
	case 2: // failure after some bytes
		for k := s.Draw(3); k > 0; k-- {
			plan = append(plan, pull{n: s.Draw(9)})
		}
		err := core.Pick(s, errEntropy, io.EOF, io.ErrUnexpectedEOF, io.ErrNoProgress, error(entErr{}), error(hungUp{}))
		n := s.Draw(12)
		if s.Rare(4) {
			n = 24
		}
		plan = append(plan, pull{n: n, err: err})
		s.Fault("entropy source fails")
	case 3: // byte by byte
		for k := 0; k < 26; k++ {
			plan = append(plan, pull{n: 1})
		}
		s.Fault("entropy source gives single bytes")
	}
	return plan
}

type entErr struct{}

func (entErr) Error() string { return "entropy device gone" }

const (
	dFlip = iota
	dFlipNonce
	dFlipTag
	dCut
	dCutHead
	dExtend
	dPrefix
	dSpliceNonce
	dSpliceBody
	dNoise
	dEmpty
	dNonceOnly
	dWrongTo
	dWrongFrom
	dSwap
	dZero
	dPlain
	dHex
	dBase64
	dTwice
	nDamage
)

var damageName = []string{"a flipped bit", "a flipped bit in the nonce", "a flipped bit in the tag", "a cut end", "a cut head", "an extension", "bytes in front", "another message's nonce", "another message's body", "noise", "nothing at all", "a nonce only", "the wrong recipient", "the wrong sender", "swapped halves", "zero bytes", "an unsealed encoding", "its hexadecimal form", "its base64 form", "the message twice"}

func mail8(t *coop.Task, id int, st *step8, ent *entropy, net []atomic.Pointer[msg8], pub, priv []*[32]byte, sent *[]*msg8) {
	switch st.kind {
	case 0:
		t.Op("seal for party %d", st.to)
		ent.begin(id, st.plan)
		b, err := value.Seal(st.v, pub[st.to], priv[st.from])
		got, failed := ent.end(id)
		give, at := ent.bytes(got)
		if err != nil {
			if failed == nil {
				t.Failf("seal", "Seal fails with %v although the entropy source did not fail", err)
			}
			if !errors.Is(err, failed) && !(failed == io.EOF && errors.Is(err, io.ErrUnexpectedEOF)) {
				t.Failf("seal", "the entropy source failed with %v, Seal returns %v", failed, err)
			}
			if len(b) > 0 {
				t.Failf("seal", "Seal fails with %v and emits %x", err, clipBytes(b))
			}
			t.Hit("sealing refused for want of entropy")
			return
		}
		if len(b) < 24 {
			t.Failf("seal", "the sealed message has %d bytes", len(b))
		}
		k := bytes.Index(give, b[:24])
		if k < 0 {
			t.Failf("nonce", "the nonce %x is not among the %d bytes the entropy source gave to this sealing (it failed with %v)", b[:24], len(give), failed)
		}
		m := &msg8{b: b, copy: append([]byte(nil), b...), from: st.from, to: st.to, n: st.n, where: at[k : k+24], by: t.Name}
		*sent = append(*sent, m)
		net[st.slot].Store(m)
	case 1: // delivery, perhaps several times
		m := net[st.slot].Load()
		if m == nil {
			return
		}
		for k := 0; k < st.times; k++ {
			t.Op("open a message from party %d to %d", m.from, m.to)
			v, err := value.Unseal(m.b, pub[m.from], priv[m.to])
			if err != nil {
				t.Failf("refused", "an unaltered message of %s is refused: %v", core.Clip(m.n.Canon(), 300), err)
			}
			if g, w := model.Snap(v), m.n.Canon(); g != w {
				t.Failf("content", "a message of %s opens to %s", core.Clip(w, 400), core.Clip(g, 400))
			}
			if !bytes.Equal(m.b, m.copy) {
				t.Failf("modified", "opening changed the message")
			}
			if k > 0 {
				t.Hit("fault:message delivered twice")
			}
		}
		t.Hit("message opened")
	case 2: // damaged or misdelivered
		m, o := net[st.slot].Load(), net[st.slot2].Load()
		if m == nil {
			return
		}
		t.Op("open a message with %s", damageName[st.dmg])
		open8(t.Failf, t.Hit, st, m, o, pub, priv)
	default:
		t.Op("stall")
		t.Op("stall")
	}
}

// damage8 is what arrives instead of the message.
func damage8(st *step8, m, o *msg8, parties int) (b []byte, from, to int) {
	b = append([]byte(nil), m.b...)
	from, to = m.from, m.to
	flip := func(lo, hi int) {
		b[lo+st.pos%(hi-lo)] ^= 1 << st.bit
	}
	switch st.dmg {
	case dFlip:
		flip(0, len(b))
	case dFlipNonce:
		flip(0, 24)
	case dFlipTag:
		flip(24, 40)
	case dCut:
		b = b[:st.pos%len(b)]
	case dCutHead:
		b = b[1+st.pos%len(b):]
	case dExtend:
		b = append(b, st.extra...)
	case dHex:
		b = []byte(hex.EncodeToString(b))
	case dBase64:
		b = []byte(base64.StdEncoding.EncodeToString(b))
	case dTwice:
		b = append(b, b...)
	case dPrefix:
		b = append(append([]byte(nil), st.extra...), b...)
	case dSpliceNonce:
		if o == nil {
			return nil, 0, 0
		}
		b = append(append([]byte(nil), o.b[:24]...), b[24:]...)
	case dSpliceBody:
		if o == nil {
			return nil, 0, 0
		}
		k := st.pos % (min(len(b), len(o.b)) + 1)
		b = append(append([]byte(nil), b[:k]...), o.b[k:]...)
	case dNoise:
		b = append([]byte(nil), st.extra...)
	case dEmpty:
		b = nil
		if st.bit%2 == 1 {
			b = []byte{}
		}
	case dNonceOnly:
		b = b[:24+st.pos%16]
	case dWrongTo:
		to = (to + 1) % parties
	case dWrongFrom:
		from = (from + 1) % parties
	case dSwap:
		k := st.pos % len(b)
		b = append(append([]byte(nil), b[k:]...), b[:k]...)
	case dZero:
		b = make([]byte, st.pos%100)
	case dPlain:
		p, _ := value.Pack(fresh.Value(m.n))
		b = append(b[:24:24], p...)
	}
	return b, from, to
}

// open8 damages or misdelivers a message and opens it.
func open8(fail failer, hit func(string), st *step8, m, o *msg8, pub, priv []*[32]byte) {
	b, from, to := damage8(st, m, o, len(pub))
	if b == nil && st.dmg != dEmpty {
		return
	}
	keys := from != m.from || to != m.to
	if !keys && bytes.Equal(b, m.b) || o != nil && bytes.Equal(b, o.b) && (o.from == from && o.to == to || o.from == to && o.to == from) ||
		keys && bytes.Equal(b, m.b) && from == m.to && to == m.from {
		return // what arrives was sealed between these two
	}
	save := append([]byte(nil), b...)
	v, err := value.Unseal(b, pub[from], priv[to])
	if err == nil {
		fail("accepted", "a message with %s (%x) is accepted as %s", damageName[st.dmg], clipBytes(b), core.Clip(model.Snap(v), 300))
	}
	if v != nil {
		fail("accepted", "a refused message gives the value %s", core.Clip(model.Snap(v), 300))
	}
	if !bytes.Equal(b, save) {
		fail("modified", "opening a refused message changed it")
	}
	hit("fault:message with " + damageName[st.dmg])
}
