package scen

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"verifsim/core"
	"verifsim/model"
)

const streamStub = "transport (simulated links with latency, fragmentation, zero-byte reads, data with the end, failures), producers and consumers, independent MessagePack implementation"
const streamReal = "WriteStream, ReadStream, Write, Read, Pack, Unpack, Parse, MessagePacker, MessageReader, MessageUnpacker, MessageParser and all value types; Go channels and goroutines"

func init() {
	register(&World{Prop: "C02", Name: "input failure", Run: runC02, Real: streamReal, Stub: streamStub,
		Rule: "One run is one world of 1-3 connections whose input ends or fails at one byte position, drawn mostly at value and token boundaries. It is non-trivial if an input was cut or failed; two runs are distinct if their sequences of scheduling decisions and injected faults (position and kind included) differ."})
	register(&World{Prop: "C03", Name: "output failure", Run: runC03, Real: streamReal, Stub: streamStub,
		Rule: "One run is one world of 1-3 library writers whose transport fails (partial write, error, full write with error) at one byte position or not at all. It is non-trivial if at least one value was sent; two runs are distinct if their sequences of scheduling decisions and injected faults (position and kind included) differ."})
	register(&World{Prop: "C12", Name: "stream liveness", Run: runC12, Real: streamReal, Stub: streamStub,
		Rule: "One run is one world of 1-3 stream connections, or a request/reply pair, with stalls and one of all endings (clean, cut, failed, damaged). It is non-trivial if at least one value was sent; two runs are distinct if their sequences of scheduling decisions and injected faults differ."})
}

// cut makes the first link of c end or fail at a drawn position.
func (c *conn) cut(failures bool) {
	s := c.w.s
	l := c.links[0]
	l.endAt = c.position()
	if failures && s.Chance(45) {
		l.endErr = pickErr(s)
		l.endOnce = !l.withEnd && s.Draw(4) == 3
		if l.endOnce {
			l.emptyEO = false
		}
		s.Fault("input-failure")
	} else {
		s.Fault("input-cut")
	}
	s.Mark(uint64(l.endAt))
	s.Mark(uint64(len(c.wire)))
	k := c.complete(l.endAt)
	switch {
	case l.endAt == 0 || k > 0 && c.bounds[k-1] == l.endAt:
		s.Hit("end:between-values")
	default:
		s.Hit("end:inside-value")
		if n := c.nodes[k]; n.K >= model.List {
			s.Hit("end:inside-collection")
		}
	}
}

// checkEnd checks how the reader of the first link ended. end is where its
// input ended, endErr the failure, if any.
func (c *conn) checkEnd(end int, endErr error) {
	s := c.w.s
	done, err := c.recvDone, c.recvErr
	if c.relay {
		done, err = c.midDone[0], c.midErr[0]
	}
	k := c.complete(end)
	if !done {
		s.Fail("no-return", "connection %s: the reader does not return after its input ended at byte %d", c.name, end)
	}
	inside := end > 0 && (k == 0 || c.bounds[k-1] != end)
	where := "between two values"
	if inside {
		where = fmt.Sprintf("inside value %d (%s)", k, core.Clip(c.nodes[k].Canon(), 120))
	}
	switch {
	case err == nil:
		s.Fail("end-unreported", "connection %s: the reader returns no error after its input ended at byte %d, %s", c.name, end, where)
	case endErr != nil:
		if !reports(err, endErr) {
			s.Fail("failure-masked", "connection %s: the transport failed with %q at byte %d, %s; the reader reports %q", c.name, endErr, end, where, err)
		}
	case inside:
		if errors.Is(err, io.EOF) || !errors.Is(err, io.ErrUnexpectedEOF) {
			s.Fail("truncation-masked", "connection %s: the input ended at byte %d, %s; the reader reports %q", c.name, end, where, err)
		}
	default:
		if !errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
			s.Fail("spurious-error", "connection %s: the input ended cleanly at byte %d; the reader reports %q", c.name, end, err)
		}
	}
	if c.relay {
		if !c.midDone[1] || c.midErr[1] != nil {
			s.Fail("no-return", "connection %s: after its source ended the relay's writer is done: %v, error %v", c.name, c.midDone[1], c.midErr[1])
		}
		if !c.recvDone || !errors.Is(c.recvErr, io.EOF) {
			s.Fail("spurious-error", "connection %s: the relay ended its output cleanly; the reader is done: %v, error %v", c.name, c.recvDone, c.recvErr)
		}
	}
}

func runC02(s *core.Sim) {
	w := &world{s: s, prop: "C02"}
	g := model.NewGen(s)
	s.Trivial = true
	type ending struct {
		at  int
		err error
	}
	var ends []ending
	for i, n := 0, 1+s.Weighted(6, 3, 1); i < n; i++ {
		rs := []int{rStream, rRead, rParse, rBuffer}
		c := w.newConn(i, []int{sForeign, sPack, sStream}, rs, true, g, 5)
		c.encode()
		if s.Chance(92) {
			c.cut(c.receiver != rBuffer || c.relay)
			s.Trivial = false
		}
		l := c.links[0]
		e := ending{l.endAt, l.endErr}
		if e.at < 0 {
			e.at = len(c.wire)
		}
		ends = append(ends, e)
	}
	runWorld(s, w, nil, func() {
		for i, c := range w.conns {
			if c.relay && c.receiver == rBuffer && !c.recvDone {
				s.Fail("no-return", "connection %s: reader not done", c.name)
			}
			c.compare(c.complete(ends[i].at), true)
			c.checkEnd(ends[i].at, ends[i].err)
			c.retained()
			s.Hit(fmt.Sprintf("receiver:%d", c.receiver))
		}
	})
}

func runC03(s *core.Sim) {
	w := &world{s: s, prop: "C03"}
	g := model.NewGen(s)
	s.Trivial = true
	for i, n := 0, 1+s.Weighted(6, 3, 1); i < n; i++ {
		c := w.newConn(i, []int{sStream, sWrite, sPacker, sTokens}, []int{rBuffer}, false, g, 5)
		c.encode()
		c.keepGoing = s.Draw(2) == 1
		if len(c.vals) > 0 {
			s.Trivial = false
		}
		if s.Chance(85) && len(c.wire) > 0 {
			l := c.links[0]
			l.failAt = min(c.position(), len(c.wire)-1)
			l.failErr = pickWriteErr(s)
			l.full = s.Draw(5) == 4
			s.Mark(uint64(l.failAt))
			s.Mark(uint64(len(c.wire)))
		}
	}
	check := func() {
		for _, c := range w.conns {
			l := c.links[0]
			if l.wFailed && c.sender == sStream && !c.sendDone {
				s.Note("stream-continues", "connection %s: the transport failed with %q at byte %d and WriteStream goes on", c.name, l.failErr, l.failAt)
			}
			if l.offered > 0 {
				s.Note("write-after-failure", "connection %s: after the transport failed with %q at byte %d, %d more bytes were offered to it", c.name, l.failErr, l.failAt, l.offered)
			}
			if k := len(l.accepted); k > len(c.wire) || !bytes.Equal(l.accepted, c.wire[:k]) {
				s.Note("wrong-bytes", "connection %s: the bytes written (%x) are not a prefix of the encoding of the values (%x)", c.name, clipBytes(l.accepted), clipBytes(c.wire))
			}
		}
	}
	runWorld(s, w, check, func() {
		for _, c := range w.conns {
			l := c.links[0]
			if !c.sendDone {
				s.Fail("no-return", "connection %s: the writer does not return", c.name)
			}
			if l.wFailed {
				if !reports(c.sendErr, l.failErr) {
					s.Fail("failure-lost", "connection %s: the transport failed with %q at byte %d of %d; the sender (style %d) reports %v", c.name, l.failErr, l.failAt, len(c.wire), c.sender, c.sendErr)
				}
				if c.sender == sStream {
					if t, j := c.sent-len(c.in), c.complete(l.failPos); t != j+1 {
						s.Fail("stream-continues", "connection %s: writing value %d failed, but WriteStream took %d values", c.name, j, t)
					}
				}
				s.Hit("end:write-failed")
				continue
			}
			if c.sendErr != nil {
				s.Fail("spurious-error", "connection %s: the sender reports %v although nothing failed", c.name, c.sendErr)
			}
			if !bytes.Equal(l.accepted, c.wire) {
				s.Fail("lost-bytes", "connection %s: %d of %d bytes were written and no error reported", c.name, len(l.accepted), len(c.wire))
			}
			s.Hit("end:all-written")
		}
	})
}

func runC12(s *core.Sim) {
	w := &world{s: s, prop: "C12"}
	g := model.NewGen(s)
	g.HugePct = 0
	s.Trivial = true
	pair := s.Chance(25)
	n := 1 + s.Weighted(6, 3, 1)
	if pair {
		n = 2
	}
	type ending struct {
		at   int // end of readable input; -1: wherever the sender stops
		err  error
		junk bool
	}
	var ends []ending
	for i := 0; i < n; i++ {
		senders := []int{sStream, sStream, sForeign}
		if pair {
			senders = []int{sStream}
		}
		c := w.newConn(i, senders, []int{rStream}, !pair, g, 6)
		c.encode()
		if len(c.nodes) > 0 {
			s.Trivial = false
		}
		e := ending{at: len(c.wire)}
		if !pair {
			l := c.links[0]
			switch s.Weighted(5, 4, 3, 3) {
			case 1:
				c.cut(true)
				e = ending{at: l.endAt, err: l.endErr}
			case 2:
				if c.sender == sForeign {
					// a byte no value begins with, then the rest
					k := s.Draw(len(c.bounds) + 1)
					at := 0
					if k > 0 {
						at = c.bounds[k-1]
					}
					c.wire = append(append(append([]byte(nil), c.wire[:at]...), 0xc1), c.wire[at:]...)
					c.bounds = c.bounds[:k]
					e = ending{at: at, junk: true}
					s.Fault("damage")
					s.Mark(uint64(at))
				}
			case 3:
				if c.sender == sStream && len(c.wire) > 0 {
					l.failAt = min(c.position(), len(c.wire)-1)
					l.failErr = pickWriteErr(s)
					s.Mark(uint64(l.failAt))
					e = ending{at: -1}
				}
			}
		}
		ends = append(ends, e)
	}
	if pair {
		a, b := w.conns[0], w.conns[1]
		a.pStall, b.pStall = 0, 0
		for len(b.vals) > len(a.vals) {
			b.vals, b.nodes, b.bounds = b.vals[:len(b.vals)-1], b.nodes[:len(b.nodes)-1], b.bounds[:len(b.bounds)-1]
		}
		if len(b.bounds) > 0 {
			b.wire = b.wire[:b.bounds[len(b.bounds)-1]]
		} else {
			b.wire = nil
		}
		ends[1].at = len(b.wire)
		// request i+1 is sent once reply i has arrived; reply i once request i has
		a.gate = func() bool { return a.sent >= len(a.vals) || len(b.got) >= min(a.sent, len(b.vals)) }
		b.gate = func() bool { return b.sent >= len(b.vals) || len(a.got) > b.sent }
		s.Hit("request-reply")
	}
	check := func() {
		for _, c := range w.conns {
			l := c.links[0]
			if c.sender == sStream {
				t := c.sent - len(c.in)
				if t >= 2 && len(l.accepted) < c.bounds[t-2] && !l.wFailed {
					s.Note("early-take", "connection %s: WriteStream took value %d before all bytes of value %d were written", c.name, t-1, t-2)
				}
				if t >= 1 && l.wr == nil && !c.sendDone && len(l.accepted) < c.bounds[t-1] && !l.wFailed {
					s.Note("withheld", "connection %s: WriteStream waits for a value while %d bytes of the values it took are unwritten", c.name, c.bounds[t-1]-len(l.accepted))
				}
				if l.wFailed && !c.sendDone {
					s.Note("no-return", "connection %s: the transport failed and WriteStream does not return", c.name)
				}
				if c.inClosed && len(c.in) == 0 && l.wr == nil && !c.sendDone {
					s.Note("no-return", "connection %s: WriteStream does not return after its channel was closed", c.name)
				}
			}
			out := len(c.got) + len(c.outc)
			in := c.links[len(c.links)-1]
			if c.relay {
				// the relay's reader feeds a channel the relay's writer drains
				if l.rd != nil && c.style < 2 {
					if sentOn := in.values() + len(c.mid); c.complete(min(l.taken, len(c.wire))) > sentOn {
						s.Note("withheld", "connection %s: the relay's reader waits for input although it has %d complete values and passed on %d", c.name, c.complete(l.taken), sentOn)
					}
				}
				continue
			}
			full := c.complete(min(in.taken, len(c.wire)))
			if in.rd != nil && full > out {
				s.Note("withheld", "connection %s: ReadStream waits for input although value %d has arrived completely and was not delivered", c.name, out)
			}
			if c.style < 2 && full > out+1 {
				s.Note("read-ahead", "connection %s: ReadStream took %d complete values from the transport while the consumer was given %d", c.name, full, out)
			}
			if c.outClosed && !c.recvDone {
				s.Note("no-return", "connection %s: ReadStream closed its channel and does not return", c.name)
			}
		}
	}
	runWorld(s, w, check, func() {
		for i, c := range w.conns {
			e := ends[i]
			l := c.links[0]
			if e.at < 0 {
				e.at = len(l.accepted)
				if l.wFailed && !reports(c.sendErr, l.failErr) {
					s.Fail("failure-lost", "connection %s: the transport failed with %q; WriteStream reports %v", c.name, l.failErr, c.sendErr)
				}
				s.Hit("end:write-failed")
			} else if c.sendErr != nil {
				s.Fail("spurious-error", "connection %s: sender reports %v although nothing failed", c.name, c.sendErr)
			}
			if c.sender == sStream && !c.sendDone {
				s.Fail("no-return", "connection %s: WriteStream does not return", c.name)
			}
			c.compare(c.complete(e.at), true)
			if !c.outClosed {
				s.Fail("not-closed", "connection %s: ReadStream has not closed its channel at the end", c.name)
			}
			if !c.recvDone {
				s.Fail("no-return", "connection %s: ReadStream does not return at the end", c.name)
			}
			if e.junk {
				err, done := c.recvErr, c.recvDone
				if c.relay {
					err, done = c.midErr[0], c.midDone[0]
				}
				if !done || err == nil || errors.Is(err, io.EOF) {
					s.Fail("damage-masked", "connection %s: after a damaged byte the reader is done: %v, error %v", c.name, done, err)
				}
				s.Hit("end:damage")
			} else {
				c.checkEnd(e.at, e.err)
			}
			c.retained()
		}
	})
}

// values is how many values the link's writer has begun to write.
func (l *link) values() int {
	b := l.accepted
	if l.wr != nil {
		b = append(b[:len(b):len(b)], l.wr.p...)
	}
	n := 0
	for len(b) > 0 {
		n++
		k, err := model.Measure(b)
		if err != nil {
			break
		}
		b = b[k:]
	}
	return n
}
