package scen

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/codeallergy/value"
	"verifsim/core"
	"verifsim/model"
)

// The stream world: one to three independent connections, each a sender, a
// simulated link and a receiver (sometimes with a relay between two links),
// every blocking point decided by the scheduler.

var errKilled = errors.New("simulation over")

type abortRun struct{}

// transportErr is the failure a simulated transport reports.
type transportErr struct{ id int }

func (e *transportErr) Error() string { return fmt.Sprintf("simulated transport failure %d", e.id) }

// temporary is a failure that claims it may pass.
type temporary struct{}

func (temporary) Error() string   { return "simulated temporary failure" }
func (temporary) Temporary() bool { return true }
func (temporary) Timeout() bool   { return true }

// hungUp is a failure, although it wraps io.EOF: readers end with io.EOF itself.
type hungUp struct{}

func (hungUp) Error() string { return "simulated proxy: upstream hung up: EOF" }
func (hungUp) Unwrap() error { return io.EOF }

var wrapping = []error{hungUp{}, fmt.Errorf("session: %w", io.EOF), fmt.Errorf("session: %w", io.ErrUnexpectedEOF), &net.OpError{Op: "read", Net: "tcp", Err: io.EOF}}

var oddErrors = []error{syscall.ECONNRESET, syscall.EPIPE, syscall.ENOSPC, syscall.EIO, syscall.EINTR, syscall.EAGAIN, io.ErrShortWrite, io.ErrShortBuffer,
	context.Canceled, context.DeadlineExceeded, net.ErrClosed, os.ErrClosed, &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}, temporary{},
	bufio.ErrBufferFull, &os.PathError{Op: "write", Path: "log", Err: syscall.ENOSPC}}

// pickWriteErr draws a failure of a writer; one that reports io.EOF is legal.
func pickWriteErr(s *core.Sim) error {
	if s.Rare(12) {
		return io.EOF
	}
	return pickErr(s)
}

func pickErr(s *core.Sim) error {
	switch s.Draw(10) {
	case 9:
		return wrapping[s.Draw(len(wrapping))]
	case 7, 8:
		return oddErrors[s.Draw(len(oddErrors))]
	case 6:
		return io.ErrUnexpectedEOF
	case 0, 1:
		return &transportErr{s.Draw(100)}
	case 2:
		return fmt.Errorf("link: %w", &transportErr{s.Draw(100)})
	case 3:
		return io.ErrClosedPipe
	case 4:
		return os.ErrDeadlineExceeded
	default:
		return io.ErrNoProgress
	}
}

// reports says whether got reports the failure want (itself, or wrapping it).
func reports(got, want error) bool {
	if got == nil {
		return false
	}
	if errors.Is(got, want) {
		return true
	}
	for e := want; e != nil; e = errors.Unwrap(e) {
		if e != want && (e == io.EOF || e == io.ErrUnexpectedEOF) {
			break // an end is another report
		}
		if got == e {
			return true
		}
	}
	type causer interface{ Cause() error }
	for e := got; e != nil; {
		if e == want {
			return true
		}
		c, ok := e.(causer)
		if !ok || c.Cause() == e {
			break
		}
		e = c.Cause()
	}
	return false
}

type wres struct {
	n   int
	err error
}
type wreq struct {
	p    []byte
	done chan wres
}
type rres struct {
	n   int
	err error
}
type rreq struct {
	p    []byte
	done chan rres
}

type link struct {
	w    *world
	name string

	// writer side
	wr       *wreq
	accepted []byte
	failAt   int // offset at which a write fails; -1 never
	failErr  error
	failPos  int  // offset of the first byte of the write that failed
	full     bool // the failing write still takes all its bytes
	wFailed  bool
	offered  int // bytes offered after the failure
	wCalls   int
	closed   bool // sender is finished

	// wire
	delivered int

	// reader side
	rd      *rreq
	taken   int
	endAt   int // the input ends or fails here; -1: where the sender finishes
	endErr  error
	rEnded  bool // the end has been reported
	zeros   int
	storm   int // empty reads in a row, after stormAt reads
	stormAt int
	reads   int
	endOnce bool // the failure is reported once, then data continues
	emptyEO bool // an empty read at the end reports EOF
	withEnd bool // the end comes together with the last bytes
	dead    int
}

type linkWriter struct{ l *link }

func (x linkWriter) Write(p []byte) (int, error) {
	l := x.l
	if l.w.dead {
		l.kill()
		return 0, errKilled
	}
	l.wCalls++
	if l.wFailed {
		l.offered += len(p)
		return 0, l.failErr
	}
	if len(p) == 0 {
		return 0, nil
	}
	if l.wr != nil {
		l.w.note("overlap", "%s: two writes at once", l.name)
	}
	r := &wreq{p, make(chan wres)}
	l.wr = r
	res := <-r.done
	return res.n, res.err
}

func (l *link) kill() {
	if l.dead++; l.dead > 100000 {
		panic(abortRun{})
	}
}

// The reader comes in several styles; all are legal io.Readers.
type plainReader struct{ l *link }

func (x plainReader) Read(p []byte) (int, error) {
	l := x.l
	if l.w.dead {
		l.kill()
		return 0, errKilled
	}
	if len(p) == 0 {
		if l.emptyEO && l.atEnd() {
			return 0, l.end()
		}
		return 0, nil
	}
	if l.rd != nil {
		l.w.note("overlap", "%s: two reads at once", l.name)
	}
	r := &rreq{p, make(chan rres)}
	l.rd = r
	res := <-r.done
	return res.n, res.err
}

type byteReader struct{ plainReader }

func (x byteReader) ReadByte() (byte, error) {
	var b [1]byte
	for {
		n, err := x.Read(b[:])
		if n == 1 {
			return b[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}

func (l *link) limit() int {
	if l.endAt >= 0 && l.endAt < l.delivered {
		return l.endAt
	}
	return l.delivered
}
func (l *link) atEnd() bool {
	if l.endAt >= 0 && l.taken >= l.endAt {
		return true
	}
	return l.closed && l.taken >= len(l.accepted)
}
func (l *link) end() error {
	l.rEnded = true
	if l.endErr != nil {
		if l.endOnce {
			l.endAt = -1
		}
		return l.endErr
	}
	return io.EOF
}

type recvd struct {
	v    value.Value
	snap string
}

type conn struct {
	w    *world
	id   int
	name string

	nodes  []*model.Node
	vals   []value.Value // as given to a library sender
	wire   []byte        // expected bytes where they are known beforehand
	bounds []int         // bounds[i] = end offset of value i on the wire

	sender   int
	links    []*link
	in       chan value.Value // feed of WriteStream
	inCap    int
	sent     int
	inClosed bool
	sendDone bool
	sendErr  error
	sendIdx  int // values a non-stream sender has begun

	relay     bool
	mid       chan value.Value
	midDone   [2]bool
	midErr    [2]error
	receiver  int
	style     int
	outc      chan value.Value
	outCap    int
	got       []recvd
	outClosed bool
	recvDone  bool
	recvErr   error
	copyFlag  bool
	oneByOne  bool
	mem       int  // the kind of reader that holds what has arrived
	via       int  // the kind of writer in front of the transport
	keepGoing bool // a shared packer is used further after an error
	rng       *core.RNG

	pStall, cStall int
	gate           func() bool // the producer waits for this
}

type world struct {
	s     *core.Sim
	conns []*conn
	dead  bool
	goros int
	panic any
	prop  string
	steps int
	idles int // periods left in which nothing happens at all
}

var idleTimes = []time.Duration{time.Millisecond, time.Second, 6 * time.Second, 31 * time.Second, 2 * time.Minute, 11 * time.Minute, 2 * time.Hour, 25 * time.Hour, 400 * 24 * time.Hour}

// idle lets time pass while everybody waits: transports, producers and
// consumers may stall for as long as they like.
func (w *world) idle() bool {
	d := idleTimes[w.s.Draw(len(idleTimes))]
	w.idles--
	w.s.Fault("long-stall")
	w.s.Logf("nothing happens for %v", d)
	w.pass(d)
	return true
}

// pass advances the clock the library sees.
func (w *world) pass(d time.Duration) {
	time.Sleep(d)
	w.s.Now += int64(d / time.Microsecond)
}

func (w *world) note(class, f string, a ...any) { w.s.Note(class, f, a...) }

// spawn starts an endpoint.
func (w *world) spawn(what string, f func()) {
	w.goros++
	go func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(abortRun); !ok {
					c := convert(w.s, e)
					if v, ok := c.(*core.Violation); ok {
						w.note(v.Class, "%s: %s", what, v.Msg)
					} else if w.panic == nil {
						w.panic = c
					}
				}
			}
			w.goros--
		}()
		f()
	}()
}

const (
	sStream = iota
	sWrite
	sPacker
	sPack
	sMarshal
	sForeign
	sTokens
)
const (
	rStream = iota
	rRead
	rParse
	rBuffer
)

func (c *conn) startSender() {
	l := c.links[0]
	var w io.Writer = linkWriter{l}
	finish := func() error { return nil }
	switch c.via {
	case 1:
		var buf bytes.Buffer
		w, finish = &buf, func() error {
			_, err := io.Copy(linkWriter{l}, &buf)
			return err
		}
	case 2:
		b := bufio.NewWriterSize(w, 16)
		w, finish = b, b.Flush
	}
	c.w.spawn(c.name+" sender", func() {
		defer func() {
			if err := finish(); c.sendErr == nil {
				c.sendErr = err
			}
			c.sendDone = true
			l.closed = true
		}()
		switch c.sender {
		case sStream:
			c.sendErr = value.WriteStream(w, c.in)
		case sWrite:
			for i, v := range c.vals {
				c.sendIdx = i + 1
				if c.sendErr = value.Write(w, v); c.sendErr != nil {
					return
				}
			}
		case sPacker:
			p := value.MessagePacker(w)
			for i, v := range c.vals {
				c.sendIdx = i + 1
				if v == nil {
					p.PackNil()
				} else {
					v.Pack(p)
				}
				if err := p.Error(); err != nil {
					c.sendErr = err
					if !c.keepGoing {
						return
					}
				} else if c.sendErr != nil {
					c.w.note("error-forgotten", "%s: the packer reported %v and later no error", c.name, c.sendErr)
				}
			}
		case sTokens:
			p := value.MessagePacker(w)
			for i, n := range c.nodes {
				c.sendIdx = i + 1
				tokens(p, n, c.rng)
				if err := p.Error(); err != nil {
					c.sendErr = err
					if !c.keepGoing {
						return
					}
				} else if c.sendErr != nil {
					c.w.note("error-forgotten", "%s: the packer reported %v and later no error", c.name, c.sendErr)
				}
			}
		case sPack, sMarshal:
			for i, v := range c.vals {
				c.sendIdx = i + 1
				var b []byte
				var err error
				if c.sender == sPack || v == nil {
					b, err = value.Pack(v)
				} else {
					b, err = v.MarshalBinary()
				}
				if err != nil {
					c.sendErr = err
					return
				}
				if len(b) == 0 {
					c.w.note("lost-value", "%s: value %d encodes to no bytes", c.name, i)
				}
				for len(b) > 0 {
					n, err := w.Write(b)
					if err != nil {
						c.sendErr = err
						return
					}
					b = b[n:]
				}
			}
		case sForeign:
			b := c.wire
			for len(b) > 0 {
				n := len(b)
				if n > 4096 {
					n = 4096
				}
				m, err := w.Write(b[:n])
				if err != nil {
					return
				}
				b = b[m:]
			}
		}
	})
}

// tokens encodes content through the packer's own methods.
func tokens(p value.Packer, n *model.Node, r *core.RNG) {
	if r.N(12) == 0 {
		b, err := value.Pack(fresh.Value(n))
		if err != nil {
			core.Harness("%v", err)
		}
		p.PackRaw(b)
		return
	}
	switch n.K {
	case model.Null:
		p.PackNil()
	case model.Bool:
		p.PackBool(n.B)
	case model.Long:
		p.PackLong(n.I)
	case model.Double:
		p.PackDouble(n.F)
	case model.Utf8:
		p.PackStr(n.S)
	case model.Raw:
		p.PackBin([]byte(n.S))
	case model.Ext:
		p.PackExt(value.Ext(n.Tag), []byte(n.S))
	case model.List:
		if len(n.Elems) == 0 && r.N(4) == 0 {
			p.PackList(-1 - int(r.N(3)))
			return
		}
		p.PackList(len(n.Elems))
		for _, e := range n.Elems {
			tokens(p, e, r)
		}
	case model.Sparse, model.Map:
		if len(n.Elems) == 0 && r.N(4) == 0 {
			p.PackMap(-1 - int(r.N(3)))
			return
		}
		p.PackMap(len(n.Elems))
		for i, e := range n.Elems {
			if n.K == model.Map {
				p.PackStr(n.Keys[i])
			} else {
				p.PackLong(int64(n.Idx[i]))
			}
			tokens(p, e, r)
		}
	default:
		fresh.Value(n).Pack(p)
	}
}

func (c *conn) reader(l *link) io.Reader {
	switch c.style {
	case 0:
		return byteReader{plainReader{l}}
	case 1:
		return plainReader{l}
	case 2:
		return bufio.NewReaderSize(plainReader{l}, 16)
	default:
		return bufio.NewReaderSize(byteReader{plainReader{l}}, 64)
	}
}

func (c *conn) take(v value.Value) {
	c.got = append(c.got, recvd{v, model.Snap(v)})
	if c.w.s.Verbose {
		c.w.s.Logf("%s: received value %d: %s", c.name, len(c.got)-1, core.Clip(c.got[len(c.got)-1].snap, 160))
	}
}

func (c *conn) startReceiver() {
	last := c.links[len(c.links)-1]
	if c.relay {
		r := c.reader(c.links[0])
		c.w.spawn(c.name+" relay input", func() {
			c.midErr[0] = value.ReadStream(r, c.mid)
			c.midDone[0] = true
		})
		c.w.spawn(c.name+" relay output", func() {
			defer func() { c.midDone[1] = true; last.closed = true }()
			c.midErr[1] = value.WriteStream(linkWriter{last}, c.mid)
		})
	}
	r := c.reader(last)
	c.w.spawn(c.name+" receiver", func() {
		defer func() { c.recvDone = true }()
		switch c.receiver {
		case rStream:
			c.recvErr = value.ReadStream(r, c.outc)
		case rRead:
			for {
				v, err := value.Read(r)
				if err != nil {
					c.recvErr = err
					return
				}
				c.take(v)
				if len(c.got) > len(c.nodes)+50 {
					return
				}
			}
		case rParse:
			u, p := value.MessageReader(r), value.MessageParser()
			for {
				v, err := value.Parse(u, p)
				if err != nil {
					c.recvErr = err
					return
				}
				c.take(v)
				if len(c.got) > len(c.nodes)+50 {
					return
				}
			}
		case rBuffer:
			b, err := io.ReadAll(r)
			if err != nil {
				c.recvErr = err
				return
			}
			if c.mem == 0 && c.copyFlag && c.oneByOne {
				// one value at a time, each from its own slice
				for {
					v, err := value.Unpack(b, true)
					if err != nil {
						c.recvErr = err
						return
					}
					c.take(v)
					n, e := model.Measure(b)
					if e != nil || len(c.got) > len(c.nodes)+50 {
						c.w.note("junk", "%s: Unpack returned a value from bytes that hold none", c.name)
						return
					}
					b = b[n:]
				}
			}
			if c.mem > 0 {
				// one of the usual readers in memory
				var m io.Reader = bytes.NewReader(b)
				switch c.mem {
				case 1:
					m = bytes.NewBuffer(b)
				case 2:
					m = strings.NewReader(string(b))
				case 3:
					m = bufio.NewReaderSize(m, 16)
				case 4:
					m = io.MultiReader(bytes.NewReader(b[:len(b)/2]), bytes.NewBuffer(b[len(b)/2:]))
				case 5:
					m = io.LimitReader(m, int64(len(b)))
				}
				if c.oneByOne {
					out := make(chan value.Value, len(b)+1)
					c.recvErr = value.ReadStream(m, out)
					for v := range out {
						c.take(v)
					}
					return
				}
				for len(c.got) < len(c.nodes)+50 {
					v, err := value.Read(m)
					if err != nil {
						c.recvErr = err
						return
					}
					c.take(v)
				}
				return
			}
			u, p := value.MessageUnpacker(b, c.copyFlag), value.MessageParser()
			for {
				v, err := value.Parse(u, p)
				if err != nil {
					c.recvErr = err
					return
				}
				c.take(v)
				if len(c.got) > len(c.nodes)+50 {
					return
				}
			}
		}
	})
}

// action is one thing the scheduler may do next.
type action struct {
	id  uint64
	run func() bool // false: it turned out not to be possible
}

func (w *world) actions(drain bool) []action {
	var as []action
	for ci, c := range w.conns {
		c := c
		for li, l := range c.links {
			l := l
			id := uint64(ci*100 + li*10)
			if l.wr != nil {
				as = append(as, action{id + 1, func() bool { w.accept(l, drain); return true }})
			}
			if l.delivered < len(l.accepted) && (l.endAt < 0 || l.delivered < l.endAt) {
				as = append(as, action{id + 2, func() bool { w.deliver(l, drain); return true }})
			}
			if l.rd != nil && (l.taken < l.limit() || l.atEnd() || !drain && l.zeros < 6) {
				zeroOnly := !(l.taken < l.limit() || l.atEnd())
				as = append(as, action{id + 3, func() bool { return w.supply(l, drain, zeroOnly) }})
			}
		}
		id := uint64(ci*100 + 90)
		if c.sender == sStream && !c.inClosed && (drain || w.steps >= c.pStall) && (c.gate == nil || c.gate()) {
			as = append(as, action{id + 1, func() bool { return w.produce(c) }})
		}
		if c.receiver == rStream && !c.outClosed && (drain || w.steps >= c.cStall) {
			as = append(as, action{id + 2, func() bool { return w.consume(c) }})
		}
	}
	if !drain && w.idles > 0 {
		as = append(as, action{7, w.idle})
	}
	return as
}

func (w *world) accept(l *link, drain bool) {
	r := l.wr
	n := len(r.p)
	var err error
	if l.failAt >= 0 && len(l.accepted)+n > l.failAt {
		n = l.failAt - len(l.accepted)
		if l.full {
			n = len(r.p)
		}
		err = l.failErr
		l.failPos = len(l.accepted)
		l.wFailed = true
		if n > 0 && n < len(r.p) {
			w.s.Fault("write-torn")
		} else {
			w.s.Fault("write-error")
		}
	}
	l.accepted = append(l.accepted, r.p[:n]...)
	l.wr = nil
	if w.s.Verbose {
		w.s.Logf("%s: write of %d bytes takes %d, err %v", l.name, len(r.p), n, err)
	}
	r.done <- wres{n, err}
}

func (w *world) deliver(l *link, drain bool) {
	s := w.s
	avail := len(l.accepted) - l.delivered
	n := avail
	if !drain || s.Draw(3) == 2 {
		switch s.Draw(4) {
		case 1:
			n = 1
		case 2:
			n = 1 + s.Draw(min(avail, 12))
		case 3:
			n = 1 + s.Draw(avail)
		}
	}
	l.delivered += n
	w.pass(time.Duration(1+s.Draw(50)) * time.Millisecond)
	if n < avail {
		s.Fault("fragment")
	}
}

func (w *world) supply(l *link, drain, zeroOnly bool) bool {
	s := w.s
	if !drain && l.zeros < 6 && (zeroOnly || s.Chance(4)) {
		if zeroOnly && !s.Chance(10) {
			return false
		}
		l.zeros++
		s.Fault("zero-read")
		r := l.rd
		l.rd = nil
		r.done <- rres{0, nil}
		return true
	}
	if zeroOnly {
		return false
	}
	if l.reads++; l.storm > 0 && l.reads > l.stormAt {
		l.storm--
		s.Fault("zero-read-storm")
		r := l.rd
		l.rd = nil
		r.done <- rres{0, nil}
		return true
	}
	r := l.rd
	avail := l.limit() - l.taken
	n := min(avail, len(r.p))
	if n > 1 && (!drain || s.Draw(3) == 2) {
		switch s.Draw(4) {
		case 1:
			n = 1
		case 2, 3:
			n = 1 + s.Draw(n)
		}
	}
	if n < len(r.p) && n > 0 {
		s.Fault("short-read")
	}
	copy(r.p, l.accepted[l.taken:l.taken+n])
	l.taken += n
	var err error
	if n == 0 {
		err = l.end()
		s.Hit("end-reported")
	} else if l.withEnd && l.atEnd() {
		err = l.end()
		s.Fault("data-with-end")
	}
	l.rd = nil
	if s.Verbose {
		s.Logf("%s: read of %d bytes gets %d, err %v", l.name, len(r.p), n, err)
	}
	r.done <- rres{n, err}
	return true
}

func (w *world) produce(c *conn) bool {
	if c.sent == len(c.vals) {
		close(c.in)
		c.inClosed = true
		w.s.Logf("%s: producer closes its channel", c.name)
		return true
	}
	select {
	case c.in <- c.vals[c.sent]:
		c.sent++
		w.s.Logf("%s: producer hands over value %d", c.name, c.sent-1)
		return true
	default:
		return false
	}
}

func (w *world) consume(c *conn) bool {
	select {
	case v, ok := <-c.outc:
		if !ok {
			c.outClosed = true
			w.s.Logf("%s: consumer sees the channel closed", c.name)
			return true
		}
		if v == nil {
			w.note("nil-value", "%s: a nil Value was delivered", c.name)
		}
		c.take(v)
		if len(c.got) > len(c.nodes)+50 {
			w.note("extra-value", "%s: more values received than sent", c.name)
		}
		return true
	default:
		return false
	}
}

// run executes the world until nothing can happen any more.
func (w *world) run(check func()) {
	s := w.s
	for _, c := range w.conns {
		c.startSender()
		c.startReceiver()
	}
	wait := func() {
		synctest.Wait()
		if w.panic != nil {
			panic(w.panic)
		}
		if check != nil && s.Viol == nil {
			check()
		}
	}
	wait()
	total := 0
	for _, c := range w.conns {
		total += len(c.wire) + len(c.nodes)
	}
	free := 40 + s.Draw(200)
	if s.Draw(4) == 0 {
		free = 0
	}
	if s.Draw(3) == 2 {
		w.idles = 1 + s.Draw(4)
	}
	limit := 200000 + 100*total
	for w.steps = 0; w.steps < free && s.Viol == nil; w.steps++ {
		as := w.actions(false)
		if len(as) == 0 {
			break
		}
		a := as[s.Draw(len(as))]
		s.Mark(a.id)
		s.Steps++
		if a.run() {
			wait()
		}
	}
	// faults and stalls are over: everything must now run to its end
	for idle := 0; s.Viol == nil; w.steps++ {
		as := w.actions(true)
		progressed := false
		off := 0
		if len(as) > 1 {
			off = s.Draw(len(as))
		}
		for i := range as {
			a := as[(i+off)%len(as)]
			s.Steps++
			if a.run() {
				s.Mark(a.id)
				progressed = true
				wait()
				break
			}
		}
		if !progressed {
			break
		}
		if idle++; idle > limit {
			panic(core.StepLimit{})
		}
	}
}

// stop ends every endpoint, whatever it waits for.
func (w *world) stop() {
	w.dead = true
	for i := 0; i < 200 && w.goros > 0; i++ {
		for _, c := range w.conns {
			for _, l := range c.links {
				if r := l.wr; r != nil {
					l.wr = nil
					r.done <- wres{0, errKilled}
				}
				if r := l.rd; r != nil {
					l.rd = nil
					r.done <- rres{0, errKilled}
				}
			}
			if c.in != nil && !c.inClosed {
				close(c.in)
				c.inClosed = true
			}
			if c.outc != nil && !c.outClosed {
				for k := 0; k < 1000; k++ {
					select {
					case _, ok := <-c.outc:
						if !ok {
							c.outClosed = true
							k = 1000
						}
					default:
						k = 1000
					}
				}
			}
		}
		synctest.Wait()
	}
}

// newConn draws one connection. The caller decides which senders, receivers
// and faults are in play.
func (w *world) newConn(i int, senders, receivers []int, allowRelay bool, g *model.Gen, maxVals int) *conn {
	s := w.s
	s.Begin()
	defer s.End()
	c := &conn{w: w, id: i, name: string(rune('A' + i))}
	c.sender = senders[s.Draw(len(senders))]
	c.receiver = receivers[s.Draw(len(receivers))]
	c.style = s.Draw(4)
	if c.sender == sTokens {
		c.rng = core.NewRNG(s.Sub().U64())
	}
	c.relay = allowRelay && s.Chance(20)
	c.copyFlag = s.Draw(2) == 0
	c.oneByOne = s.Draw(2) == 1
	if c.receiver == rBuffer {
		c.mem = max(0, s.Draw(14)-7)
	}
	if w.prop == "C01" {
		c.via = max(0, s.Draw(6)-3)
	}
	c.inCap = s.Weighted(5, 2, 1, 1)
	c.outCap = s.Weighted(5, 2, 1)
	n := s.Draw(maxVals + 1)
	depth := g.Depth
	huge := s.Rare(150)
	defer func() { g.Depth = depth }()
	if s.Rare(60) {
		// a long stream of small values
		n = 10 + s.Draw(300)
		if s.Rare(20) {
			n = 300 + s.Draw(4000)
			g.Depth = 0
		}
		if s.Draw(4) > 0 {
			g.Depth = 0
		}
		s.Hit("long-stream")
	}
	b := &model.Builder{S: s, NilNulls: true}
	g.Mixed = c.sender == sForeign
	for k := 0; k < n; k++ {
		s.Begin()
		g.Nodes = 24
		if n > 12 {
			g.Nodes = 4
		}
		nd := g.Value()
		if huge && k < 4 {
			// payloads that no reader takes in one piece, one after the other
			nd = &model.Node{K: model.Raw, S: g.Payload()}
			if s.Rare(80) {
				nd.S = string(s.Sub().Bytes(1<<24 + s.Draw(3) - 1))
				s.Hit("value:payload~16MiB")
			}
			if s.Draw(3) == 2 {
				nd.K = model.Utf8
			}
			s.Hit("huge-payloads")
		}
		c.nodes = append(c.nodes, nd)
		if c.sender == sForeign {
			c.wire = nd.Encode(c.wire, s, true)
			c.bounds = append(c.bounds, len(c.wire))
		} else {
			var v value.Value
			if nd.K == model.Null && s.Draw(2) == 1 {
				s.Hit("value:nil")
			} else {
				v = b.Value(nd)
			}
			c.vals = append(c.vals, v)
		}
		s.End()
	}
	c.links = []*link{w.newLink(c.name + "1")}
	if c.relay {
		c.links = append(c.links, w.newLink(c.name+"2"))
		c.mid = make(chan value.Value, s.Draw(2))
		s.Hit("relay")
	}
	c.in = make(chan value.Value, c.inCap)
	c.outc = make(chan value.Value, c.outCap)
	if s.Chance(30) {
		c.pStall = s.Draw(60)
		s.Fault("producer-stall")
	}
	if s.Chance(30) {
		c.cStall = s.Draw(120)
		s.Fault("consumer-stall")
	}
	w.conns = append(w.conns, c)
	return c
}

func (w *world) newLink(name string) *link {
	s := w.s
	l := &link{w: w, name: "link " + name, failAt: -1, endAt: -1, emptyEO: s.Draw(2) == 1, withEnd: s.Draw(3) == 2}
	if s.Rare(12) {
		// a reader may find nothing many times in a row
		l.storm, l.stormAt = 10+s.Draw(80), s.Draw(40)
	}
	return l
}

// encode fills in the wire form of values sent by library writers.
func (c *conn) encode() {
	if c.sender == sForeign {
		return
	}
	for i, v := range c.vals {
		b, err := value.Pack(v)
		if err != nil {
			c.w.s.Fail("spurious-error", "Pack of value %d: %v", i, err)
		}
		c.wire = append(c.wire, b...)
		c.bounds = append(c.bounds, len(c.wire))
	}
}

// complete is the number of values lying entirely in the first n bytes.
func (c *conn) complete(n int) int {
	k := 0
	for k < len(c.bounds) && c.bounds[k] <= n {
		k++
	}
	return k
}

// position draws an offset in the wire form, mostly near a token boundary.
func (c *conn) position() int {
	s := c.w.s
	n := len(c.wire)
	if n == 0 {
		return 0
	}
	switch s.Weighted(3, 4, 3) {
	case 0:
		k := s.Draw(len(c.bounds) + 1)
		if k == len(c.bounds) {
			return n
		}
		return c.bounds[k]
	case 1:
		t := model.Tokens(c.wire)
		o := t[s.Draw(len(t))] + s.Draw(3) - 1
		return max(0, min(n, o))
	default:
		return s.Draw(n + 1)
	}
}

func (w *world) describe() {
	s := w.s
	if !s.Verbose {
		return
	}
	snd := []string{"WriteStream", "Write", "MessagePacker", "Pack", "MarshalBinary", "independent encoder", "MessagePacker, token by token"}
	rcv := []string{"ReadStream", "Read", "MessageReader+Parse", "buffer"}
	for _, c := range w.conns {
		s.Logf("connection %s: %s (channel %d) -> %s (channel %d), relay %v, reader style %d", c.name, snd[c.sender], c.inCap, rcv[c.receiver], c.outCap, c.relay, c.style)
		for i, n := range c.nodes {
			s.Logf("  value %d: %s", i, core.Clip(n.Canon(), 200))
		}
		for _, l := range c.links {
			if l.failAt >= 0 {
				s.Logf("  %s: writes fail at byte %d with %v", l.name, l.failAt, l.failErr)
			}
			if l.endAt >= 0 {
				s.Logf("  %s: input ends at byte %d with %v", l.name, l.endAt, l.endErr)
			}
		}
	}
}

// compare checks that what arrived is the first k values sent.
func (c *conn) compare(k int, exact bool) {
	s := c.w.s
	for i, r := range c.got {
		if i >= k {
			if i < len(c.nodes) {
				s.Fail("phantom-value", "connection %s: value %d was delivered although its bytes did not all arrive: %s", c.name, i, core.Clip(r.snap, 200))
			}
			s.Fail("extra-value", "connection %s: received %d values, sent %d; the extra one is %s", c.name, len(c.got), len(c.nodes), core.Clip(r.snap, 200))
		}
		if want := c.nodes[i].Canon(); r.snap != want {
			s.Fail("wrong-value", "connection %s: value %d arrived as %s, sent %s", c.name, i, core.Clip(r.snap, 300), core.Clip(want, 300))
		}
	}
	if exact && len(c.got) < k {
		s.Fail("lost-value", "connection %s: %d of %d values arrived (receiver done %v, err %v; sender done %v, err %v)", c.name, len(c.got), k, c.recvDone, c.recvErr, c.sendDone, c.sendErr)
	}
}

// retained checks that values received earlier have not changed since.
func (c *conn) retained() {
	for i, r := range c.got {
		if now := model.Snap(r.v); now != r.snap {
			c.w.s.Fail("value-changed", "connection %s: value %d was received as %s and later reads %s", c.name, i, core.Clip(r.snap, 300), core.Clip(now, 300))
		}
	}
}

// onWire checks the bytes on the first link with the independent decoder.
func (c *conn) onWire() {
	s := c.w.s
	b := c.links[0].accepted
	for i, n := range c.nodes {
		got, k, err := model.DecodeWire(b)
		if err != nil {
			s.Fail("wire-malformed", "connection %s: an independent decoder finds value %d %v (sent %s; bytes %x)", c.name, i, err, core.Clip(n.WireCanon(), 200), clipBytes(b))
		}
		if want := n.WireCanon(); got != want {
			s.Fail("wire-wrong", "connection %s: on the wire value %d is %s, sent %s", c.name, i, core.Clip(got, 300), core.Clip(want, 300))
		}
		b = b[k:]
	}
	if len(b) > 0 {
		s.Fail("wire-extra", "connection %s: %d bytes follow the last value", c.name, len(b))
	}
}

func clipBytes(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}

func (w *world) finish() {
	for _, c := range w.conns {
		for _, r := range c.got {
			w.s.Observe(r.snap)
		}
		w.s.Observe(fmt.Sprint(c.name, c.recvErr, c.sendErr))
	}
}

func runWorld(s *core.Sim, w *world, check, final func()) {
	bubble(s, func() {
		defer w.stop()
		// channels must belong to the bubble
		for _, c := range w.conns {
			c.in = make(chan value.Value, c.inCap)
			c.outc = make(chan value.Value, c.outCap)
			if c.relay {
				c.mid = make(chan value.Value, cap(c.mid))
			}
		}
		w.describe()
		w.run(check)
		if s.Viol != nil {
			panic(s.Viol)
		}
		final()
		w.finish()
	})
}

func init() {
	register(&World{Prop: "C01", Name: "stream", Run: runC01,
		Rule: "One run is one world of 1-3 concurrent connections (sender, link, optional relay, receiver) carrying up to 8 generated values each. It is non-trivial if at least one value was sent; two runs are distinct if their sequences of scheduling decisions and injected faults differ.",
		Real: "WriteStream, ReadStream, Write, Read, Pack, Unpack, Parse, MessagePacker, MessageReader, MessageUnpacker, MessageParser, MarshalBinary and all value types; Go channels and goroutines",
		Stub: "transport (simulated links with latency, fragmentation, zero-byte reads, data with EOF), producers and consumers, independent MessagePack implementation"})
}

func runC01(s *core.Sim) {
	w := &world{s: s, prop: "C01"}
	g := model.NewGen(s)
	for i, n := 0, 1+s.Weighted(5, 3, 2); i < n; i++ {
		w.newConn(i, []int{sStream, sWrite, sPacker, sPack, sMarshal, sForeign, sTokens}, []int{rStream, rRead, rParse, rBuffer}, true, g, 6)
	}
	trivial := true
	for _, c := range w.conns {
		trivial = trivial && len(c.nodes) == 0
	}
	s.Trivial = trivial
	runWorld(s, w, nil, func() {
		for _, c := range w.conns {
			if c.sendErr != nil {
				s.Fail("spurious-error", "connection %s: sender reports %v although nothing failed", c.name, c.sendErr)
			}
			if c.sender != sForeign {
				c.onWire()
			}
			c.compare(len(c.nodes), true)
			c.retained()
			if c.recvErr != nil && !errors.Is(c.recvErr, io.EOF) {
				s.Fail("spurious-error", "connection %s: receiver reports %v although nothing failed", c.name, c.recvErr)
			}
			// what arrived is the same kind of value: it encodes as what was sent
			for i, r := range c.got {
				var b []byte
				var err error
				if b, err = value.Pack(r.v); err != nil {
					s.Fail("spurious-error", "Pack of a received value: %v", err)
				}
				got, _, err := model.DecodeWire(b)
				n := c.nodes[i]
				want := n.WireCanon()
				if err != nil || got != want {
					s.Fail("wrong-value", "connection %s: value %d, once received, encodes as %s (%v), sent %s", c.name, i, core.Clip(got, 300), err, core.Clip(want, 300))
				}
			}
			s.Hit(strings.ToLower(fmt.Sprintf("sender:%d", c.sender)))
			s.Hit(fmt.Sprintf("receiver:%d", c.receiver))
		}
	})
}
