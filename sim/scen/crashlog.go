package scen

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"syscall"

	"github.com/codeallergy/value"
	"verifsim/core"
	"verifsim/model"
)

// The crash-log world: an application appends packed values to a log on a
// simulated disk, syncs, acknowledges, and crashes; recovery reads the log
// back, trims the torn tail and goes on.

func init() {
	register(&World{Prop: "C13", Name: "crash log", Run: runC13,
		Rule: "One run is one history of 2-7 process lifetimes of a log application: appends, syncs, faults, a crash, a recovery. It is non-trivial if at least one crash or disk fault happened; two runs are distinct if their sequences of operations, crash points and injected faults differ.",
		Real: "Pack, Write, WriteStream, MessagePacker, Read, ReadStream, MessageReader, MessageUnpacker, Parse and all value types",
		Stub: "disk (append-only file with a durable prefix, torn and lost tails, full disk, I/O errors, failing syncs, short reads) and the log application"})
}

type crash struct{}

type disk struct {
	s       *core.Sim
	data    []byte
	durable int
	// faults
	crashAt  int // absolute size at which the process dies while writing; -1
	failAt   int // absolute size at which writes fail; -1
	failErr  error
	failed   bool
	offered  int // bytes offered after the failure
	readFail int // offset at which a read fails once; -1
	readErr  error
	rpos     int
	rstyle   int
}

func (d *disk) Write(p []byte) (int, error) {
	s := d.s
	s.Now += int64(1 + len(p)/16)
	s.Steps++
	if d.failed {
		d.offered += len(p)
		return 0, d.failErr
	}
	n := len(p)
	if d.failAt >= 0 && len(d.data)+n > d.failAt {
		n = d.failAt - len(d.data)
	}
	if d.crashAt >= 0 && len(d.data)+n > d.crashAt {
		n = d.crashAt - len(d.data)
		d.data = append(d.data, p[:n]...)
		s.Fault("crash-in-write")
		panic(crash{})
	}
	d.data = append(d.data, p[:n]...)
	if n < len(p) {
		d.failed = true
		if n > 0 {
			s.Fault("write-torn")
		} else {
			s.Fault("write-error")
		}
		return n, d.failErr
	}
	return n, nil
}

type diskReader struct{ d *disk }

func (r diskReader) Read(p []byte) (int, error) {
	d, s := r.d, r.d.s
	s.Now++
	s.Steps++
	if len(p) == 0 {
		if d.rpos >= len(d.data) && d.rstyle&1 == 1 {
			return 0, io.EOF
		}
		return 0, nil
	}
	if d.readFail >= 0 && d.rpos >= d.readFail {
		d.readFail = -1
		s.Fault("read-error")
		return 0, d.readErr
	}
	end := len(d.data)
	if d.readFail >= 0 && d.readFail < end {
		end = d.readFail
	}
	n := min(len(p), end-d.rpos)
	if n == 0 {
		return 0, io.EOF
	}
	if n > 1 && d.rstyle >= 2 {
		switch s.Draw(4) {
		case 1:
			n = 1
		case 2:
			n = 1 + s.Draw(n)
		case 3:
			if s.Draw(4) == 3 {
				s.Fault("zero-read")
				return 0, nil
			}
		}
		if n < len(p) {
			s.Fault("short-read")
		}
	}
	copy(p, d.data[d.rpos:d.rpos+n])
	d.rpos += n
	if d.rpos == len(d.data) && d.rstyle&4 != 0 {
		s.Fault("data-with-end")
		return n, io.EOF
	}
	return n, nil
}

type diskByteReader struct{ diskReader }

func (r diskByteReader) ReadByte() (byte, error) {
	var b [1]byte
	for {
		n, err := r.Read(b[:])
		if n == 1 {
			return b[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}

type logged struct {
	n     *model.Node
	end   int // where it ends in the file
	acked bool
}

func runC13(s *core.Sim) {
	d := &disk{s: s, crashAt: -1, failAt: -1, readFail: -1}
	var log []logged // values whose bytes were offered to the disk completely or in part, in order
	g := model.NewGen(s)
	if s.Draw(3) > 0 {
		g.HugePct = 0
	}
	b := &model.Builder{S: s, NilNulls: true}
	s.Trivial = true
	lives := 2 + s.Draw(6)
	fault := func(f string) {
		s.Fault(f)
		s.Trivial = false
	}

	// append sends values; it returns the error the library reported
	appendVals := func(how int, ns []*model.Node, vs []value.Value) error {
		switch how {
		case 0:
			for i, v := range vs {
				_ = i
				if err := value.Write(d, v); err != nil {
					return err
				}
			}
			return nil
		case 1:
			c := make(chan value.Value, len(vs))
			for _, v := range vs {
				c <- v
			}
			close(c)
			return value.WriteStream(d, c)
		case 2:
			var buf []byte
			for _, v := range vs {
				p, err := value.Pack(v)
				if err != nil {
					return err
				}
				buf = append(buf, p...)
			}
			_, err := d.Write(buf)
			return err
		default:
			p := value.MessagePacker(d)
			for _, v := range vs {
				if v == nil {
					p.PackNil()
				} else {
					v.Pack(p)
				}
			}
			return p.Error()
		}
	}

	// recover reads the log back and trims it; false: it crashed on the way
	recover1 := func() bool {
		for attempt := 0; ; attempt++ {
			d.rpos = 0
			d.rstyle = s.Draw(8)
			d.readFail = -1
			if attempt < 2 && s.Chance(15) {
				d.readFail = s.Draw(len(d.data) + 1)
				d.readErr = pickErr(s)
			}
			wantErr := d.readErr
			willFail := d.readFail >= 0
			var rd io.Reader = diskReader{d}
			if s.Draw(2) == 1 {
				rd = diskByteReader{diskReader{d}}
			}
			var got []value.Value
			var err error
			how := s.Draw(4)
			limit := len(log) + 10
			switch how {
			case 0:
				for err == nil && len(got) < limit {
					var v value.Value
					if v, err = value.Read(rd); err == nil {
						got = append(got, v)
					}
				}
			case 1:
				c := make(chan value.Value, len(d.data)+1)
				err = value.ReadStream(rd, c)
				for v := range c {
					got = append(got, v)
				}
			case 2:
				u, p := value.MessageReader(rd), value.MessageParser()
				for err == nil && len(got) < limit {
					var v value.Value
					if v, err = value.Parse(u, p); err == nil {
						got = append(got, v)
					}
				}
			default:
				var all []byte
				all, err = io.ReadAll(rd)
				if err == nil {
					u, p := value.MessageUnpacker(all, s.Draw(2) == 1), value.MessageParser()
					for err == nil && len(got) < limit {
						var v value.Value
						if v, err = value.Parse(u, p); err == nil {
							got = append(got, v)
						}
					}
				}
			}
			s.Mark(uint64(how))
			s.Logf("recovery reads %d values, then %v (file of %d bytes)", len(got), err, len(d.data))
			if err == nil {
				s.Fail("extra-value", "recovery read %d values from a log of %d", len(got), len(log))
			}
			k := 0
			good := 0
			size := len(d.data)
			if willFail && wantErr != nil && d.readFail == -1 {
				size = d.rpos // what was read before the failure
				if how == 3 {
					if !reports(err, wantErr) {
						core.Harness("ReadAll lost the error")
					}
					continue
				}
			}
			for k < len(log) && log[k].end <= size {
				good = log[k].end
				k++
			}
			// exactly the values of the surviving prefix
			for i, v := range got {
				if i >= k {
					s.Fail("phantom-value", "recovery returned value %d, %s, of which not all bytes survived", i, core.Clip(model.Snap(v), 200))
				}
				if want, is := log[i].n.Canon(), model.Snap(v); is != want {
					s.Fail("wrong-value", "recovered value %d is %s, appended was %s", i, core.Clip(is, 300), core.Clip(want, 300))
				}
			}
			if len(got) < k {
				s.Fail("lost-value", "recovery returned %d values, %d survived completely (%d acknowledged); it ended with %v", len(got), k, acked(log), err)
			}
			if willFail && d.readFail == -1 {
				if !reports(err, wantErr) {
					s.Fail("failure-masked", "reading failed with %q, recovery was told %q", wantErr, err)
				}
				continue // the disk works again: try once more
			}
			if good == size {
				if !errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
					s.Fail("spurious-error", "a log ending cleanly was reported as %q", err)
				}
			} else if !errors.Is(err, io.ErrUnexpectedEOF) || errors.Is(err, io.EOF) {
				s.Fail("truncation-masked", "the torn tail of the log (%d bytes of value %d) was reported as %q", size-good, k, err)
			}
			if k < acked(log) {
				s.Fail("lost-value", "recovery returned %d values, %d were acknowledged", k, acked(log))
			}
			// trim where re-encoding says the good part ends
			sum := 0
			for i, v := range got {
				p, err := value.Pack(v)
				if err != nil {
					s.Fail("spurious-error", "Pack of recovered value %d: %v", i, err)
				}
				if sum+len(p) > len(d.data) || !bytes.Equal(p, d.data[sum:sum+len(p)]) {
					s.Fail("wrong-length", "recovered value %d, %s, re-encodes to %d bytes %x; in the log it begins with %x", i, core.Clip(model.Snap(v), 200), len(p), clipBytes(p), clipBytes(d.data[min(sum, len(d.data)):]))
				}
				sum += len(p)
			}
			if sum != good {
				s.Fail("wrong-length", "the recovered values re-encode to %d bytes and occupied %d", sum, good)
			}
			if s.Chance(10) {
				fault("crash-in-recovery")
				return false
			}
			log = log[:k]
			old := d.data
			d.data = append([]byte(nil), d.data[:good]...)
			if s.Chance(10) {
				// the trim itself was not durable when the process died
				fault("crash-after-trim")
				keep := good
				if len(old) > good && s.Draw(2) == 1 {
					keep = len(old)
				}
				d.data = append([]byte(nil), old[:keep]...)
				d.durable = min(d.durable, keep)
				return false
			}
			d.durable = good
			for i := range log {
				log[i].acked = true // recovery made them durable
			}
			return true
		}
	}

	for life := 0; life < lives; life++ {
		s.Begin()
		died := func() (died bool) {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(crash); ok {
						died = true
						return
					}
					panic(e)
				}
			}()
			if !recover1() {
				return true
			}
			ops, long := s.Draw(6), false
			if s.Rare(60) {
				ops, long = 1+s.Draw(60), s.Draw(2) == 1
				s.Hit("long-life")
			}
			huge := s.Rare(120)
			for op, n := 0, ops; op < n; op++ {
				s.Begin()
				how := s.Draw(4)
				cnt := 1
				if how > 0 {
					cnt = 1 + s.Draw(4)
					if long && s.Rare(10) {
						cnt = 1 + s.Draw(1100)
						s.Hit("long-batch")
					}
				}
				var ns []*model.Node
				var vs []value.Value
				before := len(log)
				at := len(d.data)
				var enc []byte
				cuts := []int{0}
				for i := 0; i < cnt; i++ {
					g.Nodes, g.Depth = 16, 3
					if cnt > 20 {
						g.Nodes, g.Depth = 4, 0
					}
					nd := g.Value()
					if huge && s.Draw(3) > 0 && i < 4 {
						nd = &model.Node{K: []model.Kind{model.Raw, model.Utf8}[s.Draw(2)], S: g.Payload()}
						s.Hit("huge-payload")
					}
					ns = append(ns, nd)
					v := b.Value(nd)
					vs = append(vs, v)
					p, err := value.Pack(v)
					if err != nil {
						s.Fail("spurious-error", "Pack: %v", err)
					}
					enc = append(enc, p...)
					log = append(log, logged{nd, at + len(enc), false})
					cuts = append(cuts, len(enc))
				}
				point := func(n int) int { // where in the batch something happens
					if s.Draw(4) > 0 {
						return s.Draw(n)
					}
					// at or near a boundary of values
					return max(0, min(n-1, cuts[s.Draw(len(cuts))]+s.Draw(7)-3))
				}
				if w, _, err := model.DecodeWire(enc); err != nil || w != ns[0].WireCanon() {
					s.Fail("wire-wrong", "the first value of a batch, %s, reads back as %s, %v", core.Clip(ns[0].WireCanon(), 200), core.Clip(w, 200), err)
				}
				d.crashAt, d.failAt, d.failed, d.offered = -1, -1, false, 0
				switch s.Weighted(6, 2, 2) {
				case 1:
					d.crashAt = at + point(len(enc)+1)
				case 2:
					d.failAt = at + point(len(enc))
					d.failErr = []error{syscall.ENOSPC, syscall.EIO, io.ErrShortWrite, fmt.Errorf("disk: %w", syscall.EIO), syscall.EINTR, syscall.EAGAIN, syscall.EDQUOT, io.EOF, temporary{}, &os.PathError{Op: "write", Path: "log", Err: syscall.ENOSPC}}[s.Draw(10)]
				}
				s.Mark(uint64(how)<<40 | uint64(cnt)<<32 | uint64(len(enc)))
				s.Mark(uint64(d.crashAt+1)<<32 | uint64(d.failAt+1))
				s.Logf("append %d values (%d bytes, method %d) at %d; crash at %d, failure at %d", cnt, len(enc), how, at, d.crashAt, d.failAt)
				err := appendVals(how, ns, vs)
				if d.offered > 0 {
					s.Fail("write-after-failure", "after the disk failed with %q at byte %d, %d more bytes were offered to it", d.failErr, d.failAt, d.offered)
				}
				if d.failed {
					s.Trivial = false
					if !reports(err, d.failErr) {
						s.Fail("failure-lost", "the disk failed with %q; the append (method %d) reports %v", d.failErr, how, err)
					}
					if !bytes.Equal(d.data[at:], enc[:len(d.data)-at]) {
						s.Fail("wrong-bytes", "a failed append left %x in the log, not a prefix of %x", clipBytes(d.data[at:]), clipBytes(enc))
					}
					s.End()
					// the application reads its log again to find the good part
					d.failed, d.failAt = false, -1
					if !recover1() {
						return true
					}
					continue
				}
				if err != nil {
					s.Fail("spurious-error", "append reports %v although nothing failed", err)
				}
				if !bytes.Equal(d.data[at:], enc) {
					s.Fail("lost-bytes", "append of %d bytes reported no error and left %d", len(enc), len(d.data)-at)
				}
				_ = before
				switch s.Weighted(4, 3, 1) {
				case 1: // sync, then acknowledge
					d.durable = len(d.data)
					for i := range log {
						log[i].acked = true
					}
					s.Logf("sync: %d values acknowledged", len(log))
				case 2:
					fault("sync-failed")
					if s.Draw(2) == 1 { // it may have happened all the same
						d.durable = len(d.data)
					}
				}
				s.End()
				if s.Chance(12) {
					fault("crash-between-operations")
					return true
				}
			}
			return s.Chance(60)
		}()
		s.End()
		d.crashAt, d.failAt, d.failed = -1, -1, false
		if died {
			s.Trivial = false
			// only durable data surely survives; of the rest any prefix may
			keep := d.durable
			if tail := len(d.data) - d.durable; tail > 0 {
				switch s.Weighted(3, 3, 4) {
				case 0:
					keep = len(d.data)
				case 1:
				default:
					keep += s.Draw(tail + 1)
				}
				if keep < len(d.data) {
					s.Fault("lost-tail")
				}
			}
			d.data = append([]byte(nil), d.data[:keep]...)
			d.durable = len(d.data)
			s.Mark(uint64(keep))
			s.Logf("crash: %d bytes survive", keep)
		}
	}
	for !recover1() {
	}
	var want []byte
	for _, l := range log {
		s.Observe(l.n.Canon())
	}
	rest := d.data
	for i, l := range log {
		w, k, err := model.DecodeWire(rest)
		if err != nil || w != l.n.WireCanon() {
			s.Fail("wire-wrong", "in the final log value %d is %s (%v), appended was %s", i, core.Clip(w, 200), err, core.Clip(l.n.WireCanon(), 200))
		}
		rest = rest[k:]
	}
	if len(rest) > 0 {
		s.Fail("wire-extra", "%d bytes follow the last value of the final log", len(rest))
	}
	_ = want
	s.Hit("log-finished")
}

func acked(log []logged) int {
	n := 0
	for i, l := range log {
		if l.acked {
			n = i + 1
		}
	}
	return n
}
