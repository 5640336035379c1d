//go:build go1.25

package main

import (
	"errors"
	"fmt"
	"io"
	"time"

	"github.com/itstarsun/go-thrift/zzverifsim/simrt"
)

// Injected transport errors.
var (
	errReset   error = &opError{"read", errors.New("connection reset by peer")}
	errTimeout       = &timeoutError{}
	errDisk    error = &opError{"write", errors.New("no space left on device")}
	errFlush   error = &opError{"flush", io.ErrClosedPipe}
	errTLS     error = &opError{"record", io.EOF} // an error of its own, which a layer below explains by its end of stream
)

// opError is what most transports return: it wraps what they were told themselves.
type opError struct {
	op  string
	err error
}

func (e *opError) Error() string { return "simulated: " + e.op + ": " + e.err.Error() }
func (e *opError) Unwrap() error { return e.err }

type timeoutError struct{}

func (*timeoutError) Error() string   { return "simulated: i/o timeout" }
func (*timeoutError) Timeout() bool   { return true }
func (*timeoutError) Temporary() bool { return true }

// netMode is how a stream treats the bytes given to it; drawn per run, so that runs differ in character.
type netMode struct {
	seg      int // write segmentation: 0 whole, 1 single bytes, 2 small, 3 random, 4 packets of 7
	read     int // bytes per Read: 0 all, 1 one, 2 random, 3 at most 3, 4 all but one
	latency  int // 0 none, 1 constant, 2 jitter, 3 long stalls now and then
	empties  bool
	scribble bool
	dataEOF  bool
	window   int // bytes in flight and unread before writes block; 0 unlimited
}

func drawNetMode(st *simrt.Stream) netMode {
	m := netMode{
		seg:     st.Pick(3, 2, 2, 3, 1),
		read:    st.Pick(3, 2, 3, 1, 1),
		latency: st.Pick(3, 2, 3, 1),
	}
	m.empties = st.N(4) == 3
	m.scribble = st.N(3) == 2
	m.dataEOF = st.N(2) == 1
	if st.N(5) == 4 {
		m.window = []int{1, 7, 64, 1000}[st.N(4)]
	}
	return m
}

// pipe is one direction of a simulated connection (or a simulated file being written and read).
type pipe struct {
	s    *simrt.Sim
	st   *simrt.Stream
	name string
	m    netMode

	buf      []byte // delivered, unread
	inflight int
	arrive   time.Duration // when the last segment arrives
	eof      bool          // no more data will be delivered
	rerr     error         // returned after buf is drained
	once     bool          // rerr is transient
	accepted []byte        // everything Write took
	read     int           // everything Read returned
	nread    int
	rc, wc   simrt.Cond

	// Read-side plan: at absolute offset cutAt, Read fails with cutErr. -1: no cut.
	cutAt     int
	cutErr    error
	cutOnce   bool
	cutInData bool // report the error together with the last data
	cutHit    bool
	dead      bool // after a permanent cut
	quiet     bool // reads do not preempt
	stalls    int
	plan      uint64 // if not 0, the sizes of reads depend on it and on the offset alone
}

func newPipe(s *simrt.Sim, name string, m netMode) *pipe {
	return &pipe{s: s, st: s.Src.Stream("net"), name: name, m: m, cutAt: -1}
}

// newFile is a pipe whose contents are all there.
func newFile(s *simrt.Sim, name string, m netMode, data []byte) *pipe {
	p := newPipe(s, name, m)
	p.buf = append([]byte(nil), data...)
	p.eof = true
	return p
}

func (p *pipe) deliver(b []byte) {
	p.inflight -= len(b)
	p.buf = append(p.buf, b...)
	p.rc.Broadcast(p.s)
}

func (p *pipe) Write(b []byte) (int, error) {
	if p.s.Self() != nil {
		simrt.Yield()
	}
	n := len(b)
	for len(b) > 0 {
		seg := len(b)
		switch p.m.seg {
		case 1:
			seg = 1
			if len(b) > 600 {
				seg = len(b) - 500
			}
		case 2:
			seg = 1 + p.st.N(4)
			if len(b) > 600 {
				seg = len(b) - 500
			}
		case 3:
			seg = 1 + p.st.N(len(b))
		case 4:
			seg = max(7, len(b)/64)
		}
		if len(p.accepted) > 50_000 {
			seg = max(seg, 200)
		}
		seg = min(seg, len(b))
		if window := p.m.window; window > 0 {
			if len(p.accepted) > 50_000 {
				window = max(window, 5000)
			}
			for p.inflight+len(p.buf) >= window && !p.dead {
				p.wc.Wait(p.s, "space in "+p.name)
			}
			seg = min(seg, max(1, window-p.inflight-len(p.buf)))
		}
		p.accepted = append(p.accepted, b[:seg]...)
		data := append([]byte(nil), b[:seg]...)
		b = b[seg:]
		p.inflight += seg
		d := p.delay()
		if d == 0 && p.arrive <= p.s.Now() {
			p.deliver(data)
			continue
		}
		at := max(p.s.Now()+d, p.arrive)
		p.arrive = at
		p.s.After(at-p.s.Now(), func() { p.deliver(data) })
	}
	return n, nil
}

func (p *pipe) delay() time.Duration {
	switch p.m.latency {
	case 1:
		return time.Millisecond
	case 2:
		return time.Duration(p.st.N(2000)) * time.Microsecond
	case 3:
		if p.st.N(8) == 7 {
			p.s.Count("net.stall")
			return time.Duration(1+p.st.N(60)) * time.Second
		}
	}
	return 0
}

// CloseWrite ends the stream after what is in flight.
func (p *pipe) CloseWrite() {
	at := max(p.s.Now(), p.arrive)
	p.s.After(at-p.s.Now(), func() {
		p.eof = true
		p.rc.Broadcast(p.s)
	})
}

func (p *pipe) Read(b []byte) (int, error) {
	if !p.quiet {
		simrt.Yield()
	}
	p.nread++
	if len(b) == 0 {
		return 0, nil
	}
	if p.m.empties && p.st.N(4) == 3 {
		p.s.Count("net.empty-read")
		p.scribble(b)
		return 0, nil
	}
	if p.cutAt >= 0 && p.read >= p.cutAt {
		return p.cut(b)
	}
	for len(p.buf) == 0 {
		if p.eof {
			p.scribble(b)
			return 0, io.EOF
		}
		p.rc.Wait(p.s, fmt.Sprintf("data from %s (%d bytes so far)", p.name, p.read))
	}
	n := min(len(b), len(p.buf))
	mode := p.m.read
	if len(p.buf) > 100_000 {
		mode = 0
	}
	switch mode {
	case 1:
		n = 1
	case 2:
		n = 1 + p.st.N(n)
	case 3:
		n = min(n, 1+p.st.N(3))
	case 4:
		n = max(1, n-1)
	}
	if p.plan != 0 && len(p.buf) <= 100_000 {
		n = min(len(b), len(p.buf), 1+int(simrt.Mix(p.plan, fmt.Sprint(p.read))%40))
	}
	if p.cutAt >= 0 {
		n = min(n, p.cutAt-p.read)
	}
	copy(b, p.buf[:n])
	p.scribble(b[n:])
	p.buf = p.buf[n:]
	p.read += n
	p.wc.Broadcast(p.s)
	if p.cutAt >= 0 && p.read == p.cutAt && p.cutInData && p.cutErr != nil {
		_, err := p.cut(nil)
		p.s.Count("net.data-with-error")
		return n, err
	}
	if p.eof && len(p.buf) == 0 && p.inflight == 0 && p.m.dataEOF && p.cutAt < 0 {
		p.s.Count("net.data-with-eof")
		return n, io.EOF
	}
	return n, nil
}

func (p *pipe) cut(b []byte) (int, error) {
	p.scribble(b)
	if !p.cutHit {
		p.cutHit = true
		p.s.Fault("read."+faultName(p.cutErr), p.cutAt)
	}
	err := p.cutErr
	if p.cutOnce {
		p.cutAt = -1
	} else {
		p.dead = true
		p.wc.Broadcast(p.s)
	}
	if err == errStall {
		if p.stalls++; p.stalls <= 150 && len(b) > 0 {
			return 0, nil
		}
		return 0, errReset
	}
	return 0, err
}

// errStall makes Read return (0, nil) many times, more than bufio puts up with, and then fail.
var errStall = errors.New("simulated: reads make no progress")

func faultName(err error) string {
	switch err {
	case io.EOF:
		return "truncated"
	case io.ErrUnexpectedEOF:
		return "unexpected-eof"
	case errReset:
		return "reset"
	case errTLS:
		return "wrapped-eof"
	case errTimeout:
		return "timeout"
	case errDisk:
		return "disk-full"
	case errFlush:
		return "flush-failed"
	case errStall:
		return "no-progress"
	}
	return "other"
}

// scribble uses the rest of the buffer as scratch space, as io.Reader allows.
func (p *pipe) scribble(b []byte) {
	if p.m.scribble {
		for i := range b {
			b[i] = 0xA5 ^ byte(i)
		}
	}
}

// abandon is what the reading side does when it goes away: writers no longer wait for it.
func (p *pipe) abandon() {
	p.dead = true
	p.wc.Broadcast(p.s)
}
