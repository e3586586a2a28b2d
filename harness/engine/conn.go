// Package engine runs generated cases against the real server code inside a
// synctest bubble: connections are in memory, time is virtual, and the server
// is quiescent whenever the oracle looks at it.
package engine

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"gRedis/config"
	"gRedis/server"

	"gredisverif/wire"
)

// Conn is the server's side of an in-memory connection.
type Conn struct {
	mu   sync.Mutex
	cond *sync.Cond
	in   [][]byte
	eof  bool
	rerr error
	out  []byte

	writes    int
	failWrite int // index of the write that fails (-1: none)
	short     bool
	stallAt   int // index of the write that blocks (-1: none)
	stalled   bool
	hold      bool // the peer reads nothing for now: writes wait
	gone      bool // the peer is gone: writes fail, stalled writes return
	closeErr  bool

	rdl, wdl time.Time // deadlines
	dlTimers []*time.Timer

	closed   bool
	closes   int
	returned bool // Handle returned
	panicked string
	id       int
}

var errReset = errors.New("read: connection reset by peer")
var errPipe = errors.New("write: broken pipe")

func newConn(id int) *Conn {
	c := &Conn{failWrite: -1, stallAt: -1, id: id}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func (c *Conn) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if c.closed {
			return 0, net.ErrClosed
		}
		if len(p) == 0 {
			return 0, nil
		}
		if len(c.in) > 0 {
			n := copy(p, c.in[0])
			if n == len(c.in[0]) {
				c.in = c.in[1:]
			} else {
				c.in[0] = c.in[0][n:]
			}
			return n, nil
		}
		if c.rerr != nil {
			return 0, c.rerr
		}
		if c.eof {
			return 0, io.EOF
		}
		if passed(c.rdl) {
			return 0, os.ErrDeadlineExceeded
		}
		c.cond.Wait()
	}
}

func (c *Conn) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return 0, net.ErrClosed
	}
	w := c.writes
	c.writes++
	if c.stallAt >= 0 && w >= c.stallAt {
		c.stalled = true
		for !c.closed && !c.gone && !passed(c.wdl) {
			c.cond.Wait()
		}
		if c.closed {
			return 0, net.ErrClosed
		}
		if !c.gone {
			return 0, os.ErrDeadlineExceeded
		}
		return 0, errPipe
	}
	for c.hold && !c.closed && !c.gone && !passed(c.wdl) {
		c.cond.Wait()
	}
	if c.closed {
		return 0, net.ErrClosed
	}
	if passed(c.wdl) {
		return 0, os.ErrDeadlineExceeded
	}
	if c.gone {
		return 0, errPipe
	}
	if c.failWrite >= 0 && w >= c.failWrite {
		if c.short && w == c.failWrite {
			n := len(p) / 2
			c.out = append(c.out, p[:n]...)
			return n, errPipe
		}
		return 0, errPipe
	}
	c.out = append(c.out, p...)
	return len(p), nil
}

func (c *Conn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closes++
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	for _, t := range c.dlTimers {
		t.Stop()
	}
	c.cond.Broadcast()
	if c.closeErr {
		return errors.New("close: input/output error")
	}
	return nil
}

func (c *Conn) LocalAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 6379} }
func (c *Conn) RemoteAddr() net.Addr {
	return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 10000 + c.id}
}

// Deadlines work as on a TCP connection, in virtual time.
func (c *Conn) SetDeadline(t time.Time) error      { return c.deadline(t, true, true) }
func (c *Conn) SetReadDeadline(t time.Time) error  { return c.deadline(t, true, false) }
func (c *Conn) SetWriteDeadline(t time.Time) error { return c.deadline(t, false, true) }

func (c *Conn) deadline(t time.Time, r, w bool) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return net.ErrClosed
	}
	if r {
		c.rdl = t
	}
	if w {
		c.wdl = t
	}
	if !t.IsZero() {
		if len(c.dlTimers) > 50 {
			for _, x := range c.dlTimers[:40] {
				x.Stop()
			}
			c.dlTimers = append([]*time.Timer(nil), c.dlTimers[40:]...)
			// a stopped one may still be current: never mind, the last ones cover it
		}
		c.dlTimers = append(c.dlTimers, time.AfterFunc(time.Until(t), func() {
			c.mu.Lock()
			c.cond.Broadcast()
			c.mu.Unlock()
		}))
	}
	c.cond.Broadcast()
	return nil
}

func passed(t time.Time) bool { return !t.IsZero() && !time.Now().Before(t) }

func (c *Conn) push(parts ...[]byte) {
	c.mu.Lock()
	for _, p := range parts {
		if len(p) > 0 {
			c.in = append(c.in, p)
		}
	}
	c.cond.Broadcast()
	c.mu.Unlock()
}

func (c *Conn) setHold(h bool) {
	c.mu.Lock()
	c.hold = h
	c.cond.Broadcast()
	c.mu.Unlock()
}

func (c *Conn) setEOF() {
	c.mu.Lock()
	c.eof = true
	c.cond.Broadcast()
	c.mu.Unlock()
}

func (c *Conn) peerGone(err error) {
	c.mu.Lock()
	if err != nil {
		c.rerr = err
	} else {
		c.eof = true
	}
	c.gone = true
	c.cond.Broadcast()
	c.mu.Unlock()
}

func (c *Conn) take() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	o := c.out
	c.out = nil
	return o
}

func (c *Conn) peek() ([]byte, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.out, c.closed
}

// Srv is one server instance.
type Srv struct {
	mgr    *server.Manager
	mu     sync.Mutex
	conns  []*Conn
	panics []string
}

func NewSrv(seg, dbs int) *Srv {
	config.Conf = &config.Config{Host: "127.0.0.1", Port: 0, SegNum: seg, DbNum: dbs, LogLevel: "error", LogDir: LogDir}
	return &Srv{mgr: server.NewManager(config.Conf)}
}

// LogDir is the scratch directory of the logger.
var LogDir string

func (s *Srv) Open() *Conn {
	c := newConn(len(s.conns))
	s.conns = append(s.conns, c)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				s.mu.Lock()
				s.panics = append(s.panics, fmt.Sprintf("panic: %v\n%s", p, debug.Stack()))
				s.mu.Unlock()
			}
			c.mu.Lock()
			c.returned = true
			c.mu.Unlock()
		}()
		s.mgr.Handle(c)
	}()
	return c
}

// Settle waits until the server is quiescent and reports a crash.
func (s *Srv) Settle() error {
	synctest.Wait()
	Progress.Add(1)
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.panics) > 0 {
		return fmt.Errorf("the server crashed: %s", trimStack(s.panics[0]))
	}
	return nil
}

func trimStack(s string) string {
	l := strings.Split(s, "\n")
	var out []string
	for _, x := range l {
		if strings.Contains(x, "runtime/debug") || strings.Contains(x, "engine.(*Srv)") {
			continue
		}
		out = append(out, x)
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// End closes everything that is still open.
func (s *Srv) End() {
	for _, c := range s.conns {
		c.peerGone(nil)
	}
	synctest.Wait()
	s.conns = nil
}

// Send delivers data split at cuts, all at once.
func (c *Conn) Send(data []byte, cuts []int) { c.push(Split(data, cuts)...) }

// Split cuts data at the given positions.
func Split(data []byte, cuts []int) [][]byte {
	if len(cuts) == 0 {
		return [][]byte{data}
	}
	cs := append([]int(nil), cuts...)
	sort.Ints(cs)
	var parts [][]byte
	last := 0
	for _, x := range cs {
		if x > last && x < len(data) {
			parts = append(parts, data[last:x])
			last = x
		}
	}
	return append(parts, data[last:])
}

// Exchange sends one request and returns its single reply.
func (s *Srv) Exchange(c *Conn, args []string, cuts []int, slow bool) (wire.Reply, error) {
	data := wire.Encode(args)
	parts := Split(data, cuts)
	if slow {
		for i, p := range parts {
			c.push(p)
			if err := s.Settle(); err != nil {
				return wire.Reply{}, err
			}
			if i < len(parts)-1 {
				if o, closed := c.peek(); len(o) > 0 || closed {
					return wire.Reply{}, fmt.Errorf("the server reacted to an incomplete request (%d of %d bytes): reply %q, closed=%v", len(data)-len(p), len(data), cut(o), closed)
				}
			}
		}
	} else {
		c.push(parts...)
		if err := s.Settle(); err != nil {
			return wire.Reply{}, err
		}
	}
	return one(c)
}

func one(c *Conn) (wire.Reply, error) {
	o := c.take()
	_, closed := c.peek()
	if len(o) == 0 {
		if closed {
			return wire.Reply{}, errors.New("the server closed the connection instead of replying")
		}
		return wire.Reply{}, errors.New("no reply")
	}
	r, rest, err := wire.Decode(o)
	if err != nil {
		return wire.Reply{}, fmt.Errorf("reply is not a well-formed RESP value: %v (%q)", err, cut(o))
	}
	if len(rest) > 0 {
		return wire.Reply{}, fmt.Errorf("more than one reply to one request: %q", cut(o))
	}
	if closed {
		return wire.Reply{}, fmt.Errorf("the server closed the connection after replying %s", r)
	}
	return r, nil
}

func cut(b []byte) []byte {
	if len(b) > 200 {
		return append(append([]byte(nil), b[:200]...), "..."...)
	}
	return b
}
