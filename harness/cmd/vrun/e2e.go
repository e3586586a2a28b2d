package main

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"gredisverif/core"
	"gredisverif/wire"
)

// The cases of this file run the real server binary, as a process of its own
// in a scratch directory, over the loopback network.

type e2eFail struct {
	msg string
	c   *core.Case
}

var e2eCounts = map[string][2]int64{"C03": {600, 12000}, "C20": {200, 3000}, "C24": {300, 4000}, "C26": {700, 10000}, "C10": {48, 600},
	"C01": {60, 1000}, "C04": {60, 1000}, "C05": {60, 1000}, "C06": {60, 1000}, "C07": {60, 1000}, "C08": {60, 1000}, "C09": {60, 1000},
	"C12": {60, 1000}, "C13": {60, 1000}, "C14": {60, 1000}, "C15": {60, 1000}, "C21": {60, 1000}, "C22": {60, 1000}, "C25": {60, 1000}}

func (c *ctx) e2eAll() *e2eFail {
	n := e2eCounts[c.id][0]
	if c.tier == "thorough" {
		n = e2eCounts[c.id][1]
	}
	if s := os.Getenv("VERIF_E2E"); s != "" {
		n, _ = strconv.ParseInt(s, 10, 64)
	}
	limit := time.Now().Add(60 * time.Second)
	if c.tier == "thorough" {
		limit = time.Now().Add(300 * time.Second)
	}
	var mu sync.Mutex
	var next int64
	var fail *e2eFail
	if len(c.samples) > 4 {
		c.samples = c.samples[:4]
	}
	c.samples = append(c.samples, core.GenE2E(c.id, c.seed, 0).Sample(), core.GenE2E(c.id, c.seed, 1).Sample())
	for round := 0; ; round++ {
		var wg sync.WaitGroup
		workers := c.workers
		if c.id == "C10" {
			workers *= 3 // mostly asleep
		}
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					mu.Lock()
					i := next
					next++
					stop := i >= n || fail != nil
					mu.Unlock()
					if stop {
						return
					}
					if time.Now().After(limit) {
						mu.Lock()
						c.timedOut = true
						mu.Unlock()
						return
					}
					k := core.GenE2E(c.id, c.seed, i)
					err := c.runE2E(k)
					mu.Lock()
					c.evals++
					c.labels["process-runs"]++
					c.labels["process-runs:"+k.Kind]++
					if k.Kind == "e2e-config" {
						c.labels["process-config:"+map[bool]string{true: "rejected", false: "accepted"}[k.Fault != ""]]++
					}
					if k.Kind == "e2e-seq" && k.N > 1 || k.Kind == "e2e-life" && lifeNonTrivial(k) || k.Kind != "e2e-seq" && k.Kind != "e2e-life" {
						c.distinct[k.Hash()] = true
					}
					if err != nil && fail == nil {
						fail = &e2eFail{err.Error(), k}
					}
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		if fail == nil {
			return nil
		}
		if proof(fail.msg) {
			return c.shrinkE2E(fail)
		}
		// it has to fail on its own too, with nothing else running
		end := time.Now().Add(20 * time.Second)
		for i := 0; i < 8 || (i < 100 && time.Now().Before(end)); i++ {
			if err := c.runE2E(fail.c); err != nil {
				fail.msg = err.Error()
				return c.shrinkE2E(fail)
			}
		}
		// a time limit that only passed because the machine was busy
		c.labels["process-runs:not-confirmed"]++
		fmt.Fprintf(os.Stderr, "note: a case against the server process failed once and then not again: %s\n", fail.msg)
		if round == 3 {
			return nil
		}
		fail = nil
	}
}

// proof: failures a busy machine cannot cause.
func proof(msg string) bool {
	for _, s := range []string{"the server process ended", "the server process crashed"} {
		if strings.Contains(msg, s) {
			return true
		}
	}
	return false
}

func lifeNonTrivial(k *core.Case) bool {
	if k.Fault != "" {
		return true
	}
	for _, o := range k.Ops {
		if o.K == "t" || o.K == "h" || (o.K == "a" && o.N > 0) {
			return true
		}
	}
	return false
}

func (c *ctx) shrinkE2E(f *e2eFail) *e2eFail {
	end := time.Now().Add(40 * time.Second)
	if f.c.Kind == "e2e-config" {
		return f // the file text and the options belong together
	}
	for i := 0; i < len(f.c.Ops) && time.Now().Before(end); {
		d := clone(f.c)
		d.Ops = append(append([]core.Op(nil), f.c.Ops[:i]...), f.c.Ops[i+1:]...)
		if err := c.runE2E(d); err != nil {
			f.c, f.msg = d, err.Error()
			continue
		}
		i++
	}
	return f
}

func (c *ctx) e2eViolation(f *e2eFail) int {
	f.c.Failure = f.msg
	path := c.saveReplay(f.c)
	fmt.Printf("property %s is violated (server process):\n%s\n", c.id, f.msg)
	for _, l := range f.c.Lines() {
		fmt.Println("  " + l)
	}
	c.evidence(1)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, path)
	return 1
}

func (c *ctx) replayE2E(k *core.Case) *e2eFail {
	for i := 0; i < 3; i++ {
		if err := c.runE2E(k); err != nil {
			return &e2eFail{err.Error(), k}
		}
	}
	return nil
}

func (c *ctx) runE2E(k *core.Case) error {
	switch k.Kind {
	case "e2e-config":
		return c.e2eConfig(k)
	case "e2e-fuzz":
		return c.e2eFuzz(k)
	case "e2e-finish":
		return c.e2eFinish(k)
	case "e2e-life":
		return c.e2eLife(k)
	case "e2e-seq":
		return c.e2eSeq(k)
	}
	return nil
}

// ---------------------------------------------------------------- the process

type proc struct {
	cmd  *exec.Cmd
	addr string
	dir  string
	done chan struct{}
	out  *os.File
}

var e2eMu sync.Mutex
var e2eN int

// address returns a loopback address nobody listens on, outside the range of
// ports the system gives to outgoing connections.
func address(host string) (string, int, error) {
	var err error
	for i := 0; i < 200; i++ {
		port := 10000 + rand.IntN(22000)
		var l net.Listener
		if l, err = net.Listen("tcp", net.JoinHostPort(host, strconv.Itoa(port))); err == nil {
			l.Close()
			return host, port, nil
		}
	}
	return "", 0, err
}

// listening tells whether the process itself (not some other one that got the
// same port) listens on a port.
func (p *proc) listening(port int) bool {
	inodes := map[string]bool{}
	for _, f := range []string{"tcp", "tcp6"} {
		b, _ := os.ReadFile("/proc/net/" + f)
		for _, l := range strings.Split(string(b), "\n") {
			w := strings.Fields(l)
			if len(w) > 9 && w[3] == "0A" && strings.HasSuffix(w[1], fmt.Sprintf(":%04X", port)) {
				inodes["socket:["+w[9]+"]"] = true
			}
		}
	}
	l, _ := os.ReadDir(fmt.Sprintf("/proc/%d/fd", p.cmd.Process.Pid))
	for _, f := range l {
		t, _ := os.Readlink(fmt.Sprintf("/proc/%d/fd/%s", p.cmd.Process.Pid, f.Name()))
		if inodes[t] {
			return true
		}
	}
	return false
}

func (c *ctx) launch(dir string, args []string) (*proc, error) { return c.launchN(dir, args, 0) }

// launchN limits the process to nofile descriptors (0: no limit).
func (c *ctx) launchN(dir string, args []string, nofile int) (*proc, error) {
	limit := "ulimit -v 16777216; "
	if nofile > 0 {
		limit += fmt.Sprintf("ulimit -n %d; ", nofile)
	}
	p := &proc{dir: dir, done: make(chan struct{})}
	var err error
	p.out, err = os.Create(filepath.Join(dir, "output"))
	if err != nil {
		return nil, err
	}
	p.cmd = exec.Command("bash", append([]string{"-c", limit + "exec \"$0\" \"$@\"", c.server}, args...)...)
	p.cmd.Dir = dir
	p.cmd.Stdout, p.cmd.Stderr = p.out, p.out
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	go func() { p.cmd.Wait(); close(p.done) }()
	return p, nil
}

func (p *proc) exited() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

func (p *proc) kill() {
	if !p.exited() {
		syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
		<-p.done
	}
	p.out.Close()
	os.RemoveAll(p.dir)
}

func (p *proc) output() string {
	b, _ := os.ReadFile(filepath.Join(p.dir, "output"))
	if i := strings.Index(string(b), "panic:"); i >= 0 {
		b = b[i:]
	}
	if i := strings.Index(string(b), "fatal error:"); i >= 0 {
		b = b[i:]
	}
	if len(b) > 1500 {
		b = b[:1500]
	}
	return string(b)
}

func (c *ctx) scratchDir() string {
	e2eMu.Lock()
	e2eN++
	d := filepath.Join(c.scratch, fmt.Sprintf("e2e%d", e2eN))
	e2eMu.Unlock()
	if err := os.MkdirAll(d, 0o755); err != nil {
		fatal("%v", err)
	}
	return d
}

// serve starts the server with plain options; an error is a failure to start.
func (c *ctx) serve(seg, dbs int) (*proc, error) {
	var last error
	for try := 0; try < 4; try++ {
		host, port, err := address("127.0.0.1")
		if err != nil {
			fatal("%v", err)
		}
		p, err := c.launch(c.scratchDir(), []string{"-host", host, "-port", strconv.Itoa(port), "-segnum", strconv.Itoa(seg), "-dbnum", strconv.Itoa(dbs), "-loglevel", "error"})
		if err != nil {
			fatal("%v", err)
		}
		p.addr = net.JoinHostPort(host, strconv.Itoa(port))
		if last = p.waitUp(); last == nil {
			return p, nil
		}
		p.kill()
	}
	return nil, last
}

func (p *proc) waitUp() error {
	_, ps, _ := net.SplitHostPort(p.addr)
	port, _ := strconv.Atoi(ps)
	end := time.Now().Add(30 * time.Second)
	for time.Now().Before(end) {
		if p.exited() {
			return fmt.Errorf("the server did not start (%s): %s", p.cmd.ProcessState, p.output())
		}
		if p.listening(port) {
			k, err := net.DialTimeout("tcp", p.addr, 10*time.Second)
			if err == nil {
				k.Close()
				return nil
			}
		}
		time.Sleep(5 * time.Millisecond)
	}
	return fmt.Errorf("the server does not listen at %s", p.addr)
}

type conn struct {
	net.Conn
	buf []byte
}

func (p *proc) dial() (*conn, error) {
	k, err := net.DialTimeout("tcp", p.addr, 20*time.Second)
	if err != nil {
		return nil, fmt.Errorf("cannot connect: %w", err)
	}
	return &conn{Conn: k}, nil
}

func (k *conn) do(args ...string) (wire.Reply, error) {
	k.SetDeadline(time.Now().Add(30 * time.Second))
	if _, err := k.Write(wire.Encode(args)); err != nil {
		return wire.Reply{}, fmt.Errorf("%s: %w", wire.CmdString(args), err)
	}
	tmp := make([]byte, 65536)
	var sc wire.Scanner
	for {
		if sc.Ready(k.buf) {
			r, rest, err := wire.Decode(k.buf)
			if err == nil {
				k.buf = append([]byte(nil), rest...)
				return r, nil
			}
			if !errors.Is(err, wire.ErrIncomplete) {
				return r, fmt.Errorf("%s: malformed reply: %w (%.300q)", wire.CmdString(args), err, k.buf)
			}
		}
		n, err := k.Read(tmp)
		k.buf = append(k.buf, tmp[:n]...)
		if err != nil {
			return wire.Reply{}, fmt.Errorf("%s: no reply: %w (got %.300q)", wire.CmdString(args), err, k.buf)
		}
	}
}

func (k *conn) reset() {
	if t, ok := k.Conn.(*net.TCPConn); ok {
		t.SetLinger(0)
	}
	k.Close()
}

// ---------------------------------------------------------------- C24

func (c *ctx) e2eConfig(k *core.Case) error {
	var last error
	for try := 0; try < 3; try++ { // the address may be taken meanwhile
		if last = c.e2eConfigOnce(k); last == nil {
			return nil
		}
	}
	return last
}

func (c *ctx) e2eConfigOnce(k *core.Case) error {
	host := "127.0.0.1"
	dbs, segs := 16, 100
	logdir, level := "", ""
	dir := c.scratchDir()
	for _, o := range k.Ops {
		switch string(o.Args[0]) {
		case "host":
			if o.Args[1] == "@HOST@" {
				host = fmt.Sprintf("127.%d.%d.%d", 1+k.Index%200, 1+(k.Index*7)%200, 1+(k.Index*31)%250)
			}
		case "dbnum":
			dbs, _ = strconv.Atoi(string(o.Args[1]))
		case "segnum":
			segs, _ = strconv.Atoi(string(o.Args[1]))
		case "loglevel":
			level = string(o.Args[1])
		case "logdir":
			logdir = filepath.Join(dir, "my-logs")
		}
	}
	_ = segs
	_, port, err := address(host)
	if err != nil {
		fatal("%v", err)
	}
	sub := strings.NewReplacer("@HOST@", host, "@PORT@", strconv.Itoa(port), "@DIR@", logdir)
	var args []string
	for _, o := range k.Ops {
		if o.Args[2] == "flag" {
			args = append(args, "-"+string(o.Args[0]), sub.Replace(string(o.Args[1])))
		}
	}
	cf := filepath.Join(dir, "g.conf")
	if k.Fault == "missing-file" {
		args = append(args, "-config", filepath.Join(dir, "none.conf"))
	} else if len(k.File) > 0 {
		if err := os.WriteFile(cf, []byte(sub.Replace(string(k.File))), 0o644); err != nil {
			fatal("%v", err)
		}
		args = append(args, "-config", cf)
	}
	what := fmt.Sprintf("started with %q and the file %q", args, sub.Replace(string(k.File)))
	p, err := c.launch(dir, args)
	if err != nil {
		fatal("%v", err)
	}
	defer p.kill()
	p.addr = net.JoinHostPort(host, strconv.Itoa(port))
	if k.Fault != "" {
		select {
		case <-p.done:
		case <-time.After(15 * time.Second):
			return fmt.Errorf("the server %s keeps running with an invalid configuration: %s", what, p.output())
		}
		if p.cmd.ProcessState.ExitCode() == 0 {
			return fmt.Errorf("the server %s ended without reporting an error", what)
		}
		if len(p.output()) == 0 && level != "error" { // an address that cannot be used is a log record of level panic
			return fmt.Errorf("the server %s ended without a message", what)
		}
		if out := p.output(); strings.HasPrefix(out, "panic:") || strings.HasPrefix(out, "fatal error:") {
			return fmt.Errorf("the server %s crashed instead of reporting an error: %s", what, out)
		}
		return nil
	}
	if err := p.waitUp(); err != nil {
		return fmt.Errorf("%s: %w", what, err)
	}
	q, err := p.dial()
	if err != nil {
		return fmt.Errorf("%s: %w", what, err)
	}
	defer q.Close()
	for i := 0; i < dbs; i++ {
		if r, err := q.do("select", strconv.Itoa(i)); err != nil || r.K != '+' {
			return fmt.Errorf("the server %s: SELECT %d answered %s %v", what, i, r, err)
		}
		if r, err := q.do("set", "k", fmt.Sprint("v", i)); err != nil || r.K != '+' {
			return fmt.Errorf("the server %s: SET in database %d answered %s %v", what, i, r, err)
		}
	}
	if r, err := q.do("select", strconv.Itoa(dbs)); err != nil || !r.IsErr() {
		return fmt.Errorf("the server %s: SELECT %d, one too many, answered %s %v", what, dbs, r, err)
	}
	for i := 0; i < dbs; i++ {
		q.do("select", strconv.Itoa(i))
		if r, err := q.do("get", "k"); err != nil || r.S != fmt.Sprint("v", i) {
			return fmt.Errorf("the server %s: GET in database %d answered %s %v", what, i, r, err)
		}
	}
	if logdir != "" {
		fs, err := os.ReadDir(logdir)
		if err != nil || len(fs) == 0 {
			return fmt.Errorf("the server %s: nothing in the log directory (%v)", what, err)
		}
		b, err := os.ReadFile(filepath.Join(logdir, fs[0].Name()))
		if err != nil {
			return fmt.Errorf("the server %s: cannot read its log: %v", what, err)
		}
		info := strings.Contains("\n"+string(b), "\n[info]")
		if want := level == "info" || level == "debug"; level != "" && info != want {
			return fmt.Errorf("the server %s: records of level info in the log: %v", what, info)
		}
	}
	return nil
}

// ---------------------------------------------------------------- C03

func (c *ctx) e2eFuzz(k *core.Case) error {
	p, err := c.serve(k.Seg, 2)
	if err != nil {
		return err
	}
	defer p.kill()
	dead := func(err error) error {
		if p.exited() || strings.Contains(p.output(), "goroutine ") {
			return fmt.Errorf("the server process ended: %s", p.output())
		}
		return err
	}
	v, err := p.dial()
	if err != nil {
		return err
	}
	defer v.Close()
	data := map[string][]string{
		"victim-7f3a:s": {"get", "victim-7f3a:s"}, "victim-7f3a:l": {"lrange", "victim-7f3a:l", "0", "-1"},
		"victim-7f3a:h": {"hgetall", "victim-7f3a:h"}, "victim-7f3a:t": {"smembers", "victim-7f3a:t"},
	}
	for _, a := range [][]string{{"set", "victim-7f3a:s", "v"}, {"rpush", "victim-7f3a:l", "a", "b"}, {"hset", "victim-7f3a:h", "f", "v"}, {"sadd", "victim-7f3a:t", "m"}} {
		if r, err := v.do(a...); err != nil || r.IsErr() {
			return dead(fmt.Errorf("%s answered %s %v", wire.CmdString(a), r, err))
		}
	}
	want := map[string]string{}
	for n, q := range data {
		r, err := v.do(q...)
		if err != nil {
			return dead(err)
		}
		want[n] = r.String()
	}
	check := func() error {
		for n, q := range data {
			r, err := v.do(q...)
			if err != nil {
				return fmt.Errorf("another client's connection: %w", err)
			}
			if r.String() != want[n] {
				return fmt.Errorf("another client's data: %s answers %s, was %s", wire.CmdString(q), r, want[n])
			}
		}
		n, err := p.dial()
		if err != nil {
			return err
		}
		defer n.Close()
		if r, err := n.do("get", "victim-7f3a:s"); err != nil || r.S != "v" {
			return fmt.Errorf("a new connection: GET answered %s %v", r, err)
		}
		return nil
	}
	att := map[int]*conn{}
	defer func() {
		for _, a := range att {
			a.Close()
		}
	}()
	for _, o := range k.Ops {
		switch o.K {
		case "v":
			if err := check(); err != nil {
				return dead(err)
			}
		case "b":
			if err := p.burst(o); err != nil {
				return dead(fmt.Errorf("%s: %w", o.String(), err))
			}
		case "x", "e":
			if a := att[o.Conn]; a != nil {
				if o.K == "x" {
					a.Close()
				} else if t, ok := a.Conn.(*net.TCPConn); ok {
					t.CloseWrite()
				}
				delete(att, o.Conn)
			}
		case "r":
			a := att[o.Conn]
			if a == nil {
				if a, err = p.dial(); err != nil {
					return dead(err)
				}
				att[o.Conn] = a
				go func() { // take whatever it answers
					b := make([]byte, 65536)
					for {
						if _, err := a.Read(b); err != nil {
							return
						}
					}
				}()
			}
			last := 0
			cuts := append(append([]int(nil), o.Cuts...), len(o.Data))
			for _, x := range cuts {
				if x <= last || x > len(o.Data) {
					continue
				}
				a.SetWriteDeadline(time.Now().Add(20 * time.Second))
				if _, err := a.Write([]byte(o.Data[last:x])); err != nil {
					a.Close()
					delete(att, o.Conn)
					break
				}
				last = x
			}
		}
	}
	if err := check(); err != nil {
		return dead(err)
	}
	if p.exited() {
		return dead(nil)
	}
	return nil
}

// burst opens many connections that end in the same way.
func (p *proc) burst(o core.Op) error {
	var mu sync.Mutex
	var first error
	var wg sync.WaitGroup
	failed := func() bool {
		mu.Lock()
		defer mu.Unlock()
		return first != nil
	}
	end := func(a *conn) {
		if failed() {
			a.Close()
			return
		}
		switch o.Fault {
		case "reset":
			a.reset()
		case "half":
			a.Conn.(*net.TCPConn).CloseWrite()
			a.SetDeadline(time.Now().Add(30 * time.Second))
			b := make([]byte, 4096)
			for {
				if _, err := a.Read(b); err != nil {
					var ne net.Error
					if errors.As(err, &ne) && ne.Timeout() {
						mu.Lock()
						first = errors.New("the server keeps a connection open whose client has ended it")
						mu.Unlock()
					}
					break
				}
			}
			a.Close()
		default:
			a.Close()
		}
	}
	const par = 4
	for w := 0; w < par; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var open []*conn
			for i := w; i < o.N && !failed(); i += par {
				a, err := p.dial()
				if err != nil {
					mu.Lock()
					if first == nil {
						first = fmt.Errorf("connection %d: %w", i, err)
					}
					mu.Unlock()
					break
				}
				a.SetDeadline(time.Now().Add(20 * time.Second))
				if len(o.Data) > 0 {
					a.Write([]byte(o.Data))
				}
				if o.Slow {
					open = append(open, a)
				} else {
					end(a)
				}
			}
			for _, a := range open {
				end(a)
			}
		}()
	}
	wg.Wait()
	return first
}

// ---------------------------------------------------------------- C20

func (p *proc) fds() int {
	// the shell was replaced by the server
	l, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", p.cmd.Process.Pid))
	if err != nil {
		return -1
	}
	n := 0
	for _, f := range l {
		t, _ := os.Readlink(fmt.Sprintf("/proc/%d/fd/%s", p.cmd.Process.Pid, f.Name()))
		if strings.HasPrefix(t, "socket:") {
			n++
		}
	}
	return n
}

func (c *ctx) e2eFinish(k *core.Case) error {
	p, err := c.serve(k.Seg, k.Dbs)
	if err != nil {
		return err
	}
	defer p.kill()
	w, err := p.dial()
	if err != nil {
		return err
	}
	defer w.Close()
	if r, err := w.do("set", "witness", "1"); err != nil || r.K != '+' {
		return fmt.Errorf("SET answered %s %v", r, err)
	}
	if r, err := w.do("set", "big", strings.Repeat("x", 1<<20)); err != nil || r.K != '+' {
		return fmt.Errorf("SET answered %s %v", r, err)
	}
	base := -1 // after the start-up probe was released
	for i := 0; i < 400; i++ {
		if n := p.fds(); n == 2 || n == base && i > 100 {
			base = n
			break
		} else if i > 100 {
			base = n
		}
		time.Sleep(5 * time.Millisecond)
	}
	acked := map[string]string{}
	for i, o := range k.Ops {
		if o.K == "b" {
			if err := p.burst(o); err != nil {
				return fmt.Errorf("step %d %s: %w", i, o.String(), err)
			}
			n, err := p.dial()
			if err != nil {
				return fmt.Errorf("after step %d %s: %w", i, o.String(), err)
			}
			r, err := n.do("get", "witness")
			n.Close()
			if err != nil || r.S != "1" {
				return fmt.Errorf("after step %d %s: a new connection's GET answered %s %v", i, o.String(), r, err)
			}
			continue
		}
		a, err := p.dial()
		if err != nil {
			return fmt.Errorf("step %d: %w", i, err)
		}
		for j := 0; j < o.N; j++ {
			n, v := fmt.Sprintf("k%d-%d", i, j), fmt.Sprint(i*j)
			r, err := a.do("set", n, v)
			if err != nil || r.K != '+' {
				return fmt.Errorf("step %d: SET answered %s %v", i, r, err)
			}
			acked[n] = v
		}
		a.SetDeadline(time.Now().Add(10 * time.Second))
		gone := func() error { // the server has to close its side
			b := make([]byte, 4096)
			for {
				if _, err := a.Read(b); err != nil {
					var ne net.Error
					if errors.As(err, &ne) && ne.Timeout() {
						return fmt.Errorf("step %d (%s %q): the server keeps the connection open", i, o.Fault, string(o.Data))
					}
					return nil
				}
			}
		}
		switch o.Fault {
		case "close", "idle":
			a.Close()
		case "reset":
			a.reset()
		case "half":
			a.Conn.(*net.TCPConn).CloseWrite()
			if err := gone(); err != nil {
				return err
			}
			a.Close()
		case "partial":
			a.Write([]byte(o.Data))
			a.Close()
		case "partial-reset":
			a.Write([]byte(o.Data))
			time.Sleep(time.Millisecond)
			a.reset()
		case "protocol":
			a.Write([]byte(o.Data))
			a.Close()
		case "protocol-wait":
			a.Write([]byte(o.Data))
			a.Conn.(*net.TCPConn).CloseWrite()
			if err := gone(); err != nil {
				return err
			}
			a.Close()
		case "unread", "unread-reset":
			for j := 0; j < 16; j++ {
				a.Write(wire.Encode([]string{"get", "big"}))
			}
			time.Sleep(2 * time.Millisecond)
			if o.Fault == "unread" {
				a.Close()
			} else {
				a.reset()
			}
		}
	}
	end := time.Now().Add(15 * time.Second)
	for p.fds() > base {
		if p.exited() {
			return fmt.Errorf("the server process ended: %s", p.output())
		}
		if time.Now().After(end) {
			return fmt.Errorf("all connections but one ended, yet the server holds %d sockets (%d before)", p.fds(), base)
		}
		time.Sleep(10 * time.Millisecond)
	}
	for n, v := range acked {
		if r, err := w.do("get", n); err != nil || r.S != v {
			return fmt.Errorf("the effect of an acknowledged SET is missing: GET %s answered %s %v", n, r, err)
		}
	}
	if r, err := w.do("get", "witness"); err != nil || r.S != "1" {
		return fmt.Errorf("another connection: GET answered %s %v", r, err)
	}
	return nil
}
