package main

import (
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"gredisverif/core"
	"gredisverif/wire"
)

// ---------------------------------------------------------------- C26

const prompt = 15 * time.Second

func (p *proc) ended(d time.Duration) bool {
	select {
	case <-p.done:
		return true
	case <-time.After(d):
		return false
	}
}

func (c *ctx) lifeArgs(k *core.Case, host string, port int) []string {
	return []string{"-host", host, "-port", strconv.Itoa(port), "-segnum", strconv.Itoa(k.Seg), "-dbnum", strconv.Itoa(k.Dbs), "-loglevel", "error"}
}

// mustFail runs a server that cannot start.
func (c *ctx) mustFail(args []string, dir, why string) error {
	p, err := c.launch(dir, args)
	if err != nil {
		fatal("%v", err)
	}
	defer p.kill()
	if !p.ended(prompt) {
		return fmt.Errorf("%s, yet the process keeps running", why)
	}
	if p.cmd.ProcessState.ExitCode() == 0 {
		return fmt.Errorf("%s, yet the process ended with status 0", why)
	}
	if out := p.output(); strings.HasPrefix(out, "panic:") || strings.HasPrefix(out, "fatal error:") {
		return fmt.Errorf("%s and the process crashed: %s", why, out)
	}
	return nil
}

func (c *ctx) e2eLife(k *core.Case) error {
	host := "127.0.0.1"
	_, port, err := address(host)
	if err != nil {
		fatal("%v", err)
	}
	args := c.lifeArgs(k, host, port)
	switch k.Fault {
	case "":
	case "port-taken":
		l, err := net.Listen("tcp", net.JoinHostPort(host, strconv.Itoa(port)))
		if err != nil {
			return nil // taken meanwhile by another: nothing to see
		}
		defer l.Close()
		return c.mustFail(args, c.scratchDir(), "another process listens on the address")
	case "foreign-host":
		args[1] = "198.51.100.7"
		return c.mustFail(args, c.scratchDir(), "the host is no address of this machine")
	case "logdir-file":
		dir := c.scratchDir()
		os.WriteFile(filepath.Join(dir, "plain"), []byte("x"), 0o644)
		return c.mustFail(append(args, "-logdir", filepath.Join(dir, "plain")), dir, "the log directory is a file")
	case "logdir-under-file":
		dir := c.scratchDir()
		os.WriteFile(filepath.Join(dir, "plain"), []byte("x"), 0o644)
		return c.mustFail(append(args, "-logdir", filepath.Join(dir, "plain", "logs")), dir, "the log directory cannot be made")
	}

	var p *proc
	defer func() {
		if p != nil {
			p.kill()
		}
	}()
	start := func(n int) error {
		if p != nil {
			p.kill()
		}
		p, err = c.launchN(c.scratchDir(), args, n)
		if err != nil {
			fatal("%v", err)
		}
		p.addr = net.JoinHostPort(host, strconv.Itoa(port))
		if err := p.waitUp(); err != nil {
			return err
		}
		q, err := p.dial()
		if err != nil {
			return err
		}
		defer q.Close()
		if r, err := q.do("get", "witness"); err != nil || !r.Null {
			return fmt.Errorf("a freshly started server: GET answered %s %v", r, err)
		}
		if r, err := q.do("set", "witness", "here"); err != nil || r.K != '+' {
			return fmt.Errorf("a freshly started server: SET answered %s %v", r, err)
		}
		if r, err := q.do("set", "big", strings.Repeat("x", 1<<20)); err != nil || r.K != '+' {
			return fmt.Errorf("a freshly started server: SET answered %s %v", r, err)
		}
		return nil
	}
	if err := start(k.N); err != nil {
		return err
	}
	var open []net.Conn
	quit := make(chan struct{})
	var wg sync.WaitGroup
	end := func() {
		close(quit)
		for _, a := range open {
			a.Close()
		}
		wg.Wait()
		open, quit = nil, make(chan struct{})
	}
	defer func() { end() }()
	serving := func(what string) error {
		q, err := p.dial()
		if err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		defer q.Close()
		if r, err := q.do("get", "witness"); err != nil || r.S != "here" {
			if p.exited() {
				return fmt.Errorf("%s: the server process ended: %s", what, p.output())
			}
			return fmt.Errorf("%s: GET on a new connection answered %s %v", what, r, err)
		}
		return nil
	}
	for i, o := range k.Ops {
		what := fmt.Sprintf("step %d (%s)", i, o.String())
		switch o.K {
		case "a":
			for n := 0; n < o.N; n++ {
				a, err := p.dial()
				if err != nil {
					return fmt.Errorf("%s: %w", what, err)
				}
				open = append(open, a.Conn)
				stop := quit
				switch o.Fault {
				case "partial", "garbage":
					a.Write([]byte(o.Data))
				case "unread":
					for j := 0; j < 12; j++ {
						a.SetWriteDeadline(time.Now().Add(time.Second))
						a.Write(wire.Encode([]string{"get", "big"}))
					}
				case "closed":
					a.Close()
				case "half":
					a.Conn.(*net.TCPConn).CloseWrite()
				case "busy", "pipeline":
					reqs := wire.Encode([]string{"incr", fmt.Sprint("n", i, n)})
					if o.Fault == "pipeline" {
						reqs = []byte(strings.Repeat(string(reqs), 200))
					}
					wg.Add(1)
					go func() {
						defer wg.Done()
						b := make([]byte, 65536)
						for {
							select {
							case <-stop:
								return
							default:
							}
							a.SetDeadline(time.Now().Add(10 * time.Second))
							if _, err := a.Write(reqs); err != nil {
								return
							}
							if _, err := a.Read(b); err != nil {
								return
							}
						}
					}()
				case "churn":
					wg.Add(1)
					q := p
					go func() {
						defer wg.Done()
						for j := 0; j < 2000; j++ {
							select {
							case <-stop:
								return
							default:
							}
							x, err := net.DialTimeout("tcp", q.addr, time.Second)
							if err != nil {
								return
							}
							x.Write([]byte("*1\r\n$4\r\nPING\r\n"))
							x.Close()
						}
					}()
				}
			}
			if k.N == 0 {
				if err := serving("after " + what); err != nil {
					return err
				}
			}
		case "t":
			if err := c.mustFail(args, c.scratchDir(), what+": the address is in use"); err != nil {
				return err
			}
			if err := serving("after " + what); err != nil {
				return err
			}
		case "h":
			var many []net.Conn
			for j := 0; j < k.N+20; j++ {
				a, err := net.DialTimeout("tcp", p.addr, 5*time.Second)
				if err != nil {
					break
				}
				a.Write([]byte("*1\r\n$4\r\nPING\r\n"))
				many = append(many, a)
			}
			time.Sleep(15 * time.Millisecond)
			for _, a := range many {
				a.Close()
			}
			end()
			if err := serving("after " + what); err != nil {
				return err
			}
		case "s":
			pid := p.cmd.Process.Pid
			switch o.Fault {
			case "INT":
				syscall.Kill(pid, syscall.SIGINT)
			case "both":
				syscall.Kill(pid, syscall.SIGINT)
				syscall.Kill(pid, syscall.SIGTERM)
			default:
				syscall.Kill(pid, syscall.SIGTERM)
			}
			if !p.ended(prompt) {
				return fmt.Errorf("%s: the server process is still running %v later", what, prompt)
			}
			if out := p.output(); strings.HasPrefix(out, "panic:") || strings.HasPrefix(out, "fatal error:") {
				return fmt.Errorf("%s: the server process crashed: %s", what, out)
			}
			if code := p.cmd.ProcessState.ExitCode(); code != 0 {
				return fmt.Errorf("%s: the server process ended with status %d (%s)", what, code, p.cmd.ProcessState)
			}
			end()
			if a, err := net.DialTimeout("tcp", p.addr, 5*time.Second); err == nil {
				a.Close()
				return fmt.Errorf("%s: the process ended but something still listens on %s", what, p.addr)
			}
		case "R":
			if err := start(0); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
		}
	}
	return nil
}
