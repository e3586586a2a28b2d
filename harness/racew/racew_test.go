// Package racew runs parallel programs against the server code under the race
// detector and decides whether private data stayed private and shared updates
// were neither lost nor torn.
package racew

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"gRedis/config"
	"gRedis/logger"
	"gRedis/memdb"
	"gRedis/server"

	"gredisverif/core"
	"gredisverif/model"
	"gredisverif/wire"
)

var job core.Job
var started = time.Now()
var progress atomic.Int64
var stopNow atomic.Bool

func die(msg string) {
	fmt.Fprintln(os.Stderr, "WORKER-ENV: "+msg)
	os.Exit(3)
}

func finish(r *core.Report, code int) {
	b, err := json.Marshal(r)
	if err != nil {
		die(err.Error())
	}
	if err := os.WriteFile(job.Out, b, 0o644); err != nil {
		die(err.Error())
	}
	os.Exit(code)
}

func TestWorker(t *testing.T) {
	js := os.Getenv("VW_JOB")
	if js == "" {
		t.Skip("no job")
	}
	if err := json.Unmarshal([]byte(js), &job); err != nil {
		die("job: " + err.Error())
	}
	config.Conf = &config.Config{Host: "127.0.0.1", SegNum: 1, DbNum: 1, LogLevel: "info", LogDir: filepath.Join(job.Scratch, "log")}
	if err := logger.Init(config.Conf); err != nil {
		die(err.Error())
	}
	memdb.RegisterKeyCommands()
	memdb.RegisterStringCommands()
	memdb.RegisterHashCommands()
	memdb.RegisterListCommands()
	memdb.RegisterSetCommands()
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(200 * time.Millisecond)
			if job.Stop != "" {
				if _, err := os.Stat(job.Stop); err == nil {
					stopNow.Store(true)
				}
			}
			if p := progress.Load(); p != last {
				last, since = p, time.Now()
			} else if time.Since(since) > 90*time.Second {
				fmt.Fprintln(os.Stderr, "WORKER-HANG")
				debug.SetTraceback("all")
				panic("no progress for 90 s")
			}
		}
	}()
	rep := &core.Report{Labels: map[string]int64{}}
	if job.CaseFile != "" {
		b, err := os.ReadFile(job.CaseFile)
		if err != nil {
			die(err.Error())
		}
		c := &core.Case{}
		if err := json.Unmarshal(b, c); err != nil {
			die(err.Error())
		}
		for i := 0; i < max(job.Reps, 1)*5; i++ {
			rep.Evals++
			if err := runCase(c, map[string]int{}); err != nil {
				rep.Viol, rep.Msg = c, err.Error()
				finish(rep, 1)
			}
		}
		finish(rep, 0)
	}
	jf, err := os.Create(job.Journal)
	if err != nil {
		die(err.Error())
	}
	var buf [8]byte
	for i := job.Start; i < job.Count; i += job.Stride {
		if time.Since(started).Seconds() > job.MaxSec || stopNow.Load() {
			rep.TimedOut = true
			break
		}
		c := generate(i)
		binary.LittleEndian.PutUint64(buf[:], uint64(i))
		jf.WriteAt(buf[:], 0)
		L := map[string]int{}
		err := runCase(c, L)
		rep.Evals++
		for k, v := range L {
			rep.Labels[k] += int64(v)
		}
		if err != nil {
			rep.Viol, rep.Msg = c, err.Error()
			finish(rep, 1)
		}
		if core.NonTrivial(c, L) {
			rep.Hashes = append(rep.Hashes, c.Hash())
			if len(rep.Samples) < 2 {
				rep.Samples = append(rep.Samples, c.Sample())
			}
		}
	}
	finish(rep, 0)
}

func generate(i int64) *core.Case {
	if job.Stage == "par" {
		return core.GeneratePar(job.Prop, job.Seed, i, job.Tier)
	}
	return core.Generate(job.Prop, job.Seed, i, job.Tier)
}

type rec struct {
	client int
	args   []string
	reply  wire.Reply
	err    error
	done   bool
}

// exec runs commands for one client.
type exec interface {
	do(args []string) (wire.Reply, error)
	close()
}

type direct struct{ m *server.Manager }

func (d direct) do(args []string) (r wire.Reply, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("the server crashed: %v\n%s", p, firstLines(string(debug.Stack()), 30))
		}
	}()
	cmd := make([][]byte, len(args))
	for i, a := range args {
		cmd[i] = []byte(a)
	}
	data := d.m.ExecCommand(cmd)
	if data == nil {
		return wire.Reply{K: '-', S: "unknown error"}, nil
	}
	out := data.ToRedisFormat()
	r, rest, err := wire.Decode(out)
	if err == nil && len(rest) > 0 {
		err = fmt.Errorf("more than one value in the reply %q", out)
	}
	return r, err
}
func (d direct) close() {}

type client struct {
	c   net.Conn
	buf []byte
	tmp []byte
}

func (k *client) do(args []string) (wire.Reply, error) {
	k.c.SetDeadline(time.Now().Add(80 * time.Second))
	werr := make(chan error, 1)
	go func() { _, err := k.c.Write(wire.Encode(args)); werr <- err }()
	defer func() { <-werr }()
	tmp := make([]byte, 65536)
	var sc wire.Scanner
	for {
		if sc.Ready(k.buf) {
			r, rest, err := wire.Decode(k.buf)
			if err == nil {
				k.buf = append([]byte(nil), rest...)
				return r, nil
			}
			if !errors.Is(err, wire.ErrIncomplete) {
				k.c.Close()
				return r, fmt.Errorf("malformed reply: %w (%q)", err, firstBytes(k.buf))
			}
		}
		n, err := k.c.Read(tmp)
		k.buf = append(k.buf, tmp[:n]...)
		if err != nil {
			k.c.Close()
			return wire.Reply{}, fmt.Errorf("connection lost: %w (buffered %q)", err, firstBytes(k.buf))
		}
	}
}
func (k *client) close() { k.c.Close() }

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func runCase(c *core.Case, L map[string]int) error {
	if c.Kind == "par" {
		return runPar(c, L)
	}
	progress.Add(1)
	config.Conf = &config.Config{Host: "127.0.0.1", SegNum: c.Seg, DbNum: max(c.Dbs, 1), LogLevel: "info", LogDir: filepath.Join(job.Scratch, "log")}
	m := server.NewManager(config.Conf)
	var handlers sync.WaitGroup
	var pmu sync.Mutex
	var panics []string
	open := func() exec {
		if c.Fault != "conn" {
			return direct{m}
		}
		a, b := net.Pipe()
		handlers.Add(1)
		go func() {
			defer handlers.Done()
			defer func() {
				if p := recover(); p != nil {
					pmu.Lock()
					panics = append(panics, fmt.Sprintf("the server crashed: %v\n%s", p, firstLines(string(debug.Stack()), 30)))
					pmu.Unlock()
				}
			}()
			m.Handle(b)
		}()
		return &client{c: a}
	}
	admin := open()
	var setup, prog []*rec
	clients := 0
	for _, o := range c.Ops {
		if o.Setup {
			if o.K == "z" {
				time.Sleep(time.Duration(o.Ms) * time.Millisecond)
				continue
			}
			if len(o.Args) == 0 {
				continue
			}
			x := &rec{client: -1, args: o.Strs()}
			setup = append(setup, x)
			if x.reply, x.err = admin.do(x.args); x.err != nil {
				return fmt.Errorf("setup %s: %w", wire.CmdString(x.args), x.err)
			}
			x.done = true
			continue
		}
		if len(o.Args) == 0 || o.K != "c" {
			continue
		}
		prog = append(prog, &rec{client: o.Conn, args: o.Strs()})
		clients = max(clients, o.Conn+1)
	}
	var wg sync.WaitGroup
	var gate atomic.Int64
	for k := 0; k < clients; k++ {
		e := open()
		var mine []*rec
		for _, x := range prog {
			if x.client == k {
				mine = append(mine, x)
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer e.close()
			gate.Add(1)
			for i := 0; gate.Load() < int64(clients) && i < 1e6; i++ {
			}
			for _, x := range mine {
				x.reply, x.err = e.do(x.args)
				if x.err != nil {
					return
				}
				x.done = true
			}
		}()
	}
	if c.Fault == "conn" { // someone who does not speak the protocol
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 5; i++ {
				e := open().(*client)
				e.c.SetDeadline(time.Now().Add(5 * time.Second))
				e.c.Write([]byte([]string{"*1\r\n$x\r\n", "hello\r\n", "*2\r\n$3\r\nget", "*-9\r\n", "$5\r\nhello\r\n"}[i]))
				e.close()
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(100 * time.Second): // the watchdog reports the hang
		select {}
	}
	pmu.Lock()
	ps := panics
	pmu.Unlock()
	if len(ps) > 0 {
		return fmt.Errorf("%s", ps[0])
	}
	for _, x := range prog {
		if x.err != nil {
			return fmt.Errorf("client %d %s: %w", x.client, wire.CmdString(x.args), x.err)
		}
		if !x.done {
			return fmt.Errorf("client %d %s: no reply", x.client, wire.CmdString(x.args))
		}
	}
	if err := oracle(c, setup, prog, admin, L); err != nil {
		return err
	}
	admin.close()
	handlers.Wait()
	return nil
}

func oracle(c *core.Case, setup, prog []*rec, admin exec, L map[string]int) error {
	ask := func(a ...string) (wire.Reply, error) {
		r, err := admin.do(a)
		if err != nil {
			return r, fmt.Errorf("afterwards, %s: %w", wire.CmdString(a), err)
		}
		return r, nil
	}
	strs := func(r wire.Reply) (l []string) {
		for _, e := range r.A {
			l = append(l, e.S)
		}
		return
	}
	now := time.Now().UnixMilli()
	// private data
	for k := 0; k < c.N; k++ {
		m := model.New(1)
		var names []string
		for _, x := range prog {
			if x.client != k {
				continue
			}
			ns := model.Names(x.args)
			mine := len(ns) > 0
			for _, n := range ns {
				mine = mine && strings.HasPrefix(n, fmt.Sprintf("p%d:", k))
			}
			if !mine {
				continue
			}
			names = append(names, ns...)
			L["private"]++
			if err := model.Step(m.DBs[0], x.args, x.reply, now, nil); err != nil {
				return fmt.Errorf("private data of client %d: %s answered %s: %w", k, wire.CmdString(x.args), x.reply, err)
			}
		}
		sort.Strings(names)
		for i, n := range names {
			if i > 0 && names[i-1] == n {
				continue
			}
			e := m.DBs[0][n]
			cmd := []string{"exists", n}
			if e != nil {
				switch e.K {
				case model.Str:
					cmd = []string{"get", n}
				case model.List:
					cmd = []string{"lrange", n, "0", "-1"}
				case model.Hash:
					cmd = []string{"hgetall", n}
				default:
					cmd = []string{"smembers", n}
				}
			}
			r, err := ask(cmd...)
			if err != nil {
				return err
			}
			if err := model.Step(m.DBs[0], cmd, r, now, nil); err != nil {
				return fmt.Errorf("private data of client %d afterwards: %s answered %s: %w", k, wire.CmdString(cmd), r, err)
			}
		}
	}
	// shared data
	touched := map[int]bool{}
	cnt := map[string]int64{}
	logs := map[string][]*rec{}
	members := map[string]map[string]int{"bag:": {}, "ring:": {}}
	winners := map[string][]string{}
	appended := 0
	torn := false // whether tor:0 existed from the beginning
	for _, x := range setup {
		torn = torn || len(x.args) > 1 && x.args[1] == "tor:0"
	}
	for _, x := range append(append([]*rec(nil), setup...), prog...) {
		if len(x.args) < 2 {
			continue
		}
		a, r := x.args, x.reply
		k := a[1]
		if x.client >= 0 && !strings.HasPrefix(k, "p") {
			touched[x.client] = true
		}
		bad := func(format string, v ...any) error {
			return fmt.Errorf("client %d %s answered %s: %s", x.client, wire.CmdString(a), r, fmt.Sprintf(format, v...))
		}
		switch {
		case strings.HasPrefix(k, "cnt:"):
			n := int64(1)
			f := k
			switch a[0] {
			case "get":
				continue
			case "incrby", "decrby":
				n, _ = strconv.ParseInt(a[2], 10, 64)
			case "hincrby":
				n, _ = strconv.ParseInt(a[3], 10, 64)
				f = k + " " + a[2]
			}
			if strings.HasPrefix(a[0], "decr") {
				n = -n
			}
			if r.K != ':' {
				return bad("not an integer")
			}
			cnt[f] += n
		case strings.HasPrefix(k, "log:"):
			switch a[0] {
			case "rpush":
				if r.K != ':' {
					return bad("not an integer")
				}
				logs[k] = append(logs[k], x)
			case "lrange":
				if r.K != '*' {
					return bad("not an array")
				}
			}
		case strings.HasPrefix(k, "bag:"), strings.HasPrefix(k, "ring:"):
			b := members[k[:strings.IndexByte(k, ':')+1]]
			switch a[0] {
			case "sadd":
				if r.K != ':' || r.N != 1 {
					return bad("a new member was not added")
				}
				b[a[2]]++
			case "lpush", "rpush":
				if r.K != ':' || r.N < 1 {
					return bad("not added")
				}
				b[a[2]]++
			case "spop", "lpop", "rpop":
				if r.IsErr() {
					return bad("error")
				}
				if !r.Null {
					b[r.S]--
				}
			case "lmove", "smove":
				if r.IsErr() {
					return bad("error")
				}
			}
		case strings.HasPrefix(k, "eq:"):
			if a[0] == "mget" {
				for _, e := range r.A {
					if e.S != r.A[0].S {
						return bad("values that are always written together differ")
					}
				}
				if len(r.A) != len(a)-1 {
					return bad("wrong number of values")
				}
			}
		case strings.HasPrefix(k, "tor:"):
			if a[0] == "get" || a[0] == "getrange" {
				if r.Null && !torn || a[0] == "getrange" && r.S == "" && !torn {
					continue
				}
				if len(r.S) != core.TornLen || strings.Trim(r.S, r.S[:1]) != "" {
					return bad("a value that was never written: neither the old nor the new one")
				}
			}
		case strings.HasPrefix(k, "app:"):
			switch a[0] {
			case "append":
				appended += core.AppendLen
				if r.K != ':' || r.N%core.AppendLen != 0 {
					return bad("not a length that can occur")
				}
			case "strlen":
				if r.K != ':' || r.N%core.AppendLen != 0 {
					return bad("not a length that can occur")
				}
			case "get":
				if err := chunks(r.S); err != nil {
					return bad("%v", err)
				}
			}
		case strings.HasPrefix(k, "nx:"):
			f := k
			v := a[len(a)-1]
			if a[0] == "hsetnx" {
				f = k + " " + a[2]
			}
			if r.K != ':' {
				return bad("not an integer")
			}
			if r.N == 1 {
				winners[f] = append(winners[f], v)
			} else if _, ok := winners[f]; !ok {
				winners[f] = nil
			}
		}
	}
	L["shared"] += len(touched)
	L["commands"] += len(prog)
	L["transport:"+c.Fault]++
	for f, n := range cnt {
		args := []string{"get", f}
		if k, h, ok := strings.Cut(f, " "); ok {
			args = []string{"hget", k, h}
		}
		r, err := ask(args...)
		if err != nil {
			return err
		}
		if r.S != strconv.FormatInt(n, 10) {
			return fmt.Errorf("counter %s is %s after updates that sum to %d", f, r, n)
		}
	}
	for k, xs := range logs {
		r, err := ask("lrange", k, "0", "-1")
		if err != nil {
			return err
		}
		pos := map[string]int{}
		n := 0
		for i, s := range strs(r) {
			if _, dup := pos[s]; dup {
				return fmt.Errorf("log %s contains %q twice", k, s)
			}
			pos[s] = i
		}
		last := map[int]int{}
		for _, x := range xs {
			for _, s := range x.args[2:] {
				n++
				p, ok := pos[s]
				if !ok {
					return fmt.Errorf("log %s lost %q, whose RPUSH answered %s", k, s, x.reply)
				}
				if l, ok := last[x.client]; ok && p < l {
					return fmt.Errorf("log %s has the entries of client %d out of order at %q", k, x.client, s)
				}
				last[x.client] = p
			}
		}
		if len(pos) != n {
			return fmt.Errorf("log %s has %d entries, %d were pushed", k, len(pos), n)
		}
	}
	for pre, b := range members {
		for i := 0; i < 2; i++ {
			k := fmt.Sprint(pre, i)
			q := []string{"smembers", k}
			if pre == "ring:" {
				q = []string{"lrange", k, "0", "-1"}
			}
			r, err := ask(q...)
			if err != nil {
				return err
			}
			for _, s := range strs(r) {
				b[s]--
			}
		}
		for s, n := range b {
			if n > 0 {
				return fmt.Errorf("%q was added to the %s* collections and neither popped nor left there: lost", s, pre)
			}
			if n < 0 {
				return fmt.Errorf("%q was popped from or is in the %s* collections more often than it was added", s, pre)
			}
		}
	}
	for f, w := range winners {
		args := []string{"get", f}
		if k, h, ok := strings.Cut(f, " "); ok {
			args = []string{"hget", k, h}
		}
		r, err := ask(args...)
		if err != nil {
			return err
		}
		if len(w) != 1 || r.S != w[0] {
			return fmt.Errorf("%s was to be made once: the calls that answered 1 wrote %q, its value is %s", f, w, r)
		}
	}
	if appended > 0 {
		r, err := ask("get", "app:0")
		if err != nil {
			return err
		}
		if len(r.S) != appended {
			return fmt.Errorf("app:0 has %d bytes, %d were appended", len(r.S), appended)
		}
		if err := chunks(r.S); err != nil {
			return err
		}
	}
	return nil
}

func chunks(s string) error {
	if len(s)%core.AppendLen != 0 {
		return fmt.Errorf("%d bytes is not a length that can occur", len(s))
	}
	for i := 0; i < len(s); i += core.AppendLen {
		if strings.Trim(s[i:i+core.AppendLen], s[i:i+1]) != "" {
			return fmt.Errorf("mixed bytes in the chunk at %d", i)
		}
	}
	return nil
}
