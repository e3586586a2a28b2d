package engine

import (
	"errors"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"testing/synctest"

	"gRedis/config"

	"gredisverif/core"
	"gredisverif/wire"
)

// ---------------------------------------------------------------- C23

var unordered = map[string]bool{"keys": true, "smembers": true, "sinter": true, "sunion": true, "sdiff": true, "hkeys": true, "hvals": true}

var random = map[string]bool{"spop": true, "srandmember": true, "hrandfield": true}

func canonReply(cmd string, r wire.Reply) string {
	cmd = strings.ToLower(cmd)
	if random[cmd] {
		return ""
	}
	if r.K == '-' {
		return "-" // only that it failed
	}
	if r.K == '*' && (unordered[cmd] || cmd == "hgetall") {
		var p []string
		if cmd == "hgetall" {
			for i := 0; i+1 < len(r.A); i += 2 {
				p = append(p, fmt.Sprintf("%q=%q", r.A[i].S, r.A[i+1].S))
			}
		} else {
			for _, e := range r.A {
				p = append(p, strconv.Quote(e.S))
			}
		}
		sort.Strings(p)
		return strings.Join(p, " ")
	}
	return r.String()
}

func runSegs(c *core.Case, L map[string]int) error {
	rnd := false
	for _, o := range c.Ops {
		if len(o.Args) > 0 && random[strings.ToLower(string(o.Args[0]))] {
			rnd = true
		}
	}
	var first []canon
	for i, seg := range c.Segs {
		var tr []canon
		home := 0
		if i > 0 && c.Dbs > 0 {
			home = (c.N + i) % c.Dbs
		}
		if err := runSeq(c, seg, home, L, &tr); err != nil {
			return fmt.Errorf("segnum %d, database %d: %w", seg, home, err)
		}
		L["configurations"]++
		if rnd {
			continue
		}
		if i == 0 {
			first = tr
			continue
		}
		for j := range tr {
			if j < len(first) && tr[j] != first[j] {
				return fmt.Errorf("command %s answered %s with segnum %d but %s with segnum %d", tr[j].what, first[j].r, c.Segs[0], tr[j].r, seg)
			}
		}
		L["compared-replies"] += len(tr)
	}
	return nil
}

// ---------------------------------------------------------------- C22

func runFreq(c *core.Case, L map[string]int) error {
	startClock(0)
	s := NewSrv(c.Seg, 1)
	defer s.End()
	pc := s.Open()
	op := c.Ops[0]
	v := op.Strs()
	if len(v) < 2 || len(c.Keys) == 0 {
		return nil
	}
	key := v[1]
	ms := core.Strs(c.Keys)
	pop := v[0] == "spop"
	hash := v[0] == "hrandfield"
	fill := func() error {
		args := []string{"sadd", key}
		if hash {
			args = []string{"hset", key}
		}
		for i, m := range ms {
			args = append(args, m)
			if hash {
				args = append(args, "v"+strconv.Itoa(i))
			}
		}
		_, err := s.Exchange(pc, args, nil, false)
		return err
	}
	if err := fill(); err != nil {
		return err
	}
	idx := map[string]int{}
	for i, m := range ms {
		idx[m] = i
	}
	seen := map[string]int{}
	withValues := len(v) == 4
	calls := op.N
	if calls == 0 {
		calls = 400
	}
	for i := 0; i < calls; i++ {
		r, err := s.Exchange(pc, v, nil, false)
		if err != nil {
			return err
		}
		var got []string
		switch {
		case r.K == '$' && !r.Null:
			got = []string{r.S}
		case r.K == '*':
			for _, e := range r.A {
				got = append(got, e.S)
			}
		default:
			return fmt.Errorf("%s answered %s", wire.CmdString(v), r)
		}
		if withValues {
			for j := 0; j+1 < len(got); j += 2 {
				if k, ok := idx[got[j]]; !ok || got[j+1] != "v"+strconv.Itoa(k) {
					return fmt.Errorf("%s paired %q with %q", wire.CmdString(v), got[j], got[j+1])
				}
				seen[got[j]]++
			}
		} else {
			for _, g := range got {
				seen[g]++
			}
		}
		if pop {
			if err := fill(); err != nil {
				return err
			}
		}
		L["random-calls"]++
	}
	for m := range seen {
		if _, ok := idx[m]; !ok {
			return fmt.Errorf("%s returned %q, which is not a member", wire.CmdString(v), m)
		}
	}
	for _, m := range ms {
		if seen[m] == 0 {
			return fmt.Errorf("%s never chose %q in %d calls over %d members", wire.CmdString(v), m, calls, len(ms))
		}
	}
	L["freq"]++
	return nil
}

// ---------------------------------------------------------------- C03

const victimKey = "victim-7f3a9c51e0d2"

type victim struct {
	s    *Srv
	c    *Conn
	n    int
	list []string
	sets int
}

func (v *victim) ask(want string, args ...string) error {
	r, err := v.s.Exchange(v.c, args, nil, false)
	if err != nil {
		return fmt.Errorf("another client's %s: %w", wire.CmdString(args), err)
	}
	if r.String() != want {
		return fmt.Errorf("another client's %s answered %s, want %s", wire.CmdString(args), r, want)
	}
	return nil
}

// act uses and verifies the victim's data.
func (v *victim) act() error {
	if v.c == nil {
		v.c = v.s.Open()
	}
	i := strconv.Itoa(v.n)
	steps := [][]string{
		{":" + strconv.Itoa(v.n+1), "rpush", victimKey + "l", i},
		{"+OK", "set", victimKey + "s", "value" + i},
		{strconv.Quote("value" + i), "get", victimKey + "s"},
		{":1", "hset", victimKey + "h", "f" + i, i},
		{":" + strconv.Itoa(v.n+1), "hlen", victimKey + "h"},
		{":1", "sadd", victimKey + "t", i},
		{":" + strconv.Itoa(v.n+1), "scard", victimKey + "t"},
	}
	for _, s := range steps {
		if err := v.ask(s[0], s[1:]...); err != nil {
			return err
		}
	}
	v.list = append(v.list, strconv.Quote(i))
	if err := v.ask("["+strings.Join(v.list, " ")+"]", "lrange", victimKey+"l", "0", "-1"); err != nil && len(v.list) < 20 {
		return err
	}
	v.n++
	return nil
}

func runFuzz(c *core.Case, L map[string]int) error {
	startClock(0)
	s := NewSrv(c.Seg, c.Dbs)
	defer s.End()
	v := &victim{s: s}
	if err := v.act(); err != nil {
		return err
	}
	conns := map[int]*Conn{}
	for i, o := range c.Ops {
		fail := func(err error) error { return fmt.Errorf("op %d %s: %w", i, o.String(), err) }
		switch o.K {
		case "v":
			if err := v.act(); err != nil {
				return fail(err)
			}
			L["victim-rounds"]++
			continue
		case "r":
			k := conns[o.Conn]
			if k != nil {
				if _, closed := k.peek(); closed {
					k.peerGone(nil)
					k = nil
					L["terminated"]++
				}
			}
			if k == nil {
				k = s.Open()
				conns[o.Conn] = k
			}
			k.Send([]byte(o.Data), o.Cuts)
			L["raw"]++
		case "x", "e":
			if k := conns[o.Conn]; k != nil {
				if o.K == "x" {
					k.peerGone(nil)
				} else {
					k.setEOF()
				}
				delete(conns, o.Conn)
			}
		}
		if err := s.Settle(); err != nil {
			return fail(err)
		}
		if k := conns[o.Conn]; k != nil {
			out := k.take()
			L["raw-reply-bytes"] += len(out)
			if _, closed := k.peek(); closed {
				L["terminated"]++
			}
		}
	}
	if err := v.act(); err != nil {
		return err
	}
	// a new connection is served too
	v.c = nil
	if err := v.act(); err != nil {
		return fmt.Errorf("on a new connection: %w", err)
	}
	return nil
}

// ---------------------------------------------------------------- C20

func serverGoroutines() []string {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	var out []string
	for _, g := range strings.Split(string(buf[:n]), "\n\n") {
		for _, l := range strings.Split(g, "\n")[1:] {
			if strings.HasPrefix(l, "gRedis/") {
				out = append(out, g)
				break
			}
		}
	}
	return out
}

func runFault(c *core.Case, L map[string]int) error {
	startClock(0)
	s := NewSrv(c.Seg, 1)
	defer s.End()
	base := len(serverGoroutines())
	v := &victim{s: s}
	if err := v.act(); err != nil {
		return err
	}
	big := strings.Repeat("x", 100000)
	if err := v.ask("+OK", "set", "bigvalue", big); err != nil {
		return err
	}
	type fc struct {
		k     *Conn
		o     core.Op
		sent  int
		acked int
		exact bool // every complete request must have taken effect
	}
	var fs []*fc
	for i := range c.Ops {
		o := c.Ops[i]
		fail := func(err error) error { return fmt.Errorf("op %d %s: %w", i, o.String(), err) }
		if o.K == "n" {
			for j := 0; j < o.N; j++ {
				k := s.Open()
				if j%2 == 0 {
					k.Send([]byte("*1\r\n$4\r\nPING\r\n"), nil)
				}
				if j%3 == 0 {
					if err := s.Settle(); err != nil {
						return fail(err)
					}
				}
				k.peerGone(nil)
				fs = append(fs, &fc{k: k, o: core.Op{K: "n", Fault: "churn"}})
			}
			if err := s.Settle(); err != nil {
				return fail(err)
			}
			L["churn"]++
			continue
		}
		f := &fc{k: s.Open(), o: o}
		fs = append(fs, f)
		k := f.k
		log := fmt.Sprintf("log%d", i)
		var data []byte
		var ends []int // end of each logging request
		replies := 0   // replies before each logging request
		var at []int
		for j := 0; j < o.N; j++ {
			if j == o.N/2 {
				for _, b := range o.Batch {
					data = append(data, wire.Encode(core.Strs(b))...)
					replies++
				}
				for n := int64(0); n < o.Off; n++ {
					data = append(data, wire.Encode([]string{"get", "bigvalue"})...)
					replies++
				}
			}
			data = append(data, wire.Encode([]string{"rpush", log, strconv.Itoa(j)})...)
			ends = append(ends, len(data))
			at = append(at, replies)
			replies++
		}
		send := data
		switch o.Fault {
		case "close", "eof", "readerr":
			if o.Tail < len(data) {
				send = data[:len(data)-o.Tail]
			}
			f.exact = o.Fault != "close"
		case "writeerr":
			k.failWrite = int(o.Ms)
		case "shortwrite":
			k.failWrite, k.short = int(o.Ms), true
		case "stall", "stallproto":
			k.stallAt = int(o.Ms)
			if o.Fault == "stallproto" {
				send = append(append([]byte(nil), data...), "\n\n\n"...)
			}
		case "closewrite":
			// the client goes away just before reply Ms is written
			k.failWrite = int(o.Ms)
			k.eof = true
		case "proto":
			send = append(append([]byte(nil), data...), o.Data...)
			f.exact = true
		case "closefail":
			k.closeErr = true
			f.exact = true
		}
		for _, e := range ends {
			if e <= len(send) {
				f.sent++
			}
		}
		for _, p := range Split(send, o.Cuts) {
			k.push(p)
			if o.Slow {
				if err := s.Settle(); err != nil {
					return fail(err)
				}
			}
		}
		if o.Fault == "close" && !o.Slow {
			k.peerGone(nil) // while requests are in flight
		}
		if err := s.Settle(); err != nil {
			return fail(err)
		}
		// acknowledged requests
		out, _ := k.peek()
		n := 0
		for {
			_, rest, err := wire.Decode(out)
			if err != nil {
				break
			}
			n++
			out = rest
		}
		for _, a := range at {
			if a < n {
				f.acked++
			}
		}
		switch o.Fault {
		case "close", "stall", "stallproto", "writeerr", "shortwrite", "closewrite":
			k.peerGone(nil)
		case "eof", "closefail":
			k.setEOF()
		case "readerr":
			k.mu.Lock()
			k.rerr = errReset
			k.cond.Broadcast()
			k.mu.Unlock()
		case "idle":
			// stays open and must keep working while the others end
		case "proto":
			// the server may end the connection by itself, or at the latest now
			k.setEOF()
		}
		if err := s.Settle(); err != nil {
			return fail(err)
		}
		L["fault:"+o.Fault]++
		if k.stalled {
			L["stalled-writes"]++
		}
		if err := v.act(); err != nil {
			return fail(err)
		}
	}
	for i, f := range fs {
		if f.o.Fault == "idle" {
			// still served
			r, err := s.Exchange2(f.k)
			if err != nil {
				return fmt.Errorf("connection %d, idle while others ended: %w", i, err)
			}
			_ = r
			f.k.peerGone(nil)
		}
	}
	if err := s.Settle(); err != nil {
		return err
	}
	for i, f := range fs {
		f.k.mu.Lock()
		closed, ret := f.k.closed, f.k.returned
		f.k.mu.Unlock()
		if !closed {
			return fmt.Errorf("connection %d (%s) ended but the server never closed its side", i, f.o.String())
		}
		if !ret {
			return fmt.Errorf("connection %d (%s) ended but its handler is still running", i, f.o.String())
		}
		if f.o.K != "f" {
			continue
		}
		L["ended"]++
	}
	// completed commands stay in effect, in order
	for i := range c.Ops {
		if c.Ops[i].K != "f" {
			continue
		}
		var f *fc
		for _, x := range fs {
			if x.o.K == "f" && x.o.Conn == c.Ops[i].Conn {
				f = x
			}
		}
		if f == nil || len(f.o.Batch) > 0 {
			continue // an arbitrary command may have touched anything
		}
		r, err := s.Exchange(v.c, []string{"lrange", fmt.Sprintf("log%d", i), "0", "-1"}, nil, false)
		if err != nil {
			return err
		}
		if r.K != '*' {
			return fmt.Errorf("log of connection %d: %s", i, r)
		}
		for j, e := range r.A {
			if e.S != strconv.Itoa(j) {
				return fmt.Errorf("connection %d (%s): its requests took effect as %s", i, f.o.String(), r)
			}
		}
		if len(r.A) > f.sent {
			return fmt.Errorf("connection %d (%s): %d requests were complete but %d took effect", i, f.o.String(), f.sent, len(r.A))
		}
		if len(r.A) < f.acked {
			return fmt.Errorf("connection %d (%s): %d requests were answered but only %d are in effect", i, f.o.String(), f.acked, len(r.A))
		}
		if f.exact && len(r.A) != f.sent {
			return fmt.Errorf("connection %d (%s): %d requests were complete but only %d took effect", i, f.o.String(), f.sent, len(r.A))
		}
	}
	v.c.peerGone(nil)
	if err := s.Settle(); err != nil {
		return err
	}
	if g := serverGoroutines(); len(g) > base {
		return fmt.Errorf("%d goroutines of the server remain after all connections ended, for instance:\n%s", len(g)-base, g[len(g)-1])
	}
	return nil
}

// Exchange2 checks that an open connection is still served.
func (s *Srv) Exchange2(k *Conn) (wire.Reply, error) {
	k.take()
	return s.Exchange(k, []string{"ping", "still here"}, nil, false)
}

// ---------------------------------------------------------------- C24

// wantConfig is the documented meaning of a configuration file.
func wantConfig(file string, init config.Config) (config.Config, error) {
	cf := init
	for _, line := range strings.Split(file, "\n") {
		f := strings.FieldsFunc(line, func(r rune) bool { return r == ' ' || r == '\t' || r == '\r' })
		if len(f) == 0 {
			continue
		}
		opt := strings.ToLower(f[0])
		switch opt {
		case "host", "port", "logdir", "loglevel", "segnum", "dbnum":
		default:
			continue
		}
		if len(f) < 2 {
			return cf, errors.New("missing value")
		}
		num := func(p *int) error {
			n, err := strconv.ParseInt(f[1], 10, 64)
			if err != nil {
				return err
			}
			*p = int(n)
			return nil
		}
		var err error
		switch opt {
		case "host":
			if net.ParseIP(f[1]) == nil {
				return cf, errors.New("bad host")
			}
			cf.Host = f[1]
		case "port":
			err = num(&cf.Port)
		case "logdir":
			cf.LogDir = f[1]
		case "loglevel":
			cf.LogLevel = f[1]
		case "segnum":
			err = num(&cf.SegNum)
		case "dbnum":
			err = num(&cf.DbNum)
		}
		if err != nil {
			return cf, err
		}
	}
	return cf, nil
}

func runConfig(c *core.Case, L map[string]int) error {
	if len(c.Ops) == 0 {
		return nil
	}
	a := c.Ops[0].Strs()
	if len(a) < 6 {
		return nil
	}
	init := config.Config{Host: a[0], LogDir: a[2], LogLevel: a[3]}
	init.Port, _ = strconv.Atoi(a[1])
	init.SegNum, _ = strconv.Atoi(a[4])
	init.DbNum, _ = strconv.Atoi(a[5])
	dir, err := os.MkdirTemp(LogDir, "cfg")
	if err != nil {
		return fmt.Errorf("ENV: %v", err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "g.conf")
	want, wantErr := wantConfig(string(c.File), init)
	switch c.Ops[0].Fault {
	case "missing":
		wantErr = errors.New("missing file")
	case "dir":
		wantErr = errors.New("a directory")
		if err := os.Mkdir(path, 0o755); err != nil {
			return fmt.Errorf("ENV: %v", err)
		}
	default:
		if err := os.WriteFile(path, []byte(c.File), 0o644); err != nil {
			return fmt.Errorf("ENV: %v", err)
		}
	}
	got := init
	got.ConfigFile = path
	gotErr := got.ParseConfFile()
	synctest.Wait()
	Progress.Add(1)
	if (gotErr != nil) != (wantErr != nil) {
		return fmt.Errorf("configuration %q: error %v, want %v", string(c.File), gotErr, wantErr)
	}
	if wantErr != nil {
		L["rejected"]++
		return nil
	}
	L["accepted"]++
	if strings.Count(string(c.File), "\n") > 1 {
		L["multiline"]++
	}
	want.ConfigFile = path
	if !strings.EqualFold(got.LogLevel, want.LogLevel) {
		return fmt.Errorf("configuration %q: loglevel %q, want %q", string(c.File), got.LogLevel, want.LogLevel)
	}
	got.LogLevel, want.LogLevel = "", ""
	if got != want {
		return fmt.Errorf("configuration %q gives %+v, want %+v", string(c.File), got, want)
	}
	return nil
}
