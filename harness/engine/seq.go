package engine

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"gredisverif/core"
	"gredisverif/model"
	"gredisverif/wire"
)

// Progress is bumped whenever the server reaches quiescence.
var Progress atomic.Int64

// Result is what running a case produced.
type Result struct {
	L   map[string]int
	Err error
}

type run struct {
	c     *core.Case
	s     *Srv
	m     *model.Model
	db    map[int]int // selected database per connection
	conns map[int]*Conn
	probe []*Conn // one per database
	L     map[string]int
	trace []canon // replies, for differential runs
	i     int
}

type canon struct {
	what string
	r    string
}

// JumpTo lets virtual time pass up to a point.
func JumpTo(ms int64) {
	if d := ms - now(); d > 0 {
		time.Sleep(time.Duration(d) * time.Millisecond)
	}
}

func now() int64 { return time.Now().UnixMilli() }

// startClock sleeps to the next whole second plus the phase of the case.
func startClock(phase int64) {
	n := now()
	time.Sleep(time.Duration(1000-n%1000+phase) * time.Millisecond)
}

// Run executes a case.
func Run(c *core.Case) Result {
	L := map[string]int{}
	var err error
	JumpTo(c.Epoch)
	switch c.Kind {
	case "seq":
		err = runSeq(c, c.Seg, 0, L, nil)
	case "segs":
		err = runSegs(c, L)
	case "freq":
		err = runFreq(c, L)
	case "fuzz":
		err = runFuzz(c, L)
	case "fault":
		err = runFault(c, L)
	case "log":
		err = runLog(c, L)
	case "leak":
		err = runLeak(c, L)
	case "config":
		err = runConfig(c, L)
	default:
		err = fmt.Errorf("unknown kind %q", c.Kind)
	}
	return Result{L, err}
}

func runSeq(c *core.Case, seg, homeDB int, L map[string]int, trace *[]canon) (err error) {
	startClock(c.Phase)
	x := &run{c: c, s: NewSrv(seg, c.Dbs), m: model.New(c.Dbs), db: map[int]int{}, conns: map[int]*Conn{}, L: L}
	defer x.s.End()
	if homeDB > 0 {
		x.db[0] = homeDB
		if r, err := x.s.Exchange(x.conn(0), []string{"select", strconv.Itoa(homeDB)}, nil, false); err != nil || r.K != '+' {
			return fmt.Errorf("select %d: %v %v", homeDB, r, err)
		}
	}
	credit := 20000 // very large key spaces are not read after every command
	for i := range c.Ops {
		x.i = i
		if err := x.op(&c.Ops[i]); err != nil {
			return fmt.Errorf("op %d %s: %w", i, c.Ops[i].String(), err)
		}
		credit += 200
		if size := x.size(); c.Each && c.Ops[i].K == "c" && size <= credit {
			credit -= size
			if err := x.dump(); err != nil {
				return fmt.Errorf("after op %d %s: %w", i, c.Ops[i].String(), err)
			}
		}
		if os.Getenv("VTRACE") != "" {
			fmt.Fprintf(os.Stderr, "%d %s\n", i, c.Ops[i].String())
		}
	}
	if err := x.dump(); err != nil {
		return fmt.Errorf("at the end: %w", err)
	}
	if trace != nil {
		*trace = x.trace
	}
	return nil
}

func (x *run) conn(i int) *Conn {
	c := x.conns[i]
	if c == nil {
		c = x.s.Open()
		x.conns[i] = c
	}
	return c
}

// probeConn returns a connection of the oracle in database d.
func (x *run) probeConn(d int) (*Conn, error) {
	for len(x.probe) <= d {
		x.probe = append(x.probe, nil)
	}
	if x.probe[d] == nil {
		c := x.s.Open()
		if d != 0 {
			r, err := x.s.Exchange(c, []string{"SELECT", strconv.Itoa(d)}, nil, false)
			if err != nil {
				return nil, err
			}
			if r.K != '+' {
				return nil, fmt.Errorf("SELECT %d answered %s", d, r)
			}
		}
		x.probe[d] = c
	}
	return x.probe[d], nil
}

// resolve finds out about keys whose visibility is open right now.
func (x *run) resolve(d int, keys []string, all bool) error {
	db := x.m.DBs[d]
	und := db.Undetermined(now())
	if len(und) == 0 {
		return nil
	}
	named := map[string]bool{}
	for _, k := range keys {
		named[k] = true
	}
	for _, k := range und {
		if !all && !named[k] {
			continue
		}
		pc, err := x.probeConn(d)
		if err != nil {
			return err
		}
		r, err := x.s.Exchange(pc, []string{"EXISTS", k}, nil, false)
		if err != nil {
			return fmt.Errorf("EXISTS %q: %w", k, err)
		}
		if r.K != ':' || (r.N != 0 && r.N != 1) {
			return fmt.Errorf("EXISTS %q answered %s", k, r)
		}
		db.Resolve(k, r.N == 1, now())
		x.L["probes"]++
	}
	return nil
}

func materialize(o *core.Op) []string {
	a := o.Strs()
	if o.Unit != "" && o.At > 0 && o.At < len(a) {
		t := now() + o.Off
		if o.Unit == "s" {
			t /= 1000
		}
		a[o.At] = strconv.FormatInt(t, 10)
	}
	return a
}

func (x *run) op(o *core.Op) error {
	switch o.K {
	case "z":
		ms := o.Ms
		if len(o.Args) == 1 {
			for _, d := range x.m.DBs {
				if e := d[string(o.Args[0])]; e != nil && e.TTL {
					if t := e.Lo + o.Off - now(); t > 0 && t < 40*86400*1000 {
						ms = t
						x.L["deadline-sleeps"]++
					}
				}
			}
		}
		if now()+ms > 5000000000000 && ms > 100000 {
			ms = 100000 // the virtual clock has an end
		}
		time.Sleep(time.Duration(ms) * time.Millisecond)
		x.L["sleeps"]++
		return nil
	case "d":
		return x.dump()
	case "x":
		if c := x.conns[o.Conn]; c != nil {
			c.peerGone(nil)
			if err := x.s.Settle(); err != nil {
				return err
			}
			delete(x.conns, o.Conn)
			delete(x.db, o.Conn)
			x.L["closes"]++
		}
		return nil
	case "e":
		if c := x.conns[o.Conn]; c != nil {
			c.setEOF()
			if err := x.s.Settle(); err != nil {
				return err
			}
			if out := c.take(); len(out) > 0 {
				return fmt.Errorf("unexpected output after the end of input: %q", cut(out))
			}
			delete(x.conns, o.Conn)
			delete(x.db, o.Conn)
			x.L["closes"]++
		}
		return nil
	case "c":
		return x.command(o)
	case "p":
		return x.pipeline(o)
	}
	return fmt.Errorf("unknown op %q", o.K)
}

func (x *run) command(o *core.Op) error {
	args := materialize(o)
	if len(args) == 0 {
		return nil
	}
	d := x.db[o.Conn]
	if err := x.resolve(d, model.Names(args), strings.EqualFold(args[0], "keys")); err != nil {
		return err
	}
	r, err := x.s.Exchange(x.conn(o.Conn), args, o.Cuts, o.Slow)
	if err != nil {
		return err
	}
	if len(o.Cuts) > 0 {
		x.L["cuts"]++
	}
	if err := x.step(o.Conn, args, r); err != nil {
		return err
	}
	if x.c.Kind == "segs" {
		x.trace = append(x.trace, canon{o.String(), canonReply(args[0], r)})
	}
	return nil
}

// step checks a reply against the model.
func (x *run) step(conn int, args []string, r wire.Reply) error {
	d := x.db[conn]
	if strings.EqualFold(args[0], "select") {
		x.L["selects"]++
		want, grey := core.SelectWant(args, x.c.Dbs)
		switch {
		case grey && r.IsErr():
			return nil
		case want < 0:
			if !r.IsErr() {
				return fmt.Errorf("want an error, got %s", r)
			}
			x.L["bad-selects"]++
			return nil
		default:
			if r.K != '+' || r.S != "OK" {
				return fmt.Errorf("want +OK, got %s", r)
			}
			x.db[conn] = want
			return nil
		}
	}
	var inf model.Info
	before := len(x.m.DBs[d])
	_ = before
	err := model.Step(x.m.DBs[d], args, r, now(), &inf)
	x.count(args, r, &inf, d)
	if err != nil {
		return fmt.Errorf("got %s: %w", r, err)
	}
	return nil
}

func (x *run) count(args []string, r wire.Reply, inf *model.Info, d int) {
	L := x.L
	L["commands"]++
	L["cmd:"+inf.Cmd]++
	if inf.Hit {
		L["hits"]++
	}
	if inf.Err {
		L["errors"]++
		if inf.Hit {
			L["errors-on-live-keys"]++
		}
	}
	if inf.Wrong {
		L["wrongtype"]++
	}
	if inf.Mutated {
		L["mutations"]++
	}
	if inf.Expired {
		L["expired-named"]++
	}
	if inf.Multi {
		L["multi"]++
	}
	if inf.Removed {
		L["removed"]++
	}
	if inf.Created {
		L["created"]++
	}
	if d > 0 {
		L["otherdb"]++
	}
	if !r.IsErr() && (hasBin(r)) {
		L["binary-read"]++
	}
	if r.K == '*' && len(r.A) > 0 {
		L["arrays"]++
	}
}

func hasBin(r wire.Reply) bool {
	if r.K == '$' && !r.Null {
		if r.S == "" || len(r.S) >= 4096 {
			return true
		}
		for i := 0; i < len(r.S); i++ {
			if r.S[i] < 32 || r.S[i] > 126 {
				return true
			}
		}
	}
	for _, e := range r.A {
		if hasBin(e) {
			return true
		}
	}
	return false
}

// pipeline sends a batch of requests.
func (x *run) pipeline(o *core.Op) error {
	var data []byte
	var ends []int
	reqs := make([][]string, len(o.Batch))
	for i, b := range o.Batch {
		reqs[i] = core.Strs(b)
		if len(reqs[i]) == 0 {
			reqs[i] = []string{"ping"}
		}
		data = append(data, wire.Encode(reqs[i])...)
		ends = append(ends, len(data))
	}
	// open keys of every database the batch may touch
	for d := range x.m.DBs {
		if err := x.resolve(d, nil, true); err != nil {
			return err
		}
	}
	c := x.conn(o.Conn)
	send := data
	var tail []byte
	if o.Tail > 0 && o.Tail < len(data) {
		send, tail = data[:len(data)-o.Tail], data[len(data)-o.Tail:]
	}
	parts := Split(send, o.Cuts)
	done, answered := 0, 0
	var pend []byte
	check := func(delivered int) error {
		if err := x.s.Settle(); err != nil {
			return err
		}
		pend = append(pend, c.take()...)
		for len(pend) > 0 {
			r, rest, err := wire.Decode(pend)
			if err != nil {
				return fmt.Errorf("reply %d is not a well-formed RESP value: %v (%q)", answered, err, cut(pend))
			}
			if answered >= len(reqs) || ends[answered] > delivered {
				return fmt.Errorf("reply %s although only %d requests were complete", r, answered)
			}
			if err := x.step(o.Conn, reqs[answered], r); err != nil {
				return fmt.Errorf("request %d %s: %w", answered, wire.CmdString(reqs[answered]), err)
			}
			answered++
			pend = rest
		}
		want := 0
		for want < len(ends) && ends[want] <= delivered {
			want++
		}
		if answered < want {
			_, closed := c.peek()
			return fmt.Errorf("%d complete requests delivered but only %d replies (connection closed: %v)", want, answered, closed)
		}
		if _, closed := c.peek(); closed {
			return fmt.Errorf("the server closed the connection after %d replies", answered)
		}
		return nil
	}
	pause := func() error {
		if o.Ms <= 0 {
			return nil
		}
		x.L["pauses"]++
		time.Sleep(time.Duration(o.Ms) * time.Millisecond)
		for d := range x.m.DBs {
			if err := x.resolve(d, nil, true); err != nil {
				return err
			}
		}
		return nil
	}
	if o.Hold { // the client sends everything before it reads anything
		x.L["held"]++
		c.setHold(true)
		for _, p := range parts {
			c.push(p)
			if o.Slow {
				if err := x.s.Settle(); err != nil {
					return err
				}
			}
		}
		if err := x.s.Settle(); err != nil {
			return err
		}
		c.setHold(false)
		done = len(send)
		if err := check(done); err != nil {
			return err
		}
	} else if o.Slow {
		for i, p := range parts {
			if i > 0 {
				if err := pause(); err != nil {
					return err
				}
			}
			c.push(p)
			done += len(p)
			if err := check(done); err != nil {
				return err
			}
		}
	} else {
		c.push(parts...)
		done = len(send)
		if err := check(done); err != nil {
			return err
		}
	}
	x.L["pipelines"]++
	if len(reqs) > 1 {
		x.L["pipelined-requests"] += len(reqs)
	}
	if len(parts) > 1 {
		x.L["splits"] += len(parts)
	}
	if tail != nil {
		x.L["withheld-tails"]++
		// is the connection ended next?
		if n := x.i + 1; n < len(x.c.Ops) && x.c.Ops[n].Conn == o.Conn && (x.c.Ops[n].K == "x" || x.c.Ops[n].K == "e") {
			x.L["truncated"]++
			return nil
		}
		if err := pause(); err != nil {
			return err
		}
		c.push(tail)
		if err := check(len(data)); err != nil {
			return err
		}
	}
	return nil
}

// size is the number of keys a dump looks at.
func (x *run) size() int {
	n := 0
	for _, d := range x.m.DBs {
		n += max(len(d), len(x.c.Keys))
	}
	return n
}

// dump compares the complete visible state of every database with the model.
func (x *run) dump() error {
	x.L["dumps"]++
	for d := range x.m.DBs {
		if err := x.dumpDB(d); err != nil {
			return fmt.Errorf("state of database %d: %w", d, err)
		}
	}
	return nil
}

func (x *run) dumpDB(d int) error {
	if err := x.resolve(d, nil, true); err != nil {
		return err
	}
	db := x.m.DBs[d]
	db.Purge(now())
	keys := map[string]bool{}
	for _, k := range x.c.Keys {
		keys[string(k)] = true
	}
	for k := range db {
		keys[k] = true
	}
	reqs := [][]string{{"KEYS", "*"}}
	for k := range keys {
		reqs = append(reqs, []string{"TYPE", k}, []string{"TTL", k})
		if e := db[k]; e != nil {
			switch e.K {
			case model.Str:
				reqs = append(reqs, []string{"GET", k})
			case model.List:
				reqs = append(reqs, []string{"LRANGE", k, "0", "-1"}, []string{"LLEN", k})
			case model.Hash:
				reqs = append(reqs, []string{"HGETALL", k}, []string{"HLEN", k})
			case model.Set:
				reqs = append(reqs, []string{"SMEMBERS", k}, []string{"SCARD", k})
			}
		} else {
			reqs = append(reqs, []string{"EXISTS", k})
		}
	}
	pc, err := x.probeConn(d)
	if err != nil {
		return err
	}
	var data []byte
	for _, q := range reqs {
		data = append(data, wire.Encode(q)...)
	}
	pc.push(data)
	if err := x.s.Settle(); err != nil {
		return err
	}
	out := pc.take()
	for _, q := range reqs {
		r, rest, err := wire.Decode(out)
		if err != nil {
			return fmt.Errorf("%s: %v (%q)", wire.CmdString(q), err, cut(out))
		}
		out = rest
		if err := model.Probe(db, q, r, now()); err != nil {
			return fmt.Errorf("%s: got %s: %w", wire.CmdString(q), r, err)
		}
	}
	if len(out) > 0 {
		return fmt.Errorf("surplus output %q", cut(out))
	}
	return nil
}
