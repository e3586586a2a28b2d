package racew

import (
	"errors"
	"fmt"
	"net"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"gRedis/config"
	"gRedis/server"

	"gredisverif/core"
	"gredisverif/model"
	"gredisverif/wire"
)

// runPar runs a case of parallel clients on private data.
func runPar(c *core.Case, L map[string]int) error {
	progress.Add(1)
	config.Conf = &config.Config{Host: "127.0.0.1", SegNum: c.Seg, DbNum: max(c.Dbs, 1), LogLevel: "error", LogDir: filepath.Join(job.Scratch, "log")}
	m := server.NewManager(config.Conf)
	var handlers sync.WaitGroup
	var pmu sync.Mutex
	var panics []string
	open := func() *client {
		a, b := net.Pipe()
		handlers.Add(1)
		go func() {
			defer handlers.Done()
			defer func() {
				if p := recover(); p != nil {
					pmu.Lock()
					panics = append(panics, fmt.Sprintf("the server crashed: %v\n%s", p, firstLines(string(debug.Stack()), 30)))
					pmu.Unlock()
				}
			}()
			m.Handle(b)
		}()
		return &client{c: a}
	}
	admin := open()
	for d := 0; d < c.Dbs; d++ {
		for _, a := range [][]string{{"select", strconv.Itoa(d)}, {"set", core.Marker, fmt.Sprint("db", d)}} {
			if r, err := admin.do(a); err != nil || r.K != '+' {
				return fmt.Errorf("setup %s: %s %v", wire.CmdString(a), r, err)
			}
		}
	}
	admin.do([]string{"select", "0"})

	type actor struct {
		ops []core.Op
		m   *model.Model
		db  int
		k   *client
		err error
		L   map[string]int
	}
	actors := map[int]*actor{}
	for _, o := range c.Ops {
		a := actors[o.Conn]
		if a == nil {
			a = &actor{m: model.New(max(c.Dbs, 1)), L: map[string]int{}}
			for d := range a.m.DBs {
				model.Step(a.m.DBs[d], []string{"set", core.Marker, fmt.Sprint("db", d)}, wire.Reply{K: '+', S: "OK"}, 1, nil)
			}
			actors[o.Conn] = a
		}
		a.ops = append(a.ops, o)
	}
	now := time.Now().UnixMilli()
	step := func(a *actor, args []string, r wire.Reply) error {
		a.L["commands"]++
		if strings.EqualFold(args[0], "select") {
			a.L["selects"]++
			switch want, _ := core.SelectWant(args, c.Dbs); {
			case want < 0 && !r.IsErr():
				return fmt.Errorf("%s: want an error, got %s", wire.CmdString(args), r)
			case want >= 0 && (r.K != '+' || r.S != "OK"):
				return fmt.Errorf("%s: want OK, got %s", wire.CmdString(args), r)
			case want >= 0:
				a.db = want
			}
			return nil
		}
		var inf model.Info
		err := model.Step(a.m.DBs[a.db], args, r, now, &inf)
		if inf.Mutated {
			a.L["mutations"]++
		}
		if err != nil {
			return fmt.Errorf("%s in database %d: got %s: %w", wire.CmdString(args), a.db, r, err)
		}
		return nil
	}
	play := func(id int, a *actor) error {
		for i := range a.ops {
			o := &a.ops[i]
			if o.K == "x" {
				if a.k != nil {
					a.k.close()
					a.k, a.db = nil, 0
				}
				continue
			}
			if a.k == nil {
				a.k, a.db = open(), 0
			}
			if o.K == "r" {
				k := a.k
				a.L["noise"]++
				k.c.SetDeadline(time.Now().Add(500 * time.Millisecond))
				done := make(chan bool)
				go func() {
					buf := make([]byte, 4096)
					for {
						if _, err := k.c.Read(buf); err != nil {
							close(done)
							return
						}
					}
				}()
				for _, p := range split([]byte(o.Data), o.Cuts) {
					if _, err := k.c.Write(p); err != nil {
						break
					}
				}
				k.close()
				<-done
				a.k = nil
				continue
			}
			if o.K != "p" || len(o.Batch) == 0 {
				continue
			}
			var data []byte
			var ends []int
			for _, b := range o.Batch {
				data = append(data, wire.Encode(core.Strs(b))...)
				ends = append(ends, len(data))
			}
			last := i+1 < len(a.ops) && a.ops[i+1].K == "x"
			if last && o.Tail > 0 && o.Tail < len(data) {
				data = data[:len(data)-o.Tail]
			}
			k := a.k
			k.c.SetDeadline(time.Now().Add(80 * time.Second))
			werr := make(chan error, 1)
			go func() {
				for _, p := range split(data, o.Cuts) {
					if _, err := k.c.Write(p); err != nil {
						werr <- err
						return
					}
				}
				werr <- nil
			}()
			for j, b := range o.Batch {
				if ends[j] > len(data) {
					break
				}
				args := core.Strs(b)
				r, err := k.next()
				if err != nil {
					return fmt.Errorf("request %s: %w", wire.CmdString(args), err)
				}
				if err := step(a, args, r); err != nil {
					return err
				}
			}
			if len(o.Batch) > 1 {
				a.L["pipelined-requests"] += len(o.Batch)
			}
			if err := <-werr; err != nil {
				return fmt.Errorf("sending: %w", err)
			}
			if len(k.buf) > 0 {
				return fmt.Errorf("more output than replies: %q", k.buf)
			}
		}
		if a.k != nil {
			a.k.close()
		}
		return nil
	}
	var wg sync.WaitGroup
	var gate atomic.Int64
	for id, a := range actors {
		wg.Add(1)
		go func() {
			defer wg.Done()
			gate.Add(1)
			for i := 0; gate.Load() < int64(len(actors)) && i < 1e6; i++ {
			}
			if a.err = play(id, a); a.err != nil && a.k != nil {
				a.k.close()
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(100 * time.Second): // the watchdog reports the hang
		select {}
	}
	pmu.Lock()
	ps := panics
	pmu.Unlock()
	if len(ps) > 0 {
		return fmt.Errorf("%s", ps[0])
	}
	var ids []int
	for id, a := range actors {
		ids = append(ids, id)
		for l, n := range a.L {
			L[l] += n
		}
		if a.L["mutations"] > 0 {
			L["active-clients"]++
		}
	}
	sort.Ints(ids)
	L["transport:"+c.Fault]++
	L["parallel"]++
	for _, id := range ids {
		if err := actors[id].err; err != nil {
			return fmt.Errorf("client %d: %w", id, err)
		}
	}
	// what everybody left behind
	for _, id := range ids {
		a := actors[id]
		if id >= c.N {
			continue
		}
		for d := range a.m.DBs {
			db := a.m.DBs[d]
			if c.Fault == "db" && (d == 0 || (d-1)%c.N != id) {
				continue
			}
			if _, err := admin.do([]string{"select", strconv.Itoa(d)}); err != nil {
				return fmt.Errorf("afterwards: %w", err)
			}
			var reqs [][]string
			if c.Fault == "db" {
				reqs = append(reqs, []string{"keys", "*"})
			}
			for k, e := range db {
				reqs = append(reqs, []string{"type", k}, []string{"ttl", k})
				switch e.K {
				case model.Str:
					reqs = append(reqs, []string{"get", k})
				case model.List:
					reqs = append(reqs, []string{"lrange", k, "0", "-1"}, []string{"llen", k})
				case model.Hash:
					reqs = append(reqs, []string{"hgetall", k}, []string{"hlen", k})
				default:
					reqs = append(reqs, []string{"smembers", k}, []string{"scard", k})
				}
			}
			for _, q := range reqs {
				r, err := admin.do(q)
				if err != nil {
					return fmt.Errorf("afterwards %s: %w", wire.CmdString(q), err)
				}
				if err := model.Step(db, q, r, now, nil); err != nil {
					return fmt.Errorf("data of client %d in database %d afterwards: %s: got %s: %w", id, d, wire.CmdString(q), r, err)
				}
			}
		}
	}
	admin.close()
	handlers.Wait()
	return nil
}

func split(data []byte, cuts []int) [][]byte {
	cs := append([]int(nil), cuts...)
	sort.Ints(cs)
	var out [][]byte
	last := 0
	for _, x := range append(cs, len(data)) {
		if x > last && x <= len(data) {
			out = append(out, data[last:x])
			last = x
		}
	}
	return out
}

// next takes one reply.
func (k *client) next() (wire.Reply, error) {
	if k.tmp == nil {
		k.tmp = make([]byte, 65536)
	}
	tmp := k.tmp
	var sc wire.Scanner
	for {
		if sc.Ready(k.buf) {
			r, rest, err := wire.Decode(k.buf)
			if err == nil {
				k.buf = rest
				return r, nil
			}
			if !errors.Is(err, wire.ErrIncomplete) {
				return r, fmt.Errorf("malformed reply: %w (%q)", err, firstBytes(k.buf))
			}
		}
		n, err := k.c.Read(tmp)
		k.buf = append(k.buf, tmp[:n]...)
		if err != nil {
			return wire.Reply{}, fmt.Errorf("no reply: %w (buffered %q)", err, firstBytes(k.buf))
		}
	}
}

func firstBytes(b []byte) []byte {
	if len(b) > 300 {
		b = b[:300]
	}
	return b
}
