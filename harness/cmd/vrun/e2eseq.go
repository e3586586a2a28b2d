package main

import (
	"fmt"
	"strings"
	"time"

	"gredisverif/core"
	"gredisverif/model"
	"gredisverif/wire"
)

// slack (ms): how far from a deadline the outcome counts, and how long a reply
// may take before the time of its execution is too uncertain to judge it.
const slack = 300

// e2eSeq runs a history against the server process and judges the replies and
// the final contents with the reference model, on the real clock.
func (c *ctx) e2eSeq(k *core.Case) error {
	p, err := c.serve(k.Seg, k.Dbs)
	if err != nil {
		return err
	}
	defer p.kill()
	m := model.New(k.Dbs)
	k.N = 0
	conns := map[int]*conn{}
	db := map[int]int{}
	defer func() {
		for _, q := range conns {
			q.Close()
		}
	}()
	now := func() int64 { return time.Now().UnixMilli() }
	// clear lets the deadlines of all keys that are close pass
	clear := func() {
		for again := true; again; {
			again = false
			t := now()
			for _, d := range m.DBs {
				for _, e := range d {
					if e.TTL && t > e.Lo-2*slack && t < e.Hi+slack {
						time.Sleep(time.Duration(e.Hi+slack+1-t) * time.Millisecond)
						again = true
					}
				}
			}
		}
	}
	sure := true
	do := func(n int, args []string) error {
		q := conns[n]
		if q == nil {
			if q, err = p.dial(); err != nil {
				return err
			}
			conns[n] = q
		}
		clear()
		t := now()
		r, err := q.do(args...)
		if err != nil {
			if p.exited() {
				return fmt.Errorf("the server process ended: %s", p.output())
			}
			return err
		}
		if now()-t > slack/2 {
			for _, d := range m.DBs {
				for _, e := range d {
					sure = sure && !e.TTL
				}
			}
			sure = sure && !core.Timed(args)
		}
		if strings.EqualFold(args[0], "select") {
			want, grey := core.SelectWant(args, k.Dbs)
			switch {
			case grey && r.IsErr():
			case want < 0:
				if !r.IsErr() {
					return fmt.Errorf("want an error, got %s", r)
				}
			default:
				if r.K != '+' || r.S != "OK" {
					return fmt.Errorf("want +OK, got %s", r)
				}
				db[n] = want
			}
			return nil
		}
		var inf model.Info
		err = model.Step(m.DBs[db[n]], args, r, now(), &inf)
		if inf.Mutated {
			k.N++ // state changes
		}
		if err != nil && sure {
			return fmt.Errorf("got %s: %w", r, err)
		}
		return nil
	}
	for i, o := range k.Ops {
		if !sure {
			return nil
		}
		switch o.K {
		case "z":
			time.Sleep(time.Duration(o.Ms) * time.Millisecond)
		case "x":
			if q := conns[o.Conn]; q != nil {
				q.Close()
				delete(conns, o.Conn)
				delete(db, o.Conn)
			}
		case "c":
			if err := do(o.Conn, o.Strs()); err != nil {
				return fmt.Errorf("op %d %s: %w", i, o.String(), err)
			}
		}
	}
	const probe = -1
	for d := range m.DBs {
		if err := do(probe, []string{"select", fmt.Sprint(d)}); err != nil {
			return fmt.Errorf("at the end: select %d: %w", d, err)
		}
		reqs := [][]string{{"KEYS", "*"}}
		for key, e := range m.DBs[d] {
			reqs = append(reqs, []string{"TYPE", key}, []string{map[model.Kind]string{model.Str: "GET", model.Hash: "HGETALL", model.Set: "SMEMBERS"}[e.K], key})
			if e.K == model.List {
				reqs[len(reqs)-1] = []string{"LRANGE", key, "0", "-1"}
			}
		}
		for _, q := range reqs {
			if !sure {
				return nil
			}
			if err := do(probe, q); err != nil {
				return fmt.Errorf("at the end: database %d: %s: %w", d, wire.CmdString(q), err)
			}
		}
	}
	return nil
}
