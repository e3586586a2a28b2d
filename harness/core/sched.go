package core

import (
	"math/rand/v2"
	"strconv"
	"strings"
)

// genSched makes a small concurrent program: setup commands, then 2-4 clients
// with a few commands each.
func genSched(c *Case, r *rand.Rand, tier string) {
	c.Kind = "sched"
	c.Seg = one(r, 1, 1, 2, 3, 16)
	c.Dbs = 1
	c.Phase = 0
	c.SchedSeed = r.Uint64()
	c.Scheds = 60
	if tier == "thorough" {
		c.Scheds = 200
	}
	p := &Prof{NKeys: 1, KeyStyle: one(r, "plain", "plain", "collide"), Bin: 0.03, NumStr: 0.3}
	theme := r.IntN(7)
	switch theme {
	case 0: // strings
		p.W = with(weights(4, strCmds), "set", 10, "setnx", 8, "mset", 8, "mget", 8, "append", 6, "setrange", 8, "getrange", 4, "incr", 8, "get", 8, "del", 8, "exists", 4, "rename", 6, "expire", 4, "persist", 3, "ttl", 2, "type", 1)
	case 1: // lists
		p.W = with(weights(4, listCmds), "rpush", 8, "lpop", 8, "rpop", 8, "lmove", 16, "lrange", 8, "del", 6, "rename", 6, "exists", 3, "llen", 4, "type", 2, "expire", 2, "lpushx", 4, "set", 2)
	case 2: // hashes
		p.W = with(weights(4, hashCmds), "hset", 8, "hdel", 10, "hsetnx", 8, "hincrby", 8, "hgetall", 8, "del", 6, "rename", 4, "exists", 3, "type", 2, "expire", 2, "set", 2)
	case 3: // sets
		p.W = with(weights(4, setCmds), "sadd", 8, "srem", 8, "smove", 14, "sunionstore", 10, "sinterstore", 10, "sdiffstore", 10, "sinter", 6, "smembers", 8, "del", 6, "rename", 5, "exists", 3, "type", 2, "expire", 2, "spop", 6)
	case 4: // creation and deletion of one key in all types
		p.W = with(map[string]int{}, "set", 8, "rpush", 8, "sadd", 8, "hset", 8, "del", 14, "exists", 6, "type", 6, "rename", 10, "setnx", 8, "lpop", 6, "spop", 4, "hdel", 5, "expire", 6, "persist", 6, "ttl", 4, "append", 4, "sunionstore", 6, "srem", 4)
		p.Cross = 0.7
	case 5: // multi-key commands
		p.W = with(map[string]int{}, "mset", 10, "mget", 10, "del", 12, "exists", 8, "rename", 12, "lmove", 12, "smove", 12, "sinterstore", 6, "sunionstore", 8, "sdiffstore", 6, "sinter", 5, "sunion", 5, "sdiff", 5, "set", 6, "rpush", 6, "sadd", 6)
		p.Cross = 0.15
		p.NKeys = 2
	default:
		p.W = allTypes()
		p.Cross = 0.3
	}
	p.W["keys"] = 0
	switch c.Prop {
	case "C17":
		p.NKeys = 1 + r.IntN(2)
		p.Bad = 0.15
		c.Seg = one(r, 1, 2, 2, 3, 4)
		for _, m := range []string{"mset", "mget", "del", "exists", "rename", "lmove", "smove", "sinterstore", "sunionstore", "sdiffstore", "sinter", "sunion", "sdiff"} {
			p.W[m] += 5
		}
		if r.IntN(4) == 0 {
			p.W["keys"] = 6
		}
	case "C16":
		p.Bad = 0.03
	case "C19":
		p.NKeys = 1
		p.W["rename"] += 10
		p.W["del"] += 6
		p.Bad = 0
	}
	g := NewGen(r, p, c.Seg)
	c.Keys = Bs(g.Keys())
	cmd := func() Op {
		for {
			o := g.Random()
			if o.Unit != "" {
				continue
			}
			a := o.Strs()
			switch strings.ToLower(a[0]) {
			case "expire", "setex":
				if len(a) > 2 && (a[2] == "0" || strings.HasPrefix(a[2], "-")) {
					continue
				}
			case "set":
				bad := false
				for i, w := range a {
					if i < 3 {
						continue
					}
					if strings.HasSuffix(strings.ToLower(w), "xat") {
						bad = true // absolute times are not meaningful here
					}
				}
				if bad {
					continue
				}
			case "setrange":
				if len(a) > 2 && len(a[2]) > 3 {
					continue
				}
			case "hrandfield", "srandmember":
				if len(a) > 2 && len(a[2]) > 4 {
					continue
				}
			}
			return o
		}
	}
	if c.Prop == "C16" && r.IntN(3) == 0 {
		c.Seg = one(r, 1, 2, 16, 100)
		f := newFocus(r, g.Keys()[:min(len(g.Keys()), 1+r.IntN(3))])
		for _, a := range f.setup() {
			c.Ops = append(c.Ops, Op{K: "c", Setup: true, Args: Bs(a)})
		}
		if r.IntN(3) == 0 && len(g.Keys()) > 1 {
			// a command meets a value that gets another name and is changed there
			from, to := g.Keys()[0], g.Keys()[1]
			f.keys, f.n = []string{from}, 1+r.IntN(3)
			c.Ops = nil
			for _, a := range f.setup() {
				c.Ops = append(c.Ops, Op{K: "c", Setup: true, Args: Bs(a)})
			}
			for i := 1 + r.IntN(2); i > 0; i-- {
				a := f.cmd()
				if r.IntN(2) == 0 {
					a = f.look(from)
				}
				c.Ops = append(c.Ops, Op{K: "c", Conn: 0, Args: Bs(a)})
			}
			c.Ops = append(c.Ops, Op{K: "c", Conn: 1, Args: Bs([]string{"rename", from, to})})
			f.keys = []string{to}
			for i := 1 + r.IntN(3); i > 0; i-- {
				c.Ops = append(c.Ops, Op{K: "c", Conn: 1, Args: Bs(f.change())})
			}
			if r.IntN(4) == 0 {
				c.Ops = append(c.Ops, Op{K: "c", Conn: 1, Args: Bs([]string{"rename", to, from})})
			}
			return
		}
		clients := one(r, 2, 2, 2, 3)
		for k := 0; k < clients; k++ {
			for i := 1 + r.IntN(2); i > 0; i-- {
				c.Ops = append(c.Ops, Op{K: "c", Conn: k, Args: Bs(f.cmd())})
			}
		}
		return
	}
	// setup
	n := 1 + r.IntN(7)
	for i := 0; i < n; i++ {
		o := cmd()
		switch r.IntN(3) {
		case 0:
			o = g.Make(one(r, "set", "rpush", "sadd", "hset"))
			if o.Unit != "" {
				continue
			}
		}
		o.Setup = true
		c.Ops = append(c.Ops, o)
	}
	if r.IntN(3) == 0 { // keys that have expired but were not collected yet
		m := 1 + r.IntN(2)
		for i := 0; i < m; i++ {
			k := g.AnyKey()
			switch r.IntN(3) {
			case 0:
				c.Ops = append(c.Ops, Op{K: "c", Setup: true, Args: Bs([]string{"setex", k, "1", "old"})})
			default:
				mk := []string{"rpush", k, "old1", "old2"}
				if r.IntN(2) == 0 {
					mk = []string{"sadd", k, "old1", "old2"}
				}
				c.Ops = append(c.Ops, Op{K: "c", Setup: true, Args: Bs([]string{"del", k})}, Op{K: "c", Setup: true, Args: Bs(mk)}, Op{K: "c", Setup: true, Args: Bs([]string{"expire", k, "1"})})
			}
		}
		c.Ops = append(c.Ops, Op{K: "z", Setup: true, Ms: 3000})
	}
	clients := one(r, 2, 2, 2, 3, 3, 4)
	max := 3
	if clients > 3 {
		max = 2
	}
	if c.Prop == "C19" {
		clients = one(r, 2, 2, 3)
		c.Ops = append(c.Ops, Op{K: "c", Conn: 0, Args: Bs([]string{"keys", one(r, "*", "*", "*", g.Pattern())})})
		if r.IntN(5) == 0 {
			c.Ops = append(c.Ops, Op{K: "c", Conn: 0, Args: Bs([]string{"keys", "*"})})
		}
		for k := 1; k < clients; k++ {
			for i := 1 + r.IntN(3); i > 0; i-- {
				o := cmd()
				o.Conn = k
				c.Ops = append(c.Ops, o)
			}
		}
		return
	}
	rev := r.IntN(4) == 0
	for k := 0; k < clients; k++ {
		for i := 1 + r.IntN(max); i > 0; i-- {
			o := cmd()
			o.Conn = k
			c.Ops = append(c.Ops, o)
			if rev && k+1 < clients && len(o.Args) > 2 {
				// another client names the same keys the other way round
				a := append([]B(nil), o.Args...)
				switch strings.ToLower(string(a[0])) {
				case "rename", "lmove", "smove":
					a[1], a[2] = a[2], a[1]
				case "del", "exists", "mget", "sinter", "sunion", "sdiff", "sinterstore", "sunionstore", "sdiffstore":
					for x, y := 1, len(a)-1; x < y; x, y = x+1, y-1 {
						a[x], a[y] = a[y], a[x]
					}
				case "mset":
					if len(a) > 4 {
						a[1], a[len(a)-2] = a[len(a)-2], a[1]
					}
				default:
					continue
				}
				c.Ops = append(c.Ops, Op{K: "c", Conn: k + 1, Args: a})
			}
		}
	}
}

var _ = strconv.Itoa
