package core

import (
	"fmt"
	"math/rand/v2"
	"strings"
)

// Chunk is the unit of the APPEND and SETRANGE values of race cases.
func Chunk(ch byte, n int) string { return strings.Repeat(string(ch), n) }

const TornLen = 512
const AppendLen = 16

// genRace makes a parallel program. What a key is used for is in its name:
//
//	p<i>:*  client i only        cnt:*  counters             log:*  appended lists
//	bag:*   conserved sets       ring:* conserved lists      eq:*   written together
//	tor:*   rewritten in place   app:*  appended strings     nx:*   made once
//	sh:*    anything             old:*  expired keys
func genRace(c *Case, r *rand.Rand, tier string) {
	c.Kind = "race"
	c.Seg = one(r, 1, 1, 2, 3, 16, 100)
	c.Dbs = one(r, 1, 1, 3)
	c.N = 3 + r.IntN(8)
	c.SchedSeed = r.Uint64()
	c.Fault = one(r, "direct", "direct", "conn")
	per := 20 + r.IntN(80)
	add := func(k int, a ...string) { c.Ops = append(c.Ops, Op{K: "c", Conn: k, Args: Bs(a)}) }
	setup := func(a ...string) { c.Ops = append(c.Ops, Op{K: "c", Setup: true, Args: Bs(a)}) }

	if r.IntN(3) == 0 { // one structure, few commands
		c.Seg = one(r, 1, 16, 100, 100)
		keys := []string{"sh:0", "sh:1", "sh:2"}
		f := newFocus(r, keys[:1+r.IntN(3)])
		for _, a := range f.setup() {
			setup(a...)
		}
		for k := 0; k < c.N; k++ {
			var pool [][]string
			for i := 2 + r.IntN(6); i > 0; i-- {
				pool = append(pool, f.cmd())
			}
			for i := 0; i < per; i++ {
				if r.IntN(3) == 0 {
					add(k, f.cmd()...)
				} else {
					add(k, pool[r.IntN(len(pool))]...)
				}
			}
		}
		return
	}

	noTTL := func(w map[string]int) map[string]int {
		for _, x := range []string{"expire", "persist", "ttl", "setex", "set", "keys"} {
			delete(w, x)
		}
		return w
	}
	// a theme makes clashes on the same structure likely
	theme := r.IntN(8)
	var gens []*Gen
	for k := 0; k < c.N; k++ {
		gens = append(gens, NewGen(r, &Prof{W: noTTL(allTypes()), NKeys: 1, Cross: 0.1, Bin: 0.05, NumStr: 0.3, KeyStyle: "plain"}, c.Seg))
	}
	sw := allTypes()
	switch r.IntN(6) {
	case 0:
		sw = weights(4, strCmds)
	case 1:
		sw = weights(4, listCmds)
	case 2:
		sw = weights(4, hashCmds)
	case 3:
		sw = weights(4, setCmds)
	}
	for _, x := range []string{"del", "exists", "rename", "type", "expire", "persist", "ttl", "keys"} {
		sw[x] = 1
	}
	sg := NewGen(r, &Prof{W: sw, NKeys: 1, Cross: 0.05, Bad: 0.03, Bin: 0.05, BulkP: 0.05, BulkMax: 40, NumStr: 0.5, KeyStyle: "plain"}, c.Seg)

	old := r.IntN(10) == 0
	if old {
		for i := 0; i < 12; i++ {
			k := fmt.Sprintf("old:%d", i)
			switch i % 3 {
			case 0:
				setup("setex", k, "1", "v")
			case 1:
				setup("rpush", k, "a", "b")
				setup("expire", k, "1")
			default:
				setup("sadd", k, "a", "b")
				setup("expire", k, "1")
			}
		}
		c.Ops = append(c.Ops, Op{K: "z", Setup: true, Ms: 2100})
	}
	for i := 0; i < 20; i++ {
		setup("rpush", "ring:0", fmt.Sprintf("r%d", i))
		setup("sadd", "bag:0", fmt.Sprintf("b%d", i))
	}
	setup("set", "tor:0", Chunk('a', TornLen))
	setup("mset", "eq:0", "0", "eq:1", "0", "eq:2", "0")
	for i := 0; i < 3; i++ {
		setup(sg.fixed(one(r, "set", "rpush", "sadd", "hset"))...)
	}

	for i := 0; i < per; i++ {
		for k := 0; k < c.N; k++ {
			w := r.IntN(14)
			if theme < 7 && r.IntN(2) == 0 {
				w = 2 + theme
			}
			tag := fmt.Sprintf("c%d-%d", k, i)
			switch w {
			case 0, 1: // private
				g := gens[k]
				a := g.plain()
				known := g.Keys()
				for x := 1; x < len(a); x++ {
					for _, kk := range known {
						if a[x] == kk {
							a[x] = fmt.Sprintf("p%d:%s", k, kk)
							break
						}
					}
				}
				add(k, a...)
			case 2:
				n := fmt.Sprint(1 + r.IntN(9))
				switch r.IntN(7) {
				case 0, 1:
					add(k, "incr", "cnt:0")
				case 2:
					add(k, "incrby", "cnt:0", n)
				case 3:
					add(k, "decrby", "cnt:0", n)
				case 4:
					add(k, "decr", "cnt:0")
				case 5:
					add(k, "hincrby", "cnt:h", fmt.Sprint("f", r.IntN(2)), n)
				default:
					add(k, "get", "cnt:0")
				}
			case 3:
				switch r.IntN(5) {
				case 0, 1:
					add(k, "rpush", "log:0", tag)
				case 2:
					add(k, "rpush", "log:1", tag, tag+"b")
				case 3:
					add(k, "lrange", one(r, "log:0", "log:1"), "0", "-1")
				default:
					add(k, one(r, "llen", "lindex", "lpos"), "log:0")
				}
			case 4:
				switch r.IntN(7) {
				case 0, 1:
					add(k, "sadd", fmt.Sprint("bag:", r.IntN(2)), tag)
				case 2:
					add(k, "spop", fmt.Sprint("bag:", r.IntN(2)))
				case 3:
					add(k, "smove", "bag:0", "bag:1", fmt.Sprintf("b%d", r.IntN(20)))
				case 4:
					add(k, "smove", "bag:1", "bag:0", fmt.Sprintf("b%d", r.IntN(20)))
				case 5:
					add(k, one(r, "sinter", "sunion", "sdiff"), "bag:0", "bag:1")
				default:
					add(k, one(r, "smembers", "srandmember", "scard"), "bag:0")
				}
			case 5:
				switch r.IntN(7) {
				case 0:
					add(k, "lmove", "ring:0", "ring:1", one(r, "left", "right"), one(r, "left", "right"))
				case 1:
					add(k, "lmove", "ring:1", "ring:0", one(r, "left", "right"), one(r, "left", "right"))
				case 2:
					add(k, "lmove", "ring:0", "ring:0", "left", "right")
				case 3:
					add(k, one(r, "lpop", "rpop"), fmt.Sprint("ring:", r.IntN(2)))
				case 4:
					add(k, one(r, "lpush", "rpush"), fmt.Sprint("ring:", r.IntN(2)), tag)
				case 5:
					add(k, "lrange", fmt.Sprint("ring:", r.IntN(2)), "0", "-1")
				default:
					add(k, one(r, "llen", "exists", "type"), fmt.Sprint("ring:", r.IntN(2)))
				}
			case 6:
				switch r.IntN(4) {
				case 0:
					add(k, "mset", "eq:0", tag, "eq:1", tag, "eq:2", tag)
				case 1:
					add(k, "mset", "eq:2", tag, "eq:1", tag, "eq:0", tag)
				case 2:
					add(k, "mget", "eq:0", "eq:1", "eq:2")
				default:
					add(k, "mget", "eq:2", "eq:0")
				}
			case 7:
				ch := byte('a' + r.IntN(20))
				switch r.IntN(5) {
				case 0:
					add(k, "setrange", "tor:0", "0", Chunk(ch, TornLen))
				case 1:
					add(k, "set", "tor:0", Chunk(ch, TornLen))
				case 2:
					add(k, "getrange", "tor:0", "0", "-1")
				default:
					add(k, "get", "tor:0")
				}
			case 8:
				switch r.IntN(5) {
				case 0, 1:
					add(k, "append", "app:0", Chunk(byte('a'+k%20), AppendLen))
				case 2:
					add(k, "get", "app:0")
				case 3:
					add(k, "strlen", "app:0")
				default:
					add(k, one(r, "setnx", "hsetnx"), fmt.Sprint("nx:", r.IntN(8)), tag)
				}
			case 9:
				if old {
					kk := fmt.Sprint("old:", r.IntN(12))
					switch r.IntN(6) {
					case 0:
						add(k, "get", kk)
					case 1:
						add(k, "llen", kk)
					case 2:
						add(k, "del", kk)
					case 3:
						add(k, "exists", kk)
					case 4:
						add(k, "keys", "old:*")
					default:
						add(k, "scard", kk)
					}
					continue
				}
				fallthrough
			default:
				a := sg.fixed("")
				add(k, a...)
			}
		}
	}
	// hsetnx has a field
	for i := range c.Ops {
		a := c.Ops[i].Args
		if len(a) == 3 && a[0] == "hsetnx" && strings.HasPrefix(string(a[1]), "nx:") {
			c.Ops[i].Args = []B{"hsetnx", "nx:h", B("f" + string(a[1][3:])), a[2]}
		}
		if len(a) == 2 && (a[0] == "lindex" || a[0] == "lpos") {
			c.Ops[i].Args = append(a, "0")
		}
	}
}

// plain generates a command without time arguments.
func (g *Gen) plain() []string {
	for {
		o := g.Random()
		a := o.Strs()
		if o.Unit != "" || len(a) == 0 {
			continue
		}
		big := false
		for _, x := range a {
			if len(x) > 4 && (x[0] == '-' || x[0] >= '0' && x[0] <= '9') {
				big = true // sizes and counts stay small here
			}
		}
		if big {
			continue
		}
		return a
	}
}

// fixed generates a command over the keys shared by everybody.
func (g *Gen) fixed(cmd string) []string {
	var a []string
	if cmd == "" {
		a = g.plain()
	} else {
		for a == nil {
			o := g.Make(cmd)
			if o.Unit == "" && len(o.Args) > 1 {
				a = o.Strs()
			}
		}
	}
	for x := 1; x < len(a); x++ {
		for _, kk := range g.Keys() {
			if a[x] == kk {
				a[x] = "sh:" + kk
				break
			}
		}
	}
	return a
}
