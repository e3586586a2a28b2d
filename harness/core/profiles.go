package core

import (
	"fmt"
	"math/rand/v2"
	"strconv"
	"strings"
)

var (
	keyCmds  = []string{"del", "exists", "keys", "type", "ttl", "persist", "expire", "rename"}
	strCmds  = []string{"set", "get", "getrange", "setrange", "mget", "mset", "setex", "setnx", "strlen", "append", "incr", "incrby", "decr", "decrby", "incrbyfloat"}
	hashCmds = []string{"hset", "hmset", "hsetnx", "hdel", "hincrby", "hincrbyfloat", "hget", "hmget", "hgetall", "hkeys", "hvals", "hlen", "hexists", "hstrlen", "hrandfield"}
	listCmds = []string{"lpush", "rpush", "lpushx", "rpushx", "lpop", "rpop", "lindex", "linsert", "llen", "lmove", "lpos", "lrange", "lrem", "lset", "ltrim"}
	setCmds  = []string{"sadd", "srem", "sismember", "scard", "smembers", "smove", "spop", "srandmember", "sinter", "sunion", "sdiff", "sinterstore", "sunionstore", "sdiffstore"}
)

func weights(w int, groups ...[]string) map[string]int {
	m := map[string]int{}
	for _, g := range groups {
		for _, c := range g {
			m[c] = w
		}
	}
	return m
}

func with(m map[string]int, kv ...any) map[string]int {
	for i := 0; i < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1].(int)
	}
	return m
}

// makers: commands that create a value of each type
func allTypes() map[string]int {
	return with(weights(4, keyCmds, strCmds, hashCmds, listCmds, setCmds),
		"set", 10, "lpush", 8, "rpush", 8, "hset", 10, "sadd", 12, "keys", 3, "del", 5)
}

var segChoices = []int{1, 2, 3, 7, 16, 100}

func one[T any](r *rand.Rand, l ...T) T { return l[r.IntN(len(l))] }

// Generate builds case number index of a property.
func Generate(prop string, seed uint64, index int64, tier string) *Case {
	r := Rand(prop, seed, index)
	c := &Case{Prop: prop, Seed: seed, Index: index, Kind: "seq", Seg: one(r, segChoices...), Dbs: 2}
	if r.IntN(2) == 0 {
		c.Phase = int64(r.IntN(1000))
	}
	switch prop {
	case "C03":
		genFuzz(c, r)
		return c
	case "C16", "C17", "C19":
		genSched(c, r, tier)
		return c
	case "C18":
		genRace(c, r, tier)
		return c
	case "C20":
		genFault(c, r)
		return c
	case "C24":
		genConfig(c, r)
		return c
	case "C14":
		genGlob(c, r)
		return c
	case "C27":
		genLog(c, r)
		return c
	case "C22":
		if r.IntN(3) == 0 {
			genFreq(c, r)
			return c
		}
	case "C02":
		genPipe(c, r)
		return c
	}
	p := profile(prop, r, c, tier)
	g := NewGen(r, p, c.Seg)
	c.Ops = g.History()
	if t := map[string]byte{"C06": 'l', "C07": 'h', "C08": 't', "C22": "ht"[r.IntN(2)]}[prop]; t != 0 && r.IntN(800) == 0 {
		c.Ops = g.huge(t)
	}
	c.Keys = Bs(g.Keys())
	c.Each = p.Each
	if prop == "C01" && r.IntN(3) == 0 {
		c.Ops = g.sprinkleCuts(c.Ops)
	}
	if prop == "C23" {
		c.Kind = "segs"
		n := 3 + r.IntN(3)
		all := []int{1, 2, 3, 5, 7, 10, 16, 31, 64, 100, 127, 128, 255, 256, 1000, 1024}
		r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		c.Segs = append(c.Segs, all[:n]...)
		if r.IntN(100) == 0 {
			c.Segs[0] = one(r, 65535, 65536, 65537)
			c.Dbs = 1
		}
		c.N = r.IntN(c.Dbs)
	}
	return c
}

func (g *Gen) sprinkleCuts(ops []Op) []Op {
	for i := range ops {
		if ops[i].K != "c" || g.n(3) > 0 {
			continue
		}
		n := 0
		for _, a := range ops[i].Args {
			n += len(a) + 6
		}
		for j := 1 + g.n(5); j > 0; j-- {
			ops[i].Cuts = append(ops[i].Cuts, 1+g.n(n+5))
		}
	}
	return ops
}

func profile(prop string, r *rand.Rand, c *Case, tier string) *Prof {
	p := &Prof{Min: 4, Max: 40, LongP: 0.1, LongMax: 150, KeyStyle: "mixed", NKeys: 2, Bin: 0.1, CaseP: 0.1, BulkMax: 60}
	if tier == "thorough" {
		p.LongP, p.LongMax = 0.2, 400
	}
	switch prop {
	case "C01":
		p.W = with(weights(4, strCmds, hashCmds, listCmds, setCmds), "keys", 6, "rename", 4, "del", 2, "exists", 4, "type", 3, "set", 14, "get", 12, "mget", 8,
			"hset", 12, "rpush", 10, "lrange", 8, "sadd", 12, "smembers", 6, "hgetall", 6, "incr", 1, "decr", 1, "incrby", 1, "decrby", 1, "incrbyfloat", 1, "hincrby", 1, "hincrbyfloat", 1, "setex", 1, "ping", 2)
		p.Bin, p.Big, p.KeyStyle, p.NKeys = 0.75, 0.07, one(r, "weird", "near", "near", "weird"), 3
		p.Max, p.LongP = 30, 0.05
		p.Dump = 0.02
		switch r.IntN(8) {
		case 0:
			p.KeyStyle, p.Big, p.NKeys = "long", 0.01, one(r, 1, 2, 3)
		case 1:
			p.LongVal, p.Big, p.Bin = true, 0.01, 0.2
		}
		p.Scene, p.Scenes = 0.004, "w"
	case "C04":
		p.W = allTypes()
		p.W["ping"] = 10
		p.Bad, p.Cross, p.Bin, p.KeyStyle, p.CaseP = 0.4, 0.2, 0.5, "weird", 0.3
		p.BulkP = 0.02
		p.Sleep = 0.02
	case "C05":
		p.W = with(weights(8, strCmds), "set", 30, "mset", 8, "del", 4, "type", 2, "exists", 3, "expire", 3, "ttl", 4, "lpush", 2, "sadd", 1, "hset", 1, "rename", 2, "persist", 1)
		p.NumStr, p.Cross, p.Dump, p.Sleep, p.Bad = 0.3, 0.06, 0.04, 0.03, 0.03
		p.NKeys = one(r, 1, 2, 3)
		if r.IntN(15) == 0 {
			p.Big = 0.05
		}
	case "C06":
		p.W = with(weights(8, listCmds), "rpush", 20, "lpush", 16, "lrange", 12, "del", 2, "expire", 1, "set", 1, "type", 1, "rename", 2, "exists", 1)
		p.Cross, p.Dump, p.Bad, p.BulkP, p.BulkMax = 0.03, 0.05, 0.02, 0.15, one(r, 10, 40, 200)
		p.NKeys = one(r, 1, 1, 2)
		if r.IntN(40) == 0 {
			p.BulkMax = 3000
		}
	case "C07":
		p.W = with(weights(8, hashCmds), "hset", 20, "hdel", 12, "del", 2, "expire", 1, "set", 1, "type", 1, "rename", 2)
		p.NumStr, p.Cross, p.Dump, p.Bad, p.BulkP, p.BulkMax = 0.3, 0.03, 0.05, 0.02, 0.15, one(r, 10, 10, 40, 40, 300, 300, 1500)
		p.NKeys = one(r, 1, 1, 2)
	case "C08":
		p.W = with(weights(8, setCmds), "sadd", 40, "srem", 10, "del", 2, "expire", 1, "set", 1, "type", 1, "rename", 2, "ttl", 1)
		p.Cross, p.Dump, p.Bad, p.BulkP, p.BulkMax = 0.04, 0.05, 0.02, 0.12, one(r, 10, 10, 40, 40, 300, 300, 1500)
		p.NKeys = one(r, 1, 2, 3)
	case "C09":
		p.W = with(weights(2, strCmds, hashCmds, listCmds, setCmds), "del", 14, "exists", 14, "keys", 12, "type", 14, "rename", 16, "set", 8, "rpush", 8, "hset", 8, "sadd", 8,
			"lpop", 5, "spop", 5, "hdel", 5, "srem", 5, "setnx", 4, "expire", 3)
		p.Cross, p.Sleep, p.Bad, p.Dump = 0.15, 0.03, 0.02, 0.03
		p.NKeys = one(r, 1, 2)
	case "C10":
		p.W = allTypes()
		p.W = with(p.W, "ttl", 12, "expire", 14, "setex", 8, "set", 14, "rename", 6, "keys", 5, "exists", 6, "persist", 5, "lmove", 6, "smove", 6, "sinterstore", 6, "sdiff", 6, "mget", 6)
		p.TTL, p.Sleep, p.Cross, p.Bad = 0.3, 0.2, 0.1, 0.01
		p.NKeys = one(r, 1, 2)
	case "C11":
		p.W = allTypes()
		p.W = with(p.W, "persist", 10, "rename", 12, "sunionstore", 8, "sdiffstore", 8, "sinterstore", 8, "mset", 10, "set", 20, "setnx", 8, "ttl", 2, "keys", 1)
		p.TTL, p.Sleep, p.Cross, p.Bad, p.Each = 0.25, 0.06, 0.1, 0.06, true
		p.NKeys = 1 + r.IntN(2)
		p.Max = 25
	case "C12":
		p.W = allTypes()
		p.W = with(p.W, "sunionstore", 8, "sdiffstore", 8, "sinterstore", 8, "lmove", 8, "smove", 8, "mset", 8, "setrange", 6, "lset", 6, "linsert", 6, "keys", 1)
		p.Bad, p.Cross, p.TTL, p.Sleep, p.Each, p.NumStr = 0.4, 0.35, 0.06, 0.02, true, 0.3
		p.NKeys = 1 + r.IntN(2)
		p.Max = 25
	case "C13":
		p.W = with(weights(8, hashCmds, listCmds, setCmds), "type", 4, "exists", 6, "keys", 4, "set", 6, "get", 2, "expire", 6, "ttl", 4, "rename", 4, "append", 3, "del", 1, "setnx", 3,
			"lpop", 20, "rpop", 16, "spop", 16, "srem", 16, "hdel", 16, "ltrim", 12, "lrem", 12, "smove", 14, "lmove", 14, "sinterstore", 12, "sdiffstore", 12,
			"rpush", 16, "lpush", 10, "sadd", 20, "hset", 16)
		p.Cross, p.Bad, p.Each = 0.12, 0.08, true
		p.NKeys = 1
		p.Max = 25
	case "C15":
		c.Dbs = one(r, 1, 2, 3, 4, 12, 16, 17, 20, 33, 64)
		p.W = allTypes()
		if r.IntN(200) == 0 { // more than a byte can count
			c.Dbs = one(r, 255, 256, 257, 300)
			c.Seg = one(r, 1, 2)
		}
		p.Conns, p.Dbs, p.SelectP, p.CloseP = 1+r.IntN(4), c.Dbs, 0.25, 0.04
		p.NKeys, p.Dump, p.Cross, p.TTL, p.Sleep = 1, 0.03, 0.1, 0.04, 0.02
	case "C21":
		p.W = with(weights(12, []string{"incr", "incrby", "decr", "decrby", "incrbyfloat", "hincrby", "hincrbyfloat"}),
			"set", 14, "hset", 10, "get", 6, "hget", 4, "append", 2, "del", 3, "hdel", 2, "setrange", 1, "rpush", 1)
		p.NumStr, p.Cross, p.Dump, p.Bad, p.Bin = 0.9, 0.03, 0.08, 0.04, 0
		p.NKeys = 1
	case "C22":
		p.W = with(weights(20, []string{"spop", "srandmember", "hrandfield"}), "sadd", 20, "hset", 20, "srem", 4, "hdel", 4, "smembers", 4, "hgetall", 4, "del", 1)
		p.Cross, p.Dump, p.Bad, p.BulkP, p.BulkMax = 0.02, 0.1, 0.02, 0.2, one(r, 6, 20, 100, 400)
		p.NKeys = 1
		p.Bin = 0.2
	case "C23":
		p.W = allTypes()
		p.KeyStyle, p.NKeys, p.TTL, p.Sleep, p.Cross, p.Dump = "mixed", 2+r.IntN(3), 0.06, 0.04, 0.08, 0.02
		c.Dbs = 1 + r.IntN(4)
		p.Max = 40
	case "C25":
		p.W = allTypes()
		p.W = with(p.W, "rename", 16, "lmove", 14, "smove", 12, "sunionstore", 12, "sdiffstore", 10, "sinterstore", 10, "append", 12, "setrange", 12, "mset", 8,
			"lset", 8, "hset", 12, "srem", 8, "del", 6, "keys", 1, "expire", 6, "persist", 4)
		p.Each, p.TTL, p.Cross = true, 0.08, 0.12
		p.NKeys = 2
		p.Max = 30
	default:
		panic("no profile for " + prop)
	}
	switch prop {
	case "C05", "C06", "C07", "C08":
		p.Scene, p.Scenes = 0.02, "ddttttxxw"
	case "C09":
		p.Scene, p.Scenes = 0.05, "ddddddttxxmmw"
	case "C10":
		p.Scene, p.Scenes = 0.12, "xxxxtd"
		if r.IntN(1500) == 0 {
			p.Scene, p.Scenes, p.Dump = 0.05, "v", 0.001
		}
	case "C11":
		p.Scene, p.Scenes = 0.12, "dddtttx"
		if r.IntN(3000) == 0 {
			p.Scene, p.Scenes, p.Dump = 0.04, "v", 0.001
		}
	case "C12":
		p.Scene, p.Scenes = 0.05, "ttdx"
	case "C13":
		p.Scene, p.Scenes = 0.12, "dddddx"
	case "C23":
		p.Scene, p.Scenes = 0.03, "dtxm"
	case "C25", "C15":
		p.Scene, p.Scenes = 0.03, "dtx"
		if r.IntN(30) == 0 {
			p.Scenes = "m"
		}
	}
	return p
}

// ---------------------------------------------------------------- C02

func genPipe(c *Case, r *rand.Rand) {
	p := &Prof{KeyStyle: one(r, "plain", "weird"), NKeys: 2, Bin: 0.3, Big: 0.02, Bad: 0.15, Cross: 0.1, CaseP: 0.2, BulkP: 0.02, BulkMax: 100}
	p.W = allTypes()
	p.W["ping"] = 10
	g := NewGen(r, p, c.Seg)
	if r.IntN(20) == 0 {
		p.Big = 0.2
	}
	batches := 1 + r.IntN(6)
	for b := 0; b < batches; b++ {
		var o Op
		o.K = "p"
		o.Conn = r.IntN(2)
		n := 1 + r.IntN(12)
		if r.IntN(15) == 0 {
			n = 50 + r.IntN(400)
		}
		tiny := r.IntN(300) == 0
		if tiny { // a very long pipeline
			n = 1000 + r.IntN(5000)
			if r.IntN(8) == 0 {
				n = 21000 + r.IntN(50000)
			}
		}
		o.Hold = r.IntN(8) == 0 || tiny && r.IntN(2) == 0
		total := 0
		for i := 0; i < n; i++ {
			var args []B
			if tiny && r.IntN(20) > 0 {
				args = Bs(one(r, []string{"ping"}, []string{"ping", strconv.Itoa(i)}, []string{"incr", "n"}, []string{"get", "n"}, []string{"set", "n", strconv.Itoa(i)}))
			} else if r.IntN(12) == 0 {
				args = Bs([]string{"select", strconv.Itoa(r.IntN(3))})
			} else {
				x := g.Random()
				if x.Unit != "" {
					x.Args = Bs([]string{"ping"})
				}
				args = x.Args
			}
			o.Batch = append(o.Batch, args)
			total += 6
			for _, a := range args {
				total += len(a) + 6
			}
		}
		switch r.IntN(6) {
		case 0: // one piece
		case 1: // every byte
			if total < 3000 {
				for i := 1; i < total; i++ {
					o.Cuts = append(o.Cuts, i)
				}
			}
		case 2: // near multiples of the usual buffer sizes
			for i := 4096; i < total; i += 4096 {
				o.Cuts = append(o.Cuts, i-1+r.IntN(3))
			}
			fallthrough
		default:
			for i := r.IntN(12); i > 0; i-- {
				o.Cuts = append(o.Cuts, 1+r.IntN(total))
			}
		}
		o.Slow = r.IntN(2) == 0 && len(o.Cuts) < 400
		if r.IntN(5) == 0 {
			o.Tail = 1 + r.IntN(30)
		}
		if r.IntN(4) == 0 { // time passes between the parts
			o.Ms = one(r, int64(1), 50, 1000, 6000, 31000, 130000, 4000000)
		}
		if r.IntN(8) == 0 { // an idle while
			c.Ops = append(c.Ops, Op{K: "z", Ms: one(r, int64(900), 5100, 61000, 301000, 3700000)})
		}
		c.Ops = append(c.Ops, o)
		switch {
		case o.Tail > 0 && r.IntN(2) == 0:
			// the connection ends inside the request
			c.Ops = append(c.Ops, Op{K: one(r, "x", "e"), Conn: o.Conn})
		case r.IntN(10) == 0:
			c.Ops = append(c.Ops, Op{K: "e", Conn: o.Conn})
		}
	}
	c.Keys = Bs(g.Keys())
	c.Dbs = 3
}

// ---------------------------------------------------------------- C14

func genGlob(c *Case, r *rand.Rand) {
	p := &Prof{NKeys: 1}
	p.W = map[string]int{"keys": 1}
	g := NewGen(r, p, c.Seg)
	alpha := one(r, "ab", "abc", "a-]", "ab^-", "a*?b", "abc[]", "xyz", "\x00\xffa", "\\ab", "aZ1 ", "a\r\nb", "é!-b")
	word := func(max int) string {
		n := r.IntN(max + 1)
		b := make([]byte, n)
		for i := range b {
			b[i] = alpha[r.IntN(len(alpha))]
		}
		return string(b)
	}
	seen := map[string]bool{}
	var keys []string
	add := func(k string) {
		if !seen[k] {
			seen[k] = true
			keys = append(keys, k)
			switch r.IntN(4) {
			case 0:
				c.Ops = append(c.Ops, Op{K: "c", Args: Bs([]string{"rpush", k, "x"})})
			case 1:
				c.Ops = append(c.Ops, Op{K: "c", Args: Bs([]string{"sadd", k, "x"})})
			default:
				c.Ops = append(c.Ops, Op{K: "c", Args: Bs([]string{"set", k, "x"})})
			}
		}
	}
	for i := 1 + r.IntN(25); i > 0; i-- {
		add(word(6))
	}
	if r.IntN(200) == 0 { // a great many
		a := []string{"mset"}
		for i := one(r, 300, 300, 700, 1100, 3100) + r.IntN(30); i > 0; i-- {
			k := word(2) + strconv.Itoa(i)
			if !seen[k] {
				seen[k] = true
				keys = append(keys, k)
				a = append(a, k, "x")
			}
		}
		c.Ops = append(c.Ops, Op{K: "c", Args: Bs(a)}, Op{K: "c", Args: Bs([]string{"keys", "*"})}, Op{K: "c", Args: Bs([]string{"keys", "*[0-4]"})})
	}
	if r.IntN(4) == 0 {
		for i := 0; i < 40; i++ {
			add(word(10))
		}
	}
	hard := r.IntN(12) == 0
	if hard {
		add(strings.Repeat("a", 40+r.IntN(60)))
		add(strings.Repeat("ab", 30) + "c")
	}
	var long []string
	if r.IntN(4) == 0 {
		al := alpha[:1+r.IntN(2)]
		for i := 2 + r.IntN(6); i > 0; i-- {
			b := make([]byte, 8+r.IntN(30))
			for j := range b {
				b[j] = al[r.IntN(len(al))]
				if r.IntN(40) == 0 {
					b[j] = 'q'
				}
			}
			add(string(b))
			long = append(long, string(b))
		}
	}
	// a pattern made from a long key
	derived := func() string {
		k := long[r.IntN(len(long))]
		if r.IntN(2) == 0 {
			k = k[r.IntN(len(k)):]
		}
		var b strings.Builder
		if r.IntN(2) == 0 {
			b.WriteByte('*')
		}
		p := 2 + r.IntN(20)
		for i := 0; i < len(k); i++ {
			x := k[i]
			lit := x
			if strings.IndexByte("]^-\\[*?", x) >= 0 {
				lit = 'b'
			}
			if r.IntN(p) > 0 {
				b.WriteByte(x)
				continue
			}
			switch r.IntN(7) {
			case 0:
				b.WriteByte('?')
			case 1:
				b.WriteString("[" + string([]byte{lit}) + "]")
			case 2:
				b.WriteString("[^" + string([]byte{lit + 1}) + "]")
			case 3:
				b.WriteString("[" + string([]byte{lit, lit + 1}) + "]")
			case 4:
				b.WriteByte('*')
			case 5:
				b.WriteByte('*')
				i += r.IntN(4)
			default:
				b.WriteString("*" + string([]byte{x}))
			}
		}
		if r.IntN(4) == 0 {
			b.WriteByte('*')
		}
		return b.String()
	}
	pat := func() string {
		if long != nil && r.IntN(2) == 0 {
			return derived()
		}
		switch r.IntN(10) {
		case 0, 1:
			return g.PatternOf(keys[r.IntN(len(keys))])
		case 2: // malformed
			return one(r, "[", "[a", "[^", "[^a", "a[", "*[", "[a-", "[a-]", "[]", "[^]", "]", "[]a]", "[--a]", "\\", "a\\", "[\\", "[a\\", "[z-a]", "**[", "?[", "[[", "[[a]", "[a]]") + one(r, "", word(2), "*")
		case 3: // random bytes of the grammar
			n := r.IntN(9)
			b := make([]byte, n)
			for i := range b {
				b[i] = "[]^-*?\\abc"[r.IntN(10)]
			}
			return string(b)
		}
		var b strings.Builder
		for i := r.IntN(7); i >= 0; i-- {
			switch r.IntN(8) {
			case 0, 1:
				b.WriteByte('*')
			case 2:
				b.WriteByte('?')
			case 3, 4:
				b.WriteByte('[')
				if r.IntN(3) == 0 {
					b.WriteByte('^')
				}
				for j := 1 + r.IntN(3); j > 0; j-- {
					x := alpha[r.IntN(len(alpha))]
					if x == ']' || x == '^' || x == '-' || x == '\\' || x == '[' {
						x = 'b'
					}
					b.WriteByte(x)
					if r.IntN(3) == 0 {
						b.WriteByte('-')
						b.WriteByte(one(r, x, x, 'z', 'c', x+1))
					}
				}
				b.WriteByte(']')
			default:
				x := alpha[r.IntN(len(alpha))]
				b.WriteByte(x)
			}
		}
		return b.String()
	}
	for i := 8 + r.IntN(25); i > 0; i-- {
		c.Ops = append(c.Ops, Op{K: "c", Args: Bs([]string{"keys", pat()})})
		if r.IntN(12) == 0 {
			k := keys[r.IntN(len(keys))]
			switch r.IntN(3) {
			case 0:
				c.Ops = append(c.Ops, Op{K: "c", Args: Bs([]string{"del", k})})
			case 1:
				c.Ops = append(c.Ops, Op{K: "c", Args: Bs([]string{"rename", k, word(6)})})
			default:
				c.Ops = append(c.Ops, Op{K: "c", Args: Bs([]string{"expire", k, "1"})}, Op{K: "z", Ms: 2500})
			}
		}
	}
	if hard {
		n := 10 + r.IntN(20)
		c.Ops = append(c.Ops,
			Op{K: "c", Args: Bs([]string{"keys", strings.Repeat("*a", n) + "*b"})},
			Op{K: "c", Args: Bs([]string{"keys", strings.Repeat("a*", n) + "?b"})},
			Op{K: "c", Args: Bs([]string{"keys", strings.Repeat("*?", n) + "[x]"})},
			Op{K: "c", Args: Bs([]string{"keys", strings.Repeat("*[ab]", n) + "*[^abc]"})},
			Op{K: "c", Args: Bs([]string{"keys", strings.Repeat("*", 200) + "z"})})
	}
}

// ---------------------------------------------------------------- C22

// genFreq makes a case whose single op asks that every member can be chosen.
func genFreq(c *Case, r *rand.Rand) {
	c.Kind = "freq"
	n := 2 + r.IntN(6)
	draws := 400
	switch r.IntN(12) {
	case 0:
		n, draws = 8+r.IntN(30), 4000
	case 1:
		if r.IntN(3) == 0 {
			n, draws = 40+r.IntN(60), 8000
		}
	}
	big := r.IntN(24) == 0 // many members, chosen in great numbers at once
	span := 100
	if big {
		n, span = 100+r.IntN(1000), 1000
	}
	set := map[string]bool{}
	for len(set) < n {
		set[one(r, "m", "x", "", "\r\n")+strconv.Itoa(r.IntN(span))] = true
		if r.IntN(10) == 0 {
			set[""] = true
		}
	}
	var ms []string
	for i := 0; i < span && len(ms) < n; i++ {
		for _, pre := range []string{"m", "x", "", "\r\n"} {
			if k := pre + strconv.Itoa(i); set[k] && len(ms) < n {
				ms = append(ms, k)
			}
		}
	}
	if set[""] && len(ms) < n {
		ms = append(ms, "")
	}
	variants := [][]string{
		{"srandmember", "K"}, {"srandmember", "K", "1"}, {"srandmember", "K", "-1"}, {"srandmember", "K", "-3"}, {"srandmember", "K", "J"}, {"spop", "K"}, {"spop", "K", "1"}, {"spop", "K", "J"},
		{"hrandfield", "K"}, {"hrandfield", "K", "1"}, {"hrandfield", "K", "-1"}, {"hrandfield", "K", "-2"}, {"hrandfield", "K", "J"},
		{"hrandfield", "K", "1", "WITHVALUES"}, {"hrandfield", "K", "-1", "WITHVALUES"}, {"hrandfield", "K", "J", "WITHVALUES"},
	}
	v := append([]string(nil), variants[r.IntN(len(variants))]...)
	if big {
		v = one(r, []string{"srandmember", "K", "J"}, []string{"srandmember", "K", "-J"}, []string{"spop", "K", "J"},
			[]string{"hrandfield", "K", "J"}, []string{"hrandfield", "K", "-J"}, []string{"hrandfield", "K", "J", "WITHVALUES"}, []string{"hrandfield", "K", "-J", "WITHVALUES"})
		for i := range v {
			switch v[i] {
			case "J":
				v[i], draws = strconv.Itoa(n/2), 70
			case "-J":
				v[i], draws = strconv.Itoa(-40*n), 1
			}
		}
	}
	for i := range v {
		switch v[i] {
		case "K":
			v[i] = "k" + strconv.Itoa(r.IntN(100))
		case "J":
			v[i] = strconv.Itoa(1 + r.IntN(min(n-1, 6)))
		}
	}
	c.Keys = Bs(ms)
	c.Ops = []Op{{K: "q", Args: Bs(v), N: draws}}
}

// ---------------------------------------------------------------- C03

// genFuzz makes malformed protocol input next to a victim client.
func genFuzz(c *Case, r *rand.Rand) {
	c.Kind = "fuzz"
	p := &Prof{KeyStyle: "weird", NKeys: 1, Bin: 0.4, Bad: 0.6, Cross: 0.3, CaseP: 0.2}
	p.W = allTypes()
	p.W["ping"] = 5
	g := NewGen(r, p, c.Seg)
	for n := 3 + r.IntN(20); n > 0; n-- {
		if r.IntN(4) == 0 {
			c.Ops = append(c.Ops, Op{K: "v"}) // victim activity
			continue
		}
		o := Op{K: "r", Conn: r.IntN(3)}
		switch r.IntN(5) {
		case 0:
			o.Data = B(g.rawGarbage())
		case 1, 2:
			o.Data = B(g.mutate(g.stream()))
		case 3:
			o.Data = B(g.stream())
		default:
			o.Data = B(g.rawRESP())
		}
		if r.IntN(3) == 0 && len(o.Data) > 1 {
			for i := 1 + r.IntN(5); i > 0; i-- {
				o.Cuts = append(o.Cuts, 1+r.IntN(len(o.Data)))
			}
		}
		c.Ops = append(c.Ops, o)
		if r.IntN(8) == 0 {
			c.Ops = append(c.Ops, Op{K: one(r, "x", "e"), Conn: o.Conn})
		}
	}
}

// stream is a run of requests with any command and any arguments in any number.
func (g *Gen) stream() string {
	var b strings.Builder
	for i := 1 + g.n(5); i > 0; i-- {
		var a []string
		switch g.n(4) {
		case 0:
			a = append(a, pick(g, append([]string{"select", "ping", "keys", ""}, g.cmds...)))
			for j := g.n(6); j > 0; j-- {
				a = append(a, pick(g, []string{g.junkNum(), g.AnyKey(), g.Val(), g.Int64Edge(), g.Index(), "EX", "PX", "WITHVALUES", "RANK", "COUNT", "MAXLEN", "LEFT", "0", "-1", "-9223372036854775808", "9223372036854775807", "GET", "before"}))
			}
		default:
			a = g.Random().strsNoAt()
		}
		b.WriteString("*" + strconv.Itoa(len(a)) + "\r\n")
		for _, x := range a {
			b.WriteString("$" + strconv.Itoa(len(x)) + "\r\n" + x + "\r\n")
		}
	}
	return b.String()
}

func (o Op) strsNoAt() []string { return o.Strs() }

func (g *Gen) rawLen() string {
	return pick(g, []string{"-1", "-2", "0", "1", "2", "3", "5", "10", "100", "+1", "01", "", " 1", "1 ", "x", "-0", "1.0", "0x1", "2147483647", "2147483648", "4294967295", "4294967296", "536870912", "536870913", "1073741824",
		"9223372036854775805", "9223372036854775806", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "99999999999999999999", "1000000000000", "-2147483648"})
}

// rawRESP builds RESP-shaped input with odd headers.
func (g *Gen) rawRESP() string {
	var b strings.Builder
	eol := func() string {
		if g.n(8) == 0 {
			return pick(g, []string{"\n", "\r", "", "\r\r\n", "\n\r", "\r\n\r\n", " \r\n"})
		}
		return "\r\n"
	}
	for i := 1 + g.n(8); i > 0; i-- {
		switch g.n(9) {
		case 0:
			b.WriteString("*" + g.rawLen() + eol())
		case 1:
			b.WriteString("$" + g.rawLen() + eol())
		case 2:
			v := g.Val()
			b.WriteString("$" + strconv.Itoa(len(v)+g.n(3)-1) + eol() + v + eol())
		case 3:
			b.WriteString(":" + g.rawLen() + eol())
		case 4:
			b.WriteString("+" + g.Val() + eol())
		case 5:
			b.WriteString("-" + g.Val() + eol())
		case 6:
			b.WriteString(eol())
		case 7:
			n := 1 + g.n(4)
			b.WriteString("*" + strconv.Itoa(n) + eol())
			for j := 0; j < n; j++ {
				switch g.n(6) {
				case 0:
					b.WriteString("$-1" + eol())
				case 1:
					b.WriteString(pick(g, []string{"+get", "-err", ":5", "*0", "*-1", "*1", "$0\r\n", "_", "#t", ",1.5", "(123"}) + eol())
				default:
					v := pick(g, []string{"get", "set", "del", "select", "keys", "lpush", g.Val(), g.AnyKey()})
					b.WriteString("$" + strconv.Itoa(len(v)) + eol() + v + eol())
				}
			}
		default:
			b.WriteString(pick(g, []string{"PING", "GET a", "%1", "_", "#t", "!5", "=15", ">2", "~1", "\x00", "QUIT", "*", "$", ":", "+", "-", "*1\r\n*1\r\n*1"}) + eol())
		}
	}
	return b.String()
}

func (g *Gen) rawGarbage() string {
	return g.Bytes(1 + g.n(200))
}

// mutate damages a byte string.
func (g *Gen) mutate(s string) string {
	b := []byte(s)
	for k := 1 + g.n(4); k > 0 && len(b) > 0; k-- {
		i := g.n(len(b))
		switch g.n(7) {
		case 0:
			b[i] = byte(g.R.Uint32())
		case 1:
			b[i] = pick(g, []byte("\r\n*$:+-0123456789 \x00\xff"))
		case 2:
			j := i + 1 + g.n(8)
			if j > len(b) {
				j = len(b)
			}
			b = append(b[:i], b[j:]...)
		case 3:
			ins := pick(g, []string{"\r\n", "\n", "\r", "*", "$-1\r\n", "$", "*-1\r\n", "*0\r\n", "9", "-", g.rawLen()})
			b = append(b[:i], append([]byte(ins), b[i:]...)...)
		case 4:
			b = b[:i]
		case 5: // duplicate a part
			j := i + g.n(len(b)-i)
			b = append(b, b[i:j]...)
		case 6: // replace a number
			for i < len(b) && (b[i] < '0' || b[i] > '9') {
				i++
			}
			if i < len(b) {
				b = append(b[:i], append([]byte(g.rawLen()), b[i+1:]...)...)
			}
		}
	}
	return string(b)
}

// ---------------------------------------------------------------- C20

// genFault makes several connections that end in various ways.
func genFault(c *Case, r *rand.Rand) {
	c.Kind = "fault"
	n := 1 + r.IntN(4)
	p := &Prof{KeyStyle: "plain", NKeys: 1, Bin: 0.2, Bad: 0.2, W: allTypes()}
	g := NewGen(r, p, c.Seg)
	if r.IntN(150) == 0 {
		c.Kind = "leak"
		o := Op{K: "f", Fault: one(r, "close", "eof", "readerr", "writeerr", "shortwrite", "stall", "closefail"), Ms: int64(r.IntN(2))}
		ping := "*1\r\n$4\r\nPING\r\n"
		o.Data = B(one(r, "", ping, ping+"*2\r\n$3\r\nGET\r\n$8\r\nbigvalue\r\n", ping+"*2\r\n$3\r\nGET\r\n", ping+"*2\r\n$6\r\nselect\r\n$1\r\n0\r\n", ping+"*1\r\n$x\r\n", "\n", ping+"*3\r\n$3\r\nset\r\n$4\r\nleak\r\n$1\r\n1\r\n",
			"*2\r\n$4\r\nkeys\r\n$1\r\n*\r\n", "*2\r\n$4\r\nping\r\n$100000\r\nabc", "*1\r\n$99999999999999999\r\n", ping+ping+ping+ping+ping))
		c.Ops = []Op{o}
		return
	}
	for i := 0; i < n; i++ {
		// N: number of logging requests sent; Ms: bytes withheld / fault position
		o := Op{K: "f", Conn: i, N: 1 + r.IntN(8), Tail: r.IntN(60)}
		o.Fault = one(r, "close", "close", "eof", "readerr", "writeerr", "shortwrite", "stall", "proto", "closefail", "closewrite", "idle", "stallproto")
		switch o.Fault {
		case "writeerr", "shortwrite", "stall", "closewrite", "stallproto":
			o.Ms = int64(r.IntN(o.N + 1)) // index of the write that fails
		case "proto":
			o.Data = B(one(r, "\n", "\r\n", "x\r\n", "$x\r\n", "*x\r\n", "$-5\r\n", "*-7\r\n", ":\n", "*1\r\n$3\r\nabcde\r\n", "*1\r\n$999999999999\r\n", "hello\r\n", "*1\r\n:x\r\n", "*2\r\n$1\r\na\r\n*1\r\n!", g.rawGarbage()+"\n", "$99999999999999999999\r\n"))
		}
		if r.IntN(3) == 0 {
			for k := 1 + r.IntN(6); k > 0; k-- {
				o.Cuts = append(o.Cuts, 1+r.IntN(40*o.N))
			}
		}
		o.Slow = r.IntN(2) == 0
		if r.IntN(4) == 0 {
			o.Batch = append(o.Batch, g.Random().Args) // some other command on the way
		}
		if r.IntN(5) == 0 {
			o.Off = int64(1 + r.IntN(3)) // big reply: the connection also asks for a large value
		}
		c.Ops = append(c.Ops, o)
	}
	if r.IntN(3) == 0 {
		c.Ops = append(c.Ops, Op{K: "n", N: 1 + r.IntN(40)}) // connections that come and go
	}
}

// ---------------------------------------------------------------- C24

func genConfig(c *Case, r *rand.Rand) {
	c.Kind = "config"
	var b strings.Builder
	opts := []string{"host", "port", "logdir", "loglevel", "segnum", "dbnum"}
	blank := func(min int) string {
		n := min + r.IntN(3)
		s := ""
		for i := 0; i < n; i++ {
			s += one(r, " ", " ", "\t", "  ")
		}
		return s
	}
	eol := func() string {
		if r.IntN(10) == 0 {
			return "\r\n"
		}
		return "\n"
	}
	bad := r.IntN(3) == 0
	n := r.IntN(8)
	badAt := -1
	if bad && n > 0 {
		badAt = r.IntN(n)
	}
	for i := 0; i < n; i++ {
		for r.IntN(4) == 0 {
			b.WriteString(one(r, "", " ", "\t", "   ") + eol())
		}
		o := opts[r.IntN(len(opts))]
		var v string
		switch o {
		case "host":
			v = one(r, "127.0.0.1", "0.0.0.0", "10.1.2.3", "::1", "255.255.255.255", "fe80::1")
		case "port":
			v = strconv.Itoa(r.IntN(65536))
		case "logdir":
			v = one(r, "./", "/tmp/x", "logs", "/VAR/Log", "a#b", "..")
		case "loglevel":
			v = one(r, "debug", "info", "warning", "panic", "error", "INFO", "Debug", "eRRor")
		case "segnum", "dbnum":
			v = strconv.Itoa(1 + r.IntN(2000))
		}
		if i == badAt {
			switch r.IntN(4) {
			case 0:
				v = ""
			default:
				switch o {
				case "host":
					v = one(r, "localhost", "1.2.3", "1.2.3.4.5", "256.1.1.1", "::g", "-", "127.0.0.1:80")
				case "port", "segnum", "dbnum":
					v = one(r, "x", "12x", "1.5", "99999999999999999999", "--1", "0x10", "１")
				default:
					v = ""
				}
			}
		}
		name := []byte(o)
		for j := range name {
			if r.IntN(3) == 0 {
				name[j] -= 32
			}
		}
		line := ""
		if r.IntN(4) == 0 {
			line += blank(1)
		}
		line += string(name) + blank(1) + v
		if r.IntN(4) == 0 {
			line += blank(1)
		}
		if i < n-1 || r.IntN(2) == 0 {
			line += eol()
		}
		b.WriteString(line)
	}
	for r.IntN(4) == 0 {
		b.WriteString(one(r, "\n", " \n", "\n\n", " ", "\t"))
	}
	c.File = B(b.String())
	// initial values of the options
	c.Ops = []Op{{K: "g", Args: Bs([]string{one(r, "127.0.0.1", "10.9.8.7"), strconv.Itoa(1 + r.IntN(60000)), one(r, "./", "ld"), one(r, "info", "debug"), strconv.Itoa(1 + r.IntN(500)), strconv.Itoa(1 + r.IntN(50))})}}
	switch r.IntN(25) {
	case 0:
		c.Ops[0].Fault = "missing"
	case 1:
		c.Ops[0].Fault = "dir"
	}
	c.Seg, c.Dbs, c.Phase = 0, 0, 0
}

var _ = fmt.Sprint
