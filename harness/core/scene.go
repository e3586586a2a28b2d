package core

import (
	"sort"
	"strconv"
)

// Scenes are short scripted stretches of a history (with random keys, values,
// commands and options) that reach situations a purely random history rarely
// does: a collection drained by one particular command, a command meeting a
// value with a time to live, a command meeting a key that has just expired.

func (g *Gen) op(a ...string) Op {
	g.remember(a)
	return Op{K: "c", Args: Bs(a)}
}

func (g *Gen) scene() []Op {
	switch pick(g, []byte(g.P.Scenes)) {
	case 'd':
		return g.sceneDrain()
	case 't':
		return g.sceneTTL()
	case 'm':
		return g.sceneMany()
	case 'w':
		return g.sceneWide()
	case 'v':
		return g.sceneManyTTL()
	default:
		return g.sceneExpired()
	}
}

// make returns commands that leave key k as a fresh value of a type, and the
// elements, fields or members in it.
func (g *Gen) fresh(k string, t byte, max int) ([]Op, []string) {
	ops := []Op{g.op("del", k)}
	g.mem[k] = nil
	var es []string
	n := 1 + g.n(max)
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		e := g.Val()
		if t == 'l' && len(es) > 0 && g.n(2) == 0 {
			e = pick(g, es)
		}
		if t != 'l' && seen[e] {
			continue
		}
		seen[e] = true
		es = append(es, e)
	}
	switch t {
	case 'l':
		ops = append(ops, g.op(append([]string{"rpush", k}, es...)...))
	case 'h':
		a := []string{"hset", k}
		for _, e := range es {
			a = append(a, e, g.Val())
		}
		ops = append(ops, g.op(a...))
	case 't':
		ops = append(ops, g.op(append([]string{"sadd", k}, es...)...))
	case 'n':
		ops = append(ops, g.op("set", k, strconv.Itoa(g.n(100))))
	default:
		ops = append(ops, g.op("set", k, g.StrVal()))
	}
	return ops, es
}

func (g *Gen) giveTTL(k string, t byte, s int) Op {
	return g.op("expire", k, strconv.Itoa(s))
}

func (g *Gen) look(k string) Op {
	switch g.n(7) {
	case 0:
		return g.op("exists", k)
	case 1:
		return g.op("type", k)
	case 2:
		return g.op("keys", "*")
	case 3:
		return g.op(pick(g, []string{"llen", "scard", "hlen", "strlen", "get", "smembers", "hgetall", "hkeys"}), k)
	case 4:
		return g.op("lrange", k, "0", "-1")
	case 5:
		return g.op("persist", k)
	default:
		return g.op("ttl", k)
	}
}

// create makes key k come into being by some command.
func (g *Gen) create(k string) []Op {
	o := g.AnyKey()
	v := g.Val()
	switch g.n(20) {
	case 0:
		return []Op{g.op("set", k, v)}
	case 1:
		return []Op{g.op("append", k, v+"x")}
	case 2:
		return []Op{g.op("setrange", k, "1", v+"x")}
	case 3:
		return []Op{g.op(pick(g, []string{"incr", "decr"}), k)}
	case 4:
		return []Op{g.op("incrbyfloat", k, "1.5")}
	case 5:
		return []Op{g.op("setnx", k, v)}
	case 6:
		return []Op{g.op("mset", k, v)}
	case 7:
		return []Op{g.op("hset", k, v, "1")}
	case 8:
		return []Op{g.op("hsetnx", k, v, "1")}
	case 9:
		return []Op{g.op("hincrby", k, v, "2")}
	case 10:
		return []Op{g.op("hincrbyfloat", k, v, "2.5")}
	case 11:
		return []Op{g.op("lpush", k, v)}
	case 12, 13:
		return []Op{g.op("rpush", k, v)}
	case 14, 15:
		return []Op{g.op("sadd", k, v)}
	case 16:
		if o != k {
			return []Op{g.op("del", o), g.op("rpush", o, v, "z"), g.op("lmove", o, k, "LEFT", "LEFT")}
		}
	case 17:
		if o != k {
			return []Op{g.op("del", o), g.op("sadd", o, v, "z"), g.op("smove", o, k, v)}
		}
	case 18:
		return []Op{g.op("del", o), g.op("sadd", o, v, "z"), g.op(pick(g, []string{"sunionstore", "sinterstore", "sdiffstore"}), k, o)}
	case 19:
		if o != k {
			ops, _ := g.fresh(o, pick(g, []byte("slht")), 3)
			return append(ops, g.op("rename", o, k))
		}
	}
	return []Op{g.op("hmset", k, v, "1")}
}

// sceneMany: a great many keys come and go.
func (g *Gen) sceneMany() []Op {
	n := pick(g, []int{9, 17, 40, 130, 130, 300, 1100})
	if n == 1100 && g.n(4) > 0 {
		n = 70
	}
	onebyone := false
	if g.n(60) == 0 {
		n = pick(g, []int{1100, 2100, 2600, 4200})
		onebyone = true // shrink key by key
	}
	pre := pick(g, []string{"many", "k", "\r\n", ""})
	a := []string{"mset"}
	d := []string{"del"}
	ex := []string{"exists"}
	mg := []string{"mget"}
	for i := 0; i < n; i++ {
		k := pre + strconv.Itoa(i)
		if g.n(8) > 0 {
			a = append(a, k, strconv.Itoa(i))
		}
		if g.n(3) > 0 {
			d = append(d, k)
		}
		if g.n(2) == 0 {
			ex = append(ex, k)
		}
		mg = append(mg, k)
	}
	var ops []Op
	if len(a) > 1 {
		ops = append(ops, g.op(a...))
	}
	ops = append(ops, g.op("keys", pick(g, []string{"*", pre + "*", pre + "?", "*[02468]", "*1*"})))
	if len(ex) > 1 {
		ops = append(ops, g.op(ex...))
	}
	ops = append(ops, g.op(mg...))
	for i := g.n(4); i > 0; i-- {
		ops = append(ops, g.op("rename", pre+strconv.Itoa(g.n(n)), pre+strconv.Itoa(g.n(n))))
	}
	if onebyone {
		for i, k := range d[1:] {
			ops = append(ops, Op{K: "c", Args: Bs([]string{"del", k})})
			if i%200 == 0 {
				ops = append(ops, g.op("keys", "*7"), g.op("exists", pre+strconv.Itoa(n-1)))
			}
		}
	} else if len(d) > 1 {
		ops = append(ops, g.op(d...))
	}
	ops = append(ops, g.op("keys", "*"))
	return ops
}

// sceneManyTTL: many keys with times to live that end in groups.
func (g *Gen) sceneManyTTL() []Op {
	n := pick(g, []int{20, 70, 150, 400})
	if g.n(4) == 0 {
		n = pick(g, []int{700, 1100, 3100, 4300})
	}
	pre := pick(g, []string{"ttl", "v", "\n"})
	name := func(i int) string { return pre + strconv.Itoa(i) }
	var ops []Op
	groups := []int{2 + g.n(3), 8 + g.n(3), 100, 0}
	of := make([]int, n)
	var all, late []string
	ms := []string{"mset"}
	for i := range of {
		of[i] = groups[g.n(1+g.n(4))]
		all = append(all, name(i))
		ms = append(ms, name(i), strconv.Itoa(i))
	}
	setex := g.n(2) == 0
	if !setex {
		ops = append(ops, g.op(ms...))
	}
	for i, s := range of {
		switch {
		case s == 0 && setex:
			ops = append(ops, g.op("set", name(i), "v"))
		case s == 0:
		case setex:
			ops = append(ops, g.op("setex", name(i), strconv.Itoa(s), "v"))
		default:
			ops = append(ops, g.op("expire", name(i), strconv.Itoa(s)))
		}
		if s > 7 || s == 0 {
			late = append(late, name(i))
		}
	}
	look := func() {
		for j := 0; j < 6; j++ {
			ops = append(ops, g.op("ttl", name(g.n(n))))
		}
		ops = append(ops, g.op("ttl", name(n-1)), g.op("ttl", name(0)))
		ops = append(ops, g.op(append([]string{pick(g, []string{"exists", "mget"})}, all...)...))
	}
	look()
	ops = append(ops, Op{K: "z", Ms: int64(1000*(groups[0]+1) + 1 + g.n(900))})
	if g.n(2) == 0 {
		ops = append(ops, g.op("keys", pick(g, []string{"*", pre + "*", "*[13579]"})))
	}
	look()
	for j := 0; j < 4 && len(late) > 0; j++ {
		ops = append(ops, g.op("persist", pick(g, late)))
	}
	if g.n(3) == 0 {
		ops = append(ops, g.op(ms...))
		look()
	}
	ops = append(ops, Op{K: "z", Ms: int64(1000*(groups[1]+1) + 1 + g.n(900))})
	look()
	return append(ops, g.op("keys", pre+"*"), g.op(append([]string{"del"}, all...)...))
}

// sceneWide: requests with a great many arguments.
func (g *Gen) sceneWide() []Op {
	n := pick(g, []int{20, 70, 70, 150, 150, 300})
	if g.n(6) == 0 {
		n = pick(g, []int{700, 1100, 1600, 2100, 3100})
	}
	n += g.n(3)
	pre := pick(g, []string{"wide", "w", "\r\n", ""})
	name := func(i int) string { return pre + strconv.Itoa(i) }
	some := func(in int) (l []string) { // about one in so many, in any order, some twice
		for i := 0; i < n; i++ {
			if g.n(in) == 0 {
				l = append(l, name(i))
			}
		}
		g.R.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		if len(l) == 0 {
			l = []string{name(0)}
		}
		if g.n(2) == 0 {
			i := g.n(len(l))
			l = append(l[:i+1], l[i:]...)
		}
		return l
	}
	all := func() []string {
		l := some(1)
		return l
	}
	var ops []Op
	c := func(a ...string) { ops = append(ops, g.op(a...)) }
	l := func(cmd string, rest []string, head ...string) {
		c(append(append([]string{cmd}, head...), rest...)...)
	}
	pairs := func(names []string) (r []string) {
		for _, x := range names {
			r = append(r, x, strconv.Itoa(g.n(1000)))
		}
		return
	}
	kinds := ""
	for x, cmd := range map[byte]string{'s': "mset", 'l': "rpush", 'h': "hset", 't': "sadd"} {
		if g.P.W[cmd] >= 8 {
			kinds += string(x)
		}
	}
	if kinds == "" {
		kinds = "slht"
	}
	order := []byte(kinds)
	sort.Slice(order, func(i, j int) bool { return order[i] < order[j] })
	switch t := pick(g, order); t {
	case 's':
		if g.n(2) == 0 {
			l("mset", pairs(all()))
		} else {
			l("mset", pairs(some(2)))
		}
		l("mget", all())
		l("exists", some(1+g.n(3)))
		if g.n(2) == 0 {
			l("mset", pairs(some(3)))
			l("mget", some(2))
		}
		l("del", some(2))
		l("mget", all())
		l("del", all())
		l("exists", all())
	case 'l':
		k := pick(g, g.keys['l'])
		c("del", k)
		l(pick(g, []string{"rpush", "lpush"}), all(), k)
		l(pick(g, []string{"rpushx", "lpushx", "rpush", "lpush"}), some(2), k)
		c("llen", k)
		c("lrange", k, "0", "-1")
		c("lindex", k, "-1")
		c(pick(g, []string{"lpop", "rpop"}), k, strconv.Itoa(g.n(n)+1))
		c("lrange", k, strconv.Itoa(g.n(n)), "-1")
		c("lpos", k, name(g.n(n)), "count", "0")
		c("del", k)
	case 'h':
		k := pick(g, g.keys['h'])
		c("del", k)
		l(pick(g, []string{"hset", "hmset"}), pairs(all()), k)
		l("hmget", all(), k)
		l(pick(g, []string{"hset", "hmset"}), pairs(some(2)), k)
		c("hlen", k)
		c(pick(g, []string{"hgetall", "hkeys", "hvals"}), k)
		l("hdel", some(2), k)
		l("hmget", some(2), k)
		c("hrandfield", k, strconv.Itoa(g.n(n)+1))
		c("hrandfield", k, strconv.Itoa(g.n(2*n)-n), "withvalues")
		c("hlen", k)
		l("hdel", all(), k)
		c("exists", k)
	default:
		k := pick(g, g.keys['t'])
		c("del", k)
		l("sadd", all(), k)
		l("sadd", some(2), k)
		c("scard", k)
		l("srem", some(2), k)
		if g.n(2) == 0 {
			l("srem", some(1), k)
		}
		c("smembers", k)
		c(pick(g, []string{"srandmember", "spop"}), k, strconv.Itoa(g.n(n)+1))
		c("scard", k)
		// many operands, of which few exist, and those anywhere in the request
		ks := make([]string, 0, n)
		for i := 0; i < n; i++ {
			ks = append(ks, name(i))
		}
		where := []int{0, n - 1, n / 2, g.n(n), g.n(n)}
		for _, i := range where[:2+g.n(4)] {
			c("sadd", ks[i], "a", "b"+strconv.Itoa(g.n(4)), pick(g, []string{"c", "d", "e"}))
		}
		if g.n(2) == 0 { // all the same but the first, the last or another
			odd := pick(g, []int{0, n - 1, n - 1, g.n(n)})
			c("sadd", ks[odd], "a", "z")
			c("sadd", k, "a", "y")
			for i := range ks {
				if i != odd {
					ks[i] = k
				}
			}
		}
		for _, op := range []string{"sunion", "sdiff", "sinter"} {
			if g.n(2) == 0 {
				op += "store"
				l(op, ks, pre+"dst")
				c("smembers", pre+"dst")
			} else {
				l(op, ks)
			}
		}
		l(pick(g, []string{"sunionstore", "sdiffstore", "sinterstore"}), all(), pre+"dst")
		c("scard", pre+"dst")
		l("del", append(all(), pre+"dst", k))
	}
	return ops
}

func (g *Gen) sceneDrain() []Op {
	t := pick(g, []byte("lht"))
	k := pick(g, g.keys[t])
	if g.n(6) == 0 {
		k = g.AnyKey()
	}
	other := g.AnyKey()
	for i := 0; other == k && i < 10; i++ {
		other = g.AnyKey()
	}
	ops, es := g.fresh(k, t, 6)
	if g.n(5) > 1 {
		ops = append(ops, g.giveTTL(k, t, 2+g.n(100)))
	}
	n := strconv.Itoa(len(es))
	uniq := map[string]bool{}
	var distinct []string
	cnt := map[string]int{}
	for _, e := range es {
		cnt[e]++
		if !uniq[e] {
			uniq[e] = true
			distinct = append(distinct, e)
		}
	}
	g.R.Shuffle(len(distinct), func(i, j int) { distinct[i], distinct[j] = distinct[j], distinct[i] })
	one := func(c string) {
		for range es {
			ops = append(ops, g.op(c, k))
		}
	}
	switch t {
	case 'l':
		switch g.n(9) {
		case 0:
			one("lpop")
		case 1:
			one("rpop")
		case 2:
			ops = append(ops, g.op(pick(g, []string{"lpop", "rpop"}), k, n))
		case 3:
			ops = append(ops, g.op(pick(g, []string{"lpop", "rpop"}), k, pick(g, []string{"100", "9223372036854775807", strconv.Itoa(len(es) + 1)})))
		case 4:
			ops = append(ops, g.op(append([]string{"ltrim", k}, pick(g, [][]string{{n, "-1"}, {"1", "0"}, {"-1", "-2"}, {"100", "200"}, {"5", "1"}, {"0", "-100"}})...)...))
		case 5, 6, 7:
			for _, e := range distinct {
				c := pick(g, []int{0, 0, cnt[e], -cnt[e], 100, -100})
				ops = append(ops, g.op("lrem", k, strconv.Itoa(c), e))
			}
		default:
			ops = append(ops, g.op("del", other))
			for range es {
				ops = append(ops, g.op("lmove", k, other, pick(g, []string{"LEFT", "RIGHT"}), pick(g, []string{"LEFT", "RIGHT"})))
			}
		}
	case 'h':
		if g.n(2) == 0 {
			ops = append(ops, g.op(append([]string{"hdel", k, distinct[0]}, distinct...)...))
		} else {
			for _, e := range distinct {
				ops = append(ops, g.op("hdel", k, e))
			}
		}
	case 't':
		switch g.n(8) {
		case 0:
			ops = append(ops, g.op(append([]string{"srem", k, distinct[0]}, distinct...)...))
		case 1:
			for _, e := range distinct {
				ops = append(ops, g.op("srem", k, e))
			}
		case 2:
			one("spop")
		case 3:
			ops = append(ops, g.op("spop", k, pick(g, []string{n, "100", "9223372036854775807"})))
		case 4:
			ops = append(ops, g.op("del", other))
			for _, e := range distinct {
				ops = append(ops, g.op("smove", k, other, e))
			}
		case 5:
			ops = append(ops, g.op("sdiffstore", k, k, k))
		case 6:
			ops = append(ops, g.op("del", other), g.op("sinterstore", k, k, other))
		default:
			ops = append(ops, g.op("del", other), g.op(pick(g, []string{"sunionstore", "sdiffstore", "sinterstore"}), k, other))
		}
	}
	for i := g.n(3); i > 0; i-- {
		ops = append(ops, g.look(k))
	}
	if g.n(5) > 0 {
		ops = append(ops, g.create(k)...)
		ops = append(ops, g.op("ttl", k))
		for i := g.n(3); i > 0; i-- {
			ops = append(ops, g.look(k))
		}
	}
	return ops
}

// on returns a command that names k (in some position) and suits a value of type t, or any other.
func (g *Gen) on(k string, t byte) Op {
	var group []string
	switch {
	case g.n(6) == 0:
		group = keyCmds
	case t == 'l':
		group = listCmds
	case t == 'h':
		group = hashCmds
	case t == 't':
		group = setCmds
	default:
		group = strCmds
	}
	if g.n(5) == 0 {
		group = pick(g, [][]string{strCmds, listCmds, hashCmds, setCmds})
	}
	save := g.keys
	force := map[byte][]string{}
	for b, l := range save {
		if g.n(3) == 0 {
			force[b] = append([]string{k}, l...)
		} else {
			force[b] = []string{k}
		}
	}
	saveAll := g.all
	if g.n(2) == 0 {
		g.all = []string{k, k, g.AnyKey()}
	}
	g.keys = force
	o := g.Make(pick(g, group))
	g.keys, g.all = save, saveAll
	return o
}

var typeOf = []byte("sslhtn")

func (g *Gen) sceneTTL() []Op {
	t := pick(g, typeOf)
	k := pick(g, g.keys[t])
	ops, _ := g.fresh(k, t, 4)
	s := 3 + g.n(60)
	if g.n(3) == 0 {
		s = 1 + g.n(2)
	}
	ops = append(ops, g.giveTTL(k, t, s))
	for i := 1 + g.n(2); i > 0; i-- {
		ops = append(ops, g.on(k, t))
	}
	ops = append(ops, g.op("ttl", k))
	if g.n(3) == 0 {
		ops = append(ops, Op{K: "z", Ms: int64(s*1000 + 1001 + g.n(1000))}, g.look(k))
		if g.n(2) == 0 {
			ops = append(ops, g.create(k)...)
			ops = append(ops, g.op("ttl", k))
		}
	}
	return ops
}

func (g *Gen) sceneExpired() []Op {
	t := pick(g, typeOf)
	k := pick(g, g.keys[t])
	if g.n(6) == 0 {
		k = g.AnyKey()
	}
	ops, _ := g.fresh(k, t, 4)
	s := 1 + g.n(3)
	ops = append(ops, g.giveTTL(k, t, s))
	switch g.n(4) {
	case 0: // still alive
		ops = append(ops, Op{K: "z", Ms: int64(s*1000 - 1 - g.n(800))}, g.on(k, t), Op{K: "z", Ms: int64(1 + g.n(2000))}, g.on(k, t))
	case 1: // around
		ops = append(ops, Op{K: "z", Ms: 1, Args: Bs([]string{k}), Off: int64(pick(g, []int{-1000, -1, 0, 1, 999, 1000, 1001, 1500}))}, g.on(k, t), g.on(k, t))
	default:
		ops = append(ops, Op{K: "z", Ms: int64(s*1000 + 1001 + g.n(3000))}, g.on(k, t))
		if g.n(2) == 0 {
			ops = append(ops, g.on(k, pick(g, typeOf)))
		}
		ops = append(ops, g.look(k))
		if g.n(3) == 0 {
			ops = append(ops, g.create(k)...)
			ops = append(ops, g.op("ttl", k), Op{K: "z", Ms: int64(1000 + g.n(4000))}, g.look(k))
		}
	}
	return ops
}
