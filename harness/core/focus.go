package core

import (
	"fmt"
	"math/rand/v2"
)

// focus generates commands that clash: two or three keys of one type, a small
// domain of elements, commands of that type and those that move, remove or
// date whole keys.
type focus struct {
	r     *rand.Rand
	t     string
	keys  []string
	n     int // domain size
	whole int // one in so many commands is about whole keys
}

var focusTypes = []string{"str", "list", "hash", "set", "ttl"}

func newFocus(r *rand.Rand, keys []string) *focus {
	f := &focus{r: r, t: one(r, focusTypes...), keys: keys, n: 3 + r.IntN(6), whole: one(r, 14, 14, 4)}
	return f
}

func (f *focus) key() string { return f.keys[f.r.IntN(len(f.keys))] }
func (f *focus) el() string  { return fmt.Sprintf("e%d", f.r.IntN(f.n)) }
func (f *focus) num() string { return fmt.Sprint(one(f.r, 1, 2, 3, 7, 9, 10, 42, 100, 3141)) }
func (f *focus) idx() string { return fmt.Sprint(f.r.IntN(2*f.n) - f.n) }

// pairs of distinct keys (sometimes the same)
func (f *focus) two() (string, string) {
	a, b := f.r.IntN(len(f.keys)), f.r.IntN(len(f.keys))
	if a == b && f.r.IntN(4) > 0 {
		b = (a + 1) % len(f.keys)
	}
	return f.keys[a], f.keys[b]
}

func (f *focus) some(cmd string, key string, w func() []string) []string {
	a := []string{cmd, key}
	for i := 1 + f.r.IntN(3); i > 0; i-- {
		a = append(a, w()...)
	}
	return a
}

func (f *focus) many(cmd string, head ...string) []string {
	a := append([]string{cmd}, head...)
	for i := 1 + f.r.IntN(3); i > 0; i-- {
		a = append(a, f.key())
	}
	return a
}

// setup fills the keys.
func (f *focus) setup() [][]string {
	var out [][]string
	for _, k := range f.keys {
		if f.r.IntN(5) == 0 {
			continue
		}
		var a []string
		for i := 0; i < f.n; i++ {
			e := fmt.Sprintf("e%d", i)
			switch f.t {
			case "hash":
				if f.r.IntN(4) > 0 || i == 0 {
					a = append(a, e, fmt.Sprint(i))
				}
			default:
				if f.r.IntN(4) > 0 || i == 0 {
					a = append(a, e)
				}
			}
		}
		switch f.t {
		case "str", "ttl":
			if f.t == "ttl" && f.r.IntN(3) == 0 {
				out = append(out, append([]string{"rpush", k}, a...))
			} else {
				out = append(out, []string{"set", k, f.num()})
			}
		case "list":
			out = append(out, append([]string{"rpush", k}, a...))
		case "hash":
			out = append(out, append([]string{"hset", k}, a...))
		case "set":
			out = append(out, append([]string{"sadd", k}, a...))
		}
		if f.t == "ttl" && f.r.IntN(3) > 0 || f.r.IntN(8) == 0 {
			out = append(out, []string{"expire", k, fmt.Sprint(100 * (1 + f.r.IntN(9)))})
		}
	}
	return out
}

func (f *focus) cmd() []string {
	r := f.r
	k := f.key()
	if f.t != "ttl" && r.IntN(f.whole) == 0 { // whole keys
		a, b := f.two()
		switch r.IntN(5) {
		case 0:
			return f.many("del")
		case 1:
			return f.many("exists")
		case 2, 3:
			return []string{"rename", a, b}
		default:
			return []string{"type", k}
		}
	}
	a, b := f.two()
	field := func() []string { return []string{f.el()} }
	pair := func() []string { return []string{f.el(), f.num()} }
	lr := func() string { return one(r, "left", "right") }
	switch f.t {
	case "str":
		switch r.IntN(15) {
		case 0:
			return []string{"set", k, f.num()}
		case 1:
			return []string{"set", k, f.num(), one(r, "nx", "xx", "get", "keepttl")}
		case 2:
			return []string{"get", k}
		case 3:
			return []string{"getrange", k, "0", "-1"}
		case 4:
			return []string{"setrange", k, fmt.Sprint(r.IntN(4)), f.el()}
		case 5:
			return f.many("mget")
		case 6, 7:
			m := []string{"mset"}
			for i := 1 + r.IntN(3); i > 0; i-- {
				m = append(m, f.key(), f.num())
			}
			return m
		case 8:
			return []string{"setnx", k, f.num()}
		case 9:
			return []string{"strlen", k}
		case 10:
			return []string{"append", k, f.num()}
		case 11:
			return []string{one(r, "incr", "decr"), k}
		case 12:
			return []string{one(r, "incrby", "decrby"), k, f.num()}
		case 13:
			return []string{"incrbyfloat", k, f.num()}
		default:
			return []string{"setex", k, fmt.Sprint(100 * (1 + r.IntN(9))), f.num()}
		}
	case "list":
		switch r.IntN(15) {
		case 0, 1:
			return f.some(one(r, "lpush", "rpush"), k, field)
		case 2:
			return f.some(one(r, "lpushx", "rpushx"), k, field)
		case 3:
			return []string{one(r, "lpop", "rpop"), k}
		case 4:
			return []string{one(r, "lpop", "rpop"), k, fmt.Sprint(1 + r.IntN(3))}
		case 5:
			return []string{"lindex", k, f.idx()}
		case 6:
			return []string{"linsert", k, one(r, "before", "after"), f.el(), f.el()}
		case 7:
			return []string{"llen", k}
		case 8, 9:
			return []string{"lmove", a, b, lr(), lr()}
		case 10:
			return []string{"lpos", k, f.el()}
		case 11:
			return []string{"lrange", k, "0", "-1"}
		case 12:
			return []string{"lrem", k, fmt.Sprint(r.IntN(5) - 2), f.el()}
		case 13:
			return []string{"lset", k, f.idx(), f.el()}
		default:
			return []string{"ltrim", k, fmt.Sprint(r.IntN(2)), fmt.Sprint(-1 - r.IntN(2))}
		}
	case "hash":
		switch r.IntN(14) {
		case 0, 1:
			return f.some(one(r, "hset", "hset", "hmset"), k, pair)
		case 2:
			return []string{"hsetnx", k, f.el(), f.num()}
		case 3:
			return f.some("hdel", k, field)
		case 4:
			return []string{"hincrby", k, f.el(), f.num()}
		case 5:
			return []string{"hincrbyfloat", k, f.el(), f.num()}
		case 6:
			return []string{"hget", k, f.el()}
		case 7:
			return f.some("hmget", k, field)
		case 8:
			return []string{"hgetall", k}
		case 9:
			return []string{one(r, "hkeys", "hvals"), k}
		case 10:
			return []string{"hlen", k}
		case 11:
			return []string{"hexists", k, f.el()}
		case 12:
			return []string{"hstrlen", k, f.el()}
		default:
			return []string{"hrandfield", k, one(r, "2", "-2", "3"), "withvalues"}
		}
	case "set":
		switch r.IntN(15) {
		case 0, 1, 2:
			return f.some("sadd", k, field)
		case 3, 4:
			return f.some("srem", k, field)
		case 5:
			return []string{"sismember", k, f.el()}
		case 6:
			return []string{one(r, "scard", "smembers"), k}
		case 7, 8:
			return []string{"smove", a, b, f.el()}
		case 9:
			return []string{one(r, "spop", "srandmember"), k}
		case 10:
			return []string{one(r, "spop", "srandmember"), k, "2"}
		case 11, 12:
			return f.many(one(r, "sinter", "sunion", "sdiff"))
		default:
			return f.many(one(r, "sinterstore", "sunionstore", "sdiffstore"), k)
		}
	}
	// times to live
	switch r.IntN(12) {
	case 0, 1, 2, 3:
		x := []string{"expire", k, fmt.Sprint(100 * (1 + r.IntN(9)))}
		if r.IntN(5) > 0 {
			x = append(x, one(r, "nx", "xx", "gt", "lt"))
		}
		return x
	case 4, 5, 6:
		return []string{"persist", k}
	case 7:
		return []string{"ttl", k}
	case 8, 9:
		return []string{"rename", a, b}
	case 10:
		switch r.IntN(4) {
		case 0:
			return []string{"setex", k, fmt.Sprint(100 * (1 + r.IntN(9))), f.num()}
		case 1:
			return []string{"set", k, f.num(), "ex", fmt.Sprint(100 * (1 + r.IntN(9)))}
		case 2:
			return []string{"set", k, f.num(), "keepttl"}
		default:
			return []string{"set", k, f.num()}
		}
	default:
		return []string{one(r, "del", "get", "exists", "type"), k}
	}
}

// look is a command that only reads key k.
func (f *focus) look(k string) []string {
	r := f.r
	switch f.t {
	case "list":
		return one(r, []string{"lindex", k, f.idx()}, []string{"llen", k}, []string{"lpos", k, f.el()}, []string{"lrange", k, "0", "-1"})
	case "hash":
		return one(r, []string{"hget", k, f.el()}, []string{"hmget", k, f.el(), f.el()}, []string{"hgetall", k}, []string{"hkeys", k}, []string{"hvals", k}, []string{"hlen", k},
			[]string{"hexists", k, f.el()}, []string{"hstrlen", k, f.el()}, []string{"hrandfield", k, "5", "withvalues"})
	case "set":
		return one(r, []string{"sismember", k, f.el()}, []string{"scard", k}, []string{"smembers", k}, []string{"srandmember", k, "5"},
			[]string{"sinter", k}, []string{"sunion", k}, []string{"sdiff", k})
	}
	return one(r, []string{"get", k}, []string{"getrange", k, "0", "-1"}, []string{"strlen", k}, []string{"mget", k, k})
}

// change is a command that writes to the keys.
func (f *focus) change() []string {
	for {
		a := f.cmd()
		switch a[0] {
		case "lindex", "llen", "lpos", "lrange", "hget", "hmget", "hgetall", "hkeys", "hvals", "hlen", "hexists", "hstrlen", "hrandfield",
			"sismember", "scard", "smembers", "srandmember", "sinter", "sunion", "sdiff", "get", "getrange", "strlen", "mget", "exists", "type", "ttl":
			continue
		}
		return a
	}
}
