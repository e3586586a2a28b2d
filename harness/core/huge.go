package core

import "strconv"

// huge is a history on one very large value: sizes, positions and counts
// around 2^16, where a narrow integer or a chunk boundary would show.
func (g *Gen) huge(t byte) []Op {
	n := pick(g, []int{65534, 65535, 65536, 65537, 65540, 66000, 69999, 131073})
	if n > 100000 && g.n(3) > 0 {
		n = 65537
	}
	k := pick(g, g.keys[t])
	dst := "dst" + k
	el := func(i int) string { return "v" + strconv.Itoa(i) }
	add := map[byte]string{'l': "rpush", 'h': "hset", 't': "sadd"}[t]
	var ops []Op
	ops = append(ops, Op{K: "c", Args: Bs([]string{"del", k})})
	for at := 0; at < n; {
		m := n - at
		if g.n(3) > 0 {
			m = 1 + g.n(m)
		}
		if len(ops) > 4 {
			m = n - at
		}
		a := []string{add, k}
		for i := at; i < at+m; i++ {
			a = append(a, el(i))
			if t == 'h' {
				a = append(a, strconv.Itoa(i&7))
			}
		}
		at += m
		ops = append(ops, Op{K: "c", Args: Bs(a)})
	}
	ix := func() string {
		i := pick(g, []int{0, 1, n - 1, n, n + 1, n / 2, 32767, 32768, 65534, 65535, 65536, 65537, g.n(n)})
		if g.n(2) == 0 {
			i = -i
		}
		return strconv.Itoa(i)
	}
	cnt := func() string {
		return strconv.Itoa(pick(g, []int{1, 255, 256, 65535, 65536, 65537, n - 1, n, n + 1, g.n(n)}))
	}
	e := func() string {
		return el(pick(g, []int{0, 1, n - 1, n, 65535, 65536, 65537, n / 2, g.n(n), g.n(n)}))
	}
	c := func(a ...string) { ops = append(ops, Op{K: "c", Args: Bs(a)}) }
	for i := 4 + g.n(8); i > 0; i-- {
		switch t {
		case 'l':
			switch g.n(13) {
			case 0:
				c("llen", k)
			case 1, 2:
				c("lindex", k, ix())
			case 3:
				c("lset", k, ix(), g.Val())
			case 4:
				c("lrange", k, ix(), ix())
			case 5:
				c("ltrim", k, pick(g, []string{"0", "1", "-65536", "-65537", "-70000", "5"}), pick(g, []string{"-1", "65536", "65535", "65537", "70000", "-2"}))
			case 6:
				c("lpos", k, e())
			case 7:
				c("lpos", k, e(), "rank", "-1", "maxlen", cnt())
			case 8:
				c("lpos", k, e(), "maxlen", cnt())
			case 9:
				c("lrem", k, pick(g, []string{"0", "1", "-1"}), e())
			case 10:
				c("linsert", k, pick(g, []string{"before", "after"}), e(), g.Val())
			case 11:
				c(pick(g, []string{"lpop", "rpop"}), k, pick(g, []string{"1", "255", "256", "65535", "65536", "65537"}))
			default:
				c("lmove", k, pick(g, []string{k, dst}), pick(g, []string{"left", "right"}), pick(g, []string{"left", "right"}))
			}
		case 'h':
			switch g.n(8) {
			case 0, 1:
				c("hlen", k)
			case 2:
				c(pick(g, []string{"hkeys", "hvals", "hgetall"}), k)
			case 3:
				c("hget", k, e())
			case 4:
				c("hdel", k, e(), e(), e())
			case 5:
				c("hset", k, e(), "n", e()+"x", "m")
			case 6:
				c("hrandfield", k, cnt())
			default:
				c("hincrby", k, e(), "1")
			}
		case 't':
			switch g.n(9) {
			case 0, 1:
				c("scard", k)
			case 2:
				c("smembers", k)
			case 3:
				c("sismember", k, e())
			case 4:
				c("srem", k, e(), e(), e())
			case 5:
				c("spop", k, cnt())
			case 6:
				c("srandmember", k, pick(g, []string{"", "-"})+cnt())
			case 7:
				c(pick(g, []string{"sunionstore", "sdiffstore", "sinterstore"}), dst, k, pick(g, []string{k, dst, "nokey"}))
			default:
				c("smove", k, dst, e())
			}
		}
	}
	return ops
}
