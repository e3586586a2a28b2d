package core

import (
	"math"
	"math/rand/v2"
	"strconv"
	"strings"

	"gredisverif/model"
)

// Prof steers the command generator.
type Prof struct {
	W         map[string]int // weight per command
	Min, Max  int            // number of steps
	LongP     float64        // probability of a long history
	LongMax   int
	Cross     float64 // probability that a key of another type is used
	Bad       float64 // probability that a command is made invalid
	Sleep     float64 // probability of a sleep step
	SleepKind string  // "": mixed; "short": mostly sub-second to few seconds
	TTL       float64 // probability of an extra expiry-setting step
	Bin       float64 // probability that a value is an arbitrary byte string
	Big       float64 // probability that an arbitrary byte string is big
	BulkP     float64 // probability of a push/add with many elements
	BulkMax   int
	Conns     int
	Dbs       int
	SelectP   float64
	CloseP    float64
	Dump      float64 // probability of a dump step
	CutP      float64 // probability that a request is split
	NKeys     int     // keys per type
	KeyStyle  string  // plain, weird, mixed, collide
	NumStr    float64 // probability that a string value is numeric
	CaseP     float64 // probability of unusual letter case
	Each      bool
	LongVal   bool    // long values that are nearly the same
	Scene     float64 // probability of a scripted scene (see scene.go)
	Scenes    string  // which scenes: letters d (drain), t (time to live), x (expired)
}

// Gen generates the steps of one case.
type Gen struct {
	R    *rand.Rand
	P    *Prof
	keys map[byte][]string // s l h t(set) n(numeric) x(any)
	all  []string
	vals []string
	long bool
	mem  map[string][]string // what has lately been put into each key
	seg  int
	cum  []int
	cmds []string
}

func NewGen(r *rand.Rand, p *Prof, seg int) *Gen {
	g := &Gen{R: r, P: p, seg: seg, keys: map[byte][]string{}, mem: map[string][]string{}}
	g.makeKeys()
	g.makeVals()
	t := 0
	for _, c := range model.Commands() {
		if w := p.W[c]; w > 0 {
			t += w
			g.cmds = append(g.cmds, c)
			g.cum = append(g.cum, t)
		}
	}
	return g
}

func (g *Gen) p(x float64) bool { return x > 0 && g.R.Float64() < x }
func (g *Gen) n(k int) int      { return g.R.IntN(k) }
func pick[T any](g *Gen, l []T) T {
	return l[g.R.IntN(len(l))]
}

func fnv32a(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h ^= uint32(s[i])
		h *= 16777619
	}
	return h
}

func (g *Gen) makeKeys() {
	n := g.P.NKeys
	if n == 0 {
		n = 2
	}
	used := map[string]bool{}
	style := g.P.KeyStyle
	if style == "mixed" {
		style = pick(g, []string{"plain", "plain", "weird", "collide"})
		if g.n(100) == 0 {
			style = "long"
		}
	}
	g.long = style == "long" || g.P.LongVal
	pad := g.longPad()
	target := uint32(g.n(1 << 30))
	mod := uint32(g.seg)
	if mod < 2 {
		mod = 7
	}
	for _, t := range []byte("slhtnx") {
		for i := 0; i < n; i++ {
			var k string
			for try := 0; ; try++ {
				if try == 0 && g.n(30) == 0 { // named like a word of a request
					if g.n(4) == 0 {
						k = pick(g, []string{"ex", "px", "nx", "xx", "get", "keepttl", "left", "right", "before", "after", "count", "rank", "maxlen", "withvalues", "limit", "match", "0", "1", "-1"})
					} else {
						k = pick(g, model.Commands())
					}
					if g.n(4) == 0 {
						k = strings.ToUpper(k)
					}
					if !used[k] {
						break
					}
				}
				switch style {
				case "weird":
					switch g.n(8) {
					case 0:
						k = ""
					case 1:
						k = string(t)
					case 2:
						k = string(t) + "\r\n" + strconv.Itoa(i)
					case 3:
						k = g.Bytes(1 + g.n(6))
					case 4:
						k = string(t) + "\x00" + strconv.Itoa(i)
					case 5:
						k = strings.Repeat(string(t), 1+g.n(300))
					case 6:
						k = pick(g, []string{"*", "?", "[a]", "[", "k ey", "\xff\xfe", "@", "&", "@k&", "\n", "\r", "$5", "*1\r\n$4\r\nPING\r\n"})
					default:
						k = string(t) + strconv.Itoa(i) + string(rune('A'+g.n(4)))
					}
				case "long": // the difference is at the front, in the middle or at the end
					u := string(t) + strconv.Itoa(i)
					switch h := g.n(len(pad)); g.n(4) {
					case 0:
						k = u + pad
					case 1:
						k = pad[:h] + u + pad[h:]
					default:
						k = pad + u
					}
					if try > 5 {
						k += strconv.Itoa(try)
					}
				case "near":
					if len(g.all) == 0 || g.n(4) == 0 {
						k = pick(g, []string{"key", "a", "", "1", "\r\n", "user:1", strings.Repeat("p", 40)})
					} else {
						k = g.near(pick(g, g.all))
					}
				case "collide":
					// all keys in the same segment of the data table (try a while), or of the lock table
					k = string(t) + strconv.Itoa(i) + "_" + strconv.Itoa(try*7+g.n(7))
					if try < 4000 && fnv32a(k)%mod != target%mod {
						continue
					}
				default:
					k = string(t) + strconv.Itoa(i)
				}
				if try > 20 && (style == "weird" || style == "near") {
					k += strconv.Itoa(try)
				}
				if !used[k] {
					break
				}
			}
			used[k] = true
			g.keys[t] = append(g.keys[t], k)
			g.all = append(g.all, k)
		}
	}
}

// Keys returns the key universe.
func (g *Gen) Keys() []string { return g.all }

func (g *Gen) makeVals() {
	g.vals = []string{"a", "b", "c", "", "ab", "1", "-7", "10"}
	if g.P.Bin > 0 {
		g.vals = append(g.vals, "\r\n", "a\r\nb", "\x00", "\xff\x80", "a\x00", "A", "nil", "$-1\r\n", "*0\r\n", " a", "a ")
	}
	g.R.Shuffle(len(g.vals), func(i, j int) { g.vals[i], g.vals[j] = g.vals[j], g.vals[i] })
	if k := 4 + g.n(5); k < len(g.vals) {
		g.vals = g.vals[:k]
	}
	if g.long {
		pad := g.longPad()
		g.vals = append(g.vals, pad, pad+"a", pad+"b", "c"+pad)
	}
}

// longPad is a string of some length around which buffers end.
func (g *Gen) longPad() string {
	n := pick(g, []int{60, 250, 252, 253, 1020, 1100, 2040, 4080, 4090, 4093, 5100, 8190, 16380, 20100})
	if g.n(5) == 0 {
		n = pick(g, []int{32766, 33000, 65530, 65533, 70000})
	}
	return strings.Repeat(pick(g, []string{"k", "ab", "\r\n", "\x00", "p:"}), n)[:n]
}

// Bytes returns n random bytes, biased to special ones.
func (g *Gen) Bytes(n int) string {
	b := make([]byte, n)
	mode := g.n(3)
	for i := range b {
		switch {
		case mode == 0:
			b[i] = byte(g.R.Uint32())
		case mode == 1:
			b[i] = pick(g, []byte("\r\n\x00\xff$*:+- a0"))
		default:
			b[i] = byte('a' + g.n(4))
		}
	}
	return string(b)
}

func (g *Gen) BigBytes() string {
	n := pick(g, []int{4093, 4094, 4095, 4096, 4097, 8190, 8192, 16384, 65535, 65536, 70000, 200000})
	if g.n(12) == 0 {
		n = 1<<20 + g.n(1<<20)
	}
	n += g.n(3)
	b := make([]byte, n)
	var x uint64
	for i := range b {
		if i%8 == 0 {
			x = g.R.Uint64()
		}
		b[i] = byte(x)
		x >>= 8
	}
	return string(b)
}

// near returns a byte string that is different from s but easily confused with it.
func (g *Gen) near(s string) string {
	switch g.n(8) {
	case 0:
		return s + pick(g, []string{"\x00", " ", "\r", "\n", "\r\n", "a", "\t"})
	case 1:
		return pick(g, []string{"\x00", " ", "0", "+", "@", "\n"}) + s
	case 2:
		if u := strings.ToUpper(s); u != s {
			return u
		}
		return strings.ToLower(s) + "_"
	case 3:
		if len(s) > 0 {
			b := []byte(s)
			b[g.n(len(b))] ^= byte(1 << g.n(8))
			return string(b)
		}
		return "\x00"
	case 4:
		if len(s) > 0 {
			return s[:len(s)-1]
		}
		return " "
	case 5:
		if len(s) > 1 {
			i := g.n(len(s) - 1)
			b := []byte(s)
			b[i], b[i+1] = b[i+1], b[i]
			if string(b) != s {
				return string(b)
			}
		}
		return s + s + "."
	case 6:
		return "@" + s + "&"
	default:
		return s + "\xff"
	}
}

// Val returns a value, element, field or member.
func (g *Gen) Val() string {
	if g.p(g.P.Bin) {
		if g.p(g.P.Big) {
			return g.BigBytes()
		}
		switch g.n(4) {
		case 0: // a near copy of a common value
			return g.near(pick(g, g.vals))
		default:
			return g.Bytes(g.n(20))
		}
	}
	if g.n(6) == 0 {
		return strconv.Itoa(g.n(40))
	}
	return pick(g, g.vals)
}

func (g *Gen) StrVal() string {
	if g.p(g.P.NumStr) {
		return g.NumVal()
	}
	if g.n(10) == 0 {
		return g.Bytes(g.n(60))
	}
	return g.Val()
}

func (g *Gen) NumVal() string {
	switch g.n(8) {
	case 0:
		if g.n(3) == 0 {
			return g.nearNum()
		}
		return pick(g, []string{"abc", "", " 1", "1 ", "1.5", "1e3", "0x10", "9223372036854775808", "-9223372036854775809", "--1", "1a", "nan", "inf"})
	case 1, 2:
		return g.Int64Edge()
	case 3:
		return pick(g, []string{"3.25", "0.1", "-2.5", "1e3", "5.0e3", "1e308", "100000000000000000000", ".5"})
	default:
		return strconv.Itoa(g.n(200) - 100)
	}
}

// nearNum is a number with something before, behind or in it that makes it none.
func (g *Gen) nearNum() string {
	n := strconv.Itoa(g.n(40) - 10)
	x := pick(g, []string{"\x00", "\n", "\r\n", "\r", " ", "\t", "\v", "\xa0", "\xff", "_", ",", "a", "l", "\x00\x00"})
	switch g.n(5) {
	case 0:
		return x + n
	case 1:
		return n + x + "0"
	default:
		return n + x
	}
}

func (g *Gen) Int64Edge() string {
	k := int64(g.n(4))
	switch g.n(6) {
	case 0:
		return strconv.FormatInt(math.MaxInt64-k, 10)
	case 1:
		return strconv.FormatInt(math.MinInt64+k, 10)
	case 2:
		return strconv.FormatInt(int64(g.R.Uint64()), 10)
	case 3:
		return strconv.FormatInt(math.MaxInt32+k-1, 10)
	case 4:
		return strconv.FormatInt(math.MinInt32-k+1, 10)
	default:
		return strconv.FormatInt(int64(1)<<(32+g.n(31)), 10)
	}
}

// Index returns an index or bound argument.
func (g *Gen) Index() string {
	if g.n(80) == 0 {
		return g.nearNum()
	}
	switch g.n(12) {
	case 0:
		return pick(g, []string{"9223372036854775807", "-9223372036854775808", "-9223372036854775807", "2147483648", "-2147483649", "4294967296", "-4294967296"})
	case 1, 2:
		return strconv.Itoa(g.n(81) - 40)
	case 3:
		if g.P.BulkMax > 40 {
			return strconv.Itoa(g.n(2*g.P.BulkMax+8) - g.P.BulkMax - 4)
		}
		fallthrough
	default:
		return strconv.Itoa(g.n(13) - 6)
	}
}

func (g *Gen) junkNum() string {
	if g.n(3) == 0 {
		return g.nearNum()
	}
	return pick(g, []string{"", "x", "1x", "1.5", "abc", " ", "9223372036854775808", "-9223372036854775809", "1e2", "0x1", "--2", "\r\n", "nan", "１"})
}

// Key picks a key, normally of type t.
func (g *Gen) Key(t byte) string {
	if g.p(g.P.Cross) || len(g.keys[t]) == 0 {
		return pick(g, g.all)
	}
	if t == 's' && g.n(5) == 0 {
		return pick(g, g.keys['n'])
	}
	if t == 'n' && g.n(6) == 0 {
		return pick(g, g.keys['s'])
	}
	if g.n(8) == 0 {
		return pick(g, g.keys['x'])
	}
	return pick(g, g.keys[t])
}

func (g *Gen) AnyKey() string { return pick(g, g.all) }

func (g *Gen) count() string {
	switch g.n(12) {
	case 0:
		return "0"
	case 1:
		return pick(g, []string{"9223372036854775807", "2147483648", "1000"})
	default:
		return strconv.Itoa(1 + g.n(6))
	}
}

// secs returns a time to live in seconds.
func (g *Gen) secs() string {
	switch g.n(14) {
	case 0:
		return pick(g, []string{"0", "-1", "-100", "9223372036854775807", "-9223372036854775808", "9223372036854775806"})
	case 1:
		return pick(g, []string{"100", "1000", "100000", "2147483648", "60", "61", "3600", "86400", "256", "65536", "31536000", "4294967296"})
	default:
		return strconv.Itoa(1 + g.n(6))
	}
}

func (g *Gen) many(min, max int, f func() string) []string {
	n := min + g.n(max-min+1)
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, f())
	}
	return r
}

// manyKeys is many, now and then with a great many.
func (g *Gen) manyKeys(min, max int, f func() string) []string {
	if g.n(60) == 0 {
		return g.many(max, pick(g, []int{10, 40, 300}), f)
	}
	return g.many(min, max, f)
}

func (g *Gen) bulkN() int {
	if g.p(g.P.BulkP) {
		return 1 + g.n(g.P.BulkMax)
	}
	return 1 + g.n(4)
}

func (g *Gen) elems() []string {
	n := g.bulkN()
	var r []string
	if g.n(6) == 0 { // few distinct values
		n += g.n(6)
		a, b := g.Val(), g.Val()
		for i := 0; i < n; i++ {
			if g.n(5) == 0 {
				r = append(r, b)
			} else {
				r = append(r, a)
			}
		}
		return r
	}
	for i := 0; i < n; i++ {
		if n > 8 && g.n(3) > 0 {
			r = append(r, "e"+strconv.Itoa(g.n(n*2)))
		} else {
			r = append(r, g.Val())
		}
	}
	return r
}

// remember notes what a command puts into its key.
func (g *Gen) remember(a []string) {
	if len(a) < 3 {
		return
	}
	add := func(k, v string) {
		if m := g.mem[k]; len(m) < 200 {
			g.mem[k] = append(m, v)
		} else {
			m[g.n(len(m))] = v
		}
	}
	switch a[0] {
	case "lpush", "rpush", "sadd":
		for _, v := range a[2:] {
			add(a[1], v)
		}
	case "hset", "hmset":
		for i := 2; i < len(a); i += 2 {
			add(a[1], a[i])
		}
	case "hsetnx", "lset":
		add(a[1], a[2])
		if a[0] == "lset" && len(a) > 3 {
			add(a[1], a[3])
		}
	case "linsert":
		if len(a) > 4 {
			add(a[1], a[4])
		}
	case "rename", "lmove", "smove", "sunionstore", "sinterstore", "sdiffstore":
		src, dst := a[1], a[2]
		if strings.HasSuffix(a[0], "store") {
			src, dst = a[2], a[1]
		}
		if src != dst {
			g.mem[dst] = append([]string(nil), g.mem[src]...)
		}
	}
}

// In returns an element, field or member that key k may well contain.
func (g *Gen) In(k string) string {
	if m := g.mem[k]; len(m) > 0 && g.n(5) > 1 {
		return pick(g, m)
	}
	return g.Field()
}

// IndexOf returns an index for key k, often near the ends of what it holds.
func (g *Gen) IndexOf(k string) string {
	if n := len(g.mem[k]); n > 0 && g.n(3) == 0 {
		i := pick(g, []int{0, n / 2, n - 1, n, n + 1}) + g.n(3) - 1
		if g.n(2) == 0 {
			i = -i
		}
		return strconv.Itoa(i)
	}
	return g.Index()
}

// Field returns a hash field or set member (small pool so that hits are common).
func (g *Gen) Field() string {
	if g.p(g.P.BulkP) {
		return "e" + strconv.Itoa(g.n(g.P.BulkMax*2))
	}
	return g.Val()
}

func (g *Gen) nearFloat() string {
	n := strconv.FormatFloat(float64(g.n(200)-100)/pick(g, []float64{1, 2, 4, 10}), 'g', -1, 64)
	x := pick(g, []string{"\x00", "\n", "\r\n", " ", "\t", "\xff", ",", "a", "f", "\x00\x00"})
	if g.n(4) == 0 {
		return x + n
	}
	return n + x
}

func (g *Gen) float() string {
	switch g.n(7) {
	case 0:
		if g.n(3) == 0 {
			return g.nearFloat()
		}
		return pick(g, []string{"inf", "-inf", "nan", "abc", "", "1e400", "Infinity", "+Inf", "1..2"})
	case 1:
		return pick(g, []string{"1e308", "-1e308", "1.7976931348623157e308", "1e-10", "123456789.123", "5.0e3", "2.0e2", "-0.1", "1e17"})
	default:
		return strconv.FormatFloat(float64(g.n(2000)-1000)/pick(g, []float64{1, 2, 4, 8, 10, 100, 3}), 'g', -1, 64)
	}
}

// Cmd generates one command by name (valid in form).
func (g *Gen) Cmd(c string) ([]string, *Op) {
	var o *Op
	var a []string
	switch c {
	case "ping":
		if g.n(2) == 0 {
			a = []string{g.Val()}
		}
	case "del", "exists":
		a = g.manyKeys(1, 4, g.AnyKey)
	case "keys":
		a = []string{g.Pattern()}
	case "type", "ttl", "persist":
		a = []string{g.AnyKey()}
	case "expire":
		a = []string{g.AnyKey(), g.secs()}
		if g.n(3) == 0 {
			a = append(a, pick(g, []string{"NX", "XX", "GT", "LT"}))
		}
	case "rename":
		a = []string{g.AnyKey(), g.AnyKey()}
	case "get", "strlen":
		a = []string{g.Key('s')}
	case "set":
		a = []string{g.Key('s'), g.StrVal()}
		if g.n(2) == 0 {
			o = g.setOpts(&a)
		}
	case "getrange":
		a = []string{g.Key('s'), g.Index(), g.Index()}
	case "setrange":
		off := strconv.Itoa(g.n(12))
		switch g.n(12) {
		case 0:
			off = pick(g, []string{"-1", "9223372036854775807", "536870912", "4611686018427387904", "536870911", "-9223372036854775808"})
		case 1:
			off = strconv.Itoa(g.n(5000))
		}
		v := g.Val()
		if off == "536870911" && len(v) <= 1 {
			v = "toolong"
		}
		a = []string{g.Key('s'), off, v}
	case "mget":
		a = g.manyKeys(1, 5, func() string { return g.Key('s') })
	case "mset":
		n := 1 + g.n(4)
		if g.n(60) == 0 {
			n = 5 + g.n(200)
		}
		for i := n; i > 0; i-- {
			a = append(a, g.Key('s'), g.StrVal())
		}
	case "setex":
		a = []string{g.Key('s'), g.secs(), g.StrVal()}
	case "setnx", "append":
		a = []string{g.Key('s'), g.StrVal()}
	case "incr", "decr":
		a = []string{g.Key('n')}
	case "incrby", "decrby":
		d := strconv.Itoa(g.n(21) - 10)
		if g.n(3) == 0 {
			d = g.Int64Edge()
		} else if g.n(25) == 0 {
			d = g.nearNum()
		}
		a = []string{g.Key('n'), d}
	case "incrbyfloat":
		a = []string{g.Key('n'), g.float()}

	case "hset", "hmset":
		a = []string{g.Key('h')}
		n := g.bulkN()
		for i := 0; i < n; i++ {
			f := g.Field()
			if n > 8 {
				f = "e" + strconv.Itoa(g.n(n*2))
			}
			v := g.Val()
			if g.p(g.P.NumStr) {
				v = g.NumVal()
			}
			a = append(a, f, v)
		}
	case "hsetnx":
		k := g.Key('h')
		a = []string{k, g.In(k), g.Val()}
	case "hdel":
		k := g.Key('h')
		a = append([]string{k}, g.many(1, 4, func() string { return g.In(k) })...)
	case "hget", "hexists", "hstrlen":
		k := g.Key('h')
		a = []string{k, g.In(k)}
	case "hgetall", "hkeys", "hvals", "hlen":
		a = []string{g.Key('h')}
	case "hmget":
		k := g.Key('h')
		a = append([]string{k}, g.many(1, 5, func() string { return g.In(k) })...)
	case "hincrby":
		d := strconv.Itoa(g.n(21) - 10)
		if g.n(3) == 0 {
			d = g.Int64Edge()
		} else if g.n(25) == 0 {
			d = g.nearNum()
		}
		k := g.Key('h')
		a = []string{k, g.In(k), d}
	case "hincrbyfloat":
		k := g.Key('h')
		a = []string{k, g.In(k), g.float()}
	case "hrandfield":
		a = []string{g.Key('h')}
		if g.n(4) > 0 {
			a = append(a, g.randCount())
			if g.n(2) == 0 {
				a = append(a, "WITHVALUES")
			}
		}

	case "lpush", "rpush", "lpushx", "rpushx":
		a = append([]string{g.Key('l')}, g.elems()...)
	case "llen":
		a = []string{g.Key('l')}
	case "lindex":
		k := g.Key('l')
		a = []string{k, g.IndexOf(k)}
	case "lset":
		k := g.Key('l')
		a = []string{k, g.IndexOf(k), g.Val()}
	case "linsert":
		k := g.Key('l')
		a = []string{k, pick(g, []string{"BEFORE", "AFTER"}), g.In(k), g.Val()}
		if g.n(4) == 0 {
			a[3] = a[2]
		}
	case "lrange", "ltrim":
		k := g.Key('l')
		a = []string{k, g.IndexOf(k), g.IndexOf(k)}
		if c == "ltrim" && g.n(2) == 0 { // gentle trims keep lists alive
			a[1], a[2] = strconv.Itoa(g.n(3)), strconv.Itoa(-1-g.n(3))
		}
	case "lrem":
		k := g.Key('l')
		a = []string{k, strconv.Itoa(g.n(9) - 4), g.In(k)}
		if g.n(4) == 0 {
			a[1] = "0"
		}
		if g.n(15) == 0 {
			a[1] = pick(g, []string{"9223372036854775807", "-9223372036854775807", "1000", "-1000"})
		}
	case "lpop", "rpop":
		a = []string{g.Key('l')}
		if g.n(3) == 0 {
			a = append(a, g.count())
		}
	case "lmove":
		a = []string{g.Key('l'), g.Key('l'), pick(g, []string{"LEFT", "RIGHT"}), pick(g, []string{"LEFT", "RIGHT"})}
	case "lpos":
		k := g.Key('l')
		a = []string{k, g.In(k)}
		opts := []string{"RANK", "COUNT", "MAXLEN"}
		g.R.Shuffle(3, func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
		for _, o := range opts[:g.n(4)] {
			v := strconv.Itoa(g.n(6))
			if o == "RANK" {
				v = strconv.Itoa(g.n(9) - 4)
				if v == "0" && g.n(3) > 0 {
					v = "1"
				}
			} else if g.n(15) == 0 {
				v = "-1"
			}
			if g.n(20) == 0 {
				v = pick(g, []string{"9223372036854775807", "100"})
			}
			a = append(a, o, v)
		}

	case "sadd":
		a = append([]string{g.Key('t')}, g.elems()...)
	case "srem":
		k := g.Key('t')
		a = append([]string{k}, g.many(1, 4, func() string { return g.In(k) })...)
	case "scard", "smembers":
		a = []string{g.Key('t')}
	case "sismember":
		k := g.Key('t')
		a = []string{k, g.In(k)}
	case "smove":
		k := g.Key('t')
		a = []string{k, g.Key('t'), g.In(k)}
	case "spop":
		a = []string{g.Key('t')}
		if g.n(3) == 0 {
			a = append(a, g.count())
		}
	case "srandmember":
		a = []string{g.Key('t')}
		if g.n(3) > 0 {
			a = append(a, g.randCount())
		}
	case "sinter", "sunion", "sdiff":
		a = g.manyKeys(1, 4, func() string { return g.Key('t') })
	case "sinterstore", "sunionstore", "sdiffstore":
		a = g.manyKeys(2, 5, func() string { return g.Key('t') })
	}
	a = append([]string{c}, a...)
	g.remember(a)
	return a, o
}

func (g *Gen) randCount() string {
	switch g.n(10) {
	case 0:
		return "0"
	case 1:
		return pick(g, []string{"9223372036854775807", "100000", "-9223372036854775808", "-9223372036854775807"})
	case 2:
		return strconv.Itoa(-(1 + g.n(300)))
	case 3, 4, 5:
		return strconv.Itoa(-(1 + g.n(6)))
	default:
		return strconv.Itoa(1 + g.n(6))
	}
}

// setOpts appends options to a SET.
func (g *Gen) setOpts(a *[]string) *Op {
	var o *Op
	var parts [][]string
	switch g.n(4) {
	case 0:
		parts = append(parts, []string{"NX"})
	case 1:
		parts = append(parts, []string{"XX"})
	}
	if g.n(4) == 0 {
		parts = append(parts, []string{"GET"})
	}
	abs := ""
	switch g.n(9) {
	case 0, 1:
		parts = append(parts, []string{"EX", g.secs()})
	case 2, 3:
		ms := strconv.Itoa(1 + g.n(6000))
		if g.n(8) == 0 {
			ms = pick(g, []string{"60000", "61001", "100000", "3600000", "2147483648", "4294967297", "86400000", "65536"})
		}
		if g.n(10) == 0 {
			ms = pick(g, []string{"0", "-1", "9223372036854775807", "-9223372036854775808", "9223372036854775806"})
		}
		parts = append(parts, []string{"PX", ms})
	case 4:
		abs = "EXAT"
		parts = append(parts, []string{"EXAT", "@"})
	case 5:
		abs = "PXAT"
		parts = append(parts, []string{"PXAT", "@"})
	case 6:
		parts = append(parts, []string{"KEEPTTL"})
	}
	g.R.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	for _, p := range parts {
		for _, w := range p {
			if w == "@" {
				if g.n(10) == 0 {
					w = pick(g, []string{"0", "-1", "1", "-9223372036854775808", "4102444800"})
				} else {
					o = &Op{At: len(*a) + 1, Off: int64(g.n(9000) - 1500), Unit: "s"}
					if abs == "PXAT" {
						o.Unit = "m"
					}
				}
			}
			*a = append(*a, w)
		}
	}
	return o
}

// Pattern returns a KEYS pattern related to the key universe.
func (g *Gen) Pattern() string {
	if g.long { // long keys: nothing whose matching takes long by right
		k := g.AnyKey()
		if len(k) > 1200 {
			return pick(g, []string{"*", "?*", "*" + k[len(k)-3:], k[:3] + "*"})
		}
		h := g.n(len(k) + 1)
		return pick(g, []string{"*", k, k[:h] + "*", "?*", "*" + k[max(0, len(k)-3):], k[:h] + "?" + k[min(h+1, len(k)):]})
	}
	switch g.n(6) {
	case 0:
		return "*"
	case 1:
		return g.AnyKey()
	case 2:
		return pick(g, []string{"?*", "*0", "s*", "[slh]*", "[^s]*", "[a-m]?", "??", "*1*", ""})
	default:
		return g.PatternOf(g.AnyKey())
	}
}

// PatternOf derives a pattern from a string, mutating parts of it.
func (g *Gen) PatternOf(k string) string {
	var b strings.Builder
	for i := 0; i < len(k); i++ {
		c := k[i]
		switch g.n(9) {
		case 0:
			b.WriteByte('?')
		case 1:
			b.WriteByte('*')
			i += g.n(3)
		case 2:
			b.WriteByte('*')
			b.WriteByte(c)
		case 3:
			b.WriteByte('[')
			if g.n(2) == 0 {
				b.WriteByte('^')
			}
			for j := 1 + g.n(3); j > 0; j-- {
				x := byte(int(c) + g.n(3) - 1)
				if g.n(2) == 0 {
					b.WriteByte(x)
					b.WriteByte('-')
					b.WriteByte(x + byte(g.n(4)))
				} else {
					b.WriteByte(x)
				}
			}
			b.WriteByte(']')
		default:
			b.WriteByte(c)
		}
	}
	if g.n(4) == 0 {
		b.WriteByte('*')
	}
	return b.String()
}

// spoil makes a command invalid in form (or at least unusual).
func (g *Gen) spoil(a []string) []string {
	a = append([]string(nil), a...)
	if a[0] == "setrange" && len(a) > 2 && a[2] == "536870911" {
		a[2] = "536870912" // no half-gigabyte values
	}
	switch g.n(6) {
	case 0: // fewer arguments
		if len(a) > 1 {
			i := 1 + g.n(len(a)-1)
			a = append(a[:i], a[i+1:]...)
		}
		if g.n(3) == 0 {
			a = a[:1]
		}
	case 1: // more arguments
		for i := 1 + g.n(3); i > 0; i-- {
			a = append(a, pick(g, []string{"x", "", "1", "NX", "GET", "WITHVALUES", "a\r\nb"}))
		}
	case 2, 3: // junk instead of an argument after the key
		if len(a) > 2 {
			i := 2 + g.n(len(a)-2)
			a[i] = g.junkNum()
		} else {
			a = append(a, g.junkNum())
		}
	case 4: // bad option
		a = append(a, pick(g, []string{"FOO", "NX", "XX", "EX", "PX", "EXAT", "PXAT", "KEEPTTL", "RANK", "COUNT", "\r\n", "GT", "LT", "before"}))
		if g.n(2) == 0 {
			a = append(a, pick(g, []string{"1", "x", "NX", "XX", "10", "-1"}))
		}
	case 5: // unknown command
		a[0] = pick(g, []string{"", "foo", "get ", "sett", "GETT", "\r\n", "get\r\nx", "\x00", "hgetal", "flushall", "config", "*1", "+OK", strings.Repeat("z", 300)})
	}
	return a
}

func (g *Gen) recase(s string) string {
	b := []byte(s)
	mode := g.n(3)
	for i := range b {
		if mode == 0 || (mode == 1 && g.n(2) == 0) {
			b[i] = strings.ToUpper(string(b[i]))[0]
		}
	}
	return string(b)
}

var optWords = map[string]bool{"NX": true, "XX": true, "GT": true, "LT": true, "GET": true, "EX": true, "PX": true, "EXAT": true, "PXAT": true,
	"KEEPTTL": true, "BEFORE": true, "AFTER": true, "LEFT": true, "RIGHT": true, "RANK": true, "COUNT": true, "MAXLEN": true, "WITHVALUES": true}

// Random picks a command by weight and generates it.
func (g *Gen) Random() Op {
	x := g.n(g.cum[len(g.cum)-1])
	i := 0
	for g.cum[i] <= x {
		i++
	}
	return g.Make(g.cmds[i])
}

// Make generates an op for command c, applying the profile's mutations.
func (g *Gen) Make(c string) Op {
	a, ex := g.Cmd(c)
	op := Op{K: "c"}
	if ex != nil {
		op.At, op.Off, op.Unit = ex.At, ex.Off, ex.Unit
	}
	if g.p(g.P.Bad) {
		a = g.spoil(a)
		op.At, op.Off, op.Unit = 0, 0, ""
	}
	if g.p(g.P.CaseP) {
		if isLower(a[0]) {
			a[0] = g.recase(a[0])
		}
		for i := 2; i < len(a); i++ {
			if optWords[a[i]] && a[0] != "mset" {
				a[i] = g.optCase(a[i])
			}
		}
	}
	op.Args = Bs(a)
	return op
}

func (g *Gen) optCase(s string) string {
	if g.n(2) == 0 {
		return strings.ToLower(s)
	}
	b := []byte(strings.ToLower(s))
	for i := range b {
		if g.n(2) == 0 {
			b[i] -= 32
		}
	}
	return string(b)
}

func isLower(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < 'a' || s[i] > 'z' {
			return false
		}
	}
	return s != ""
}

func (g *Gen) sleepMs() int64 {
	if g.P.SleepKind == "short" {
		return int64(pick(g, []int{1, 10, 100, 400, 999, 1000, 1001, 1500, 2500}))
	}
	switch g.n(6) {
	case 0:
		return int64(1 + g.n(999))
	case 1:
		return int64(1000 * (1 + g.n(4)))
	case 2:
		return int64(2000 + g.n(6000))
	case 3:
		return int64(pick(g, []int{10000, 10000, 10000, 59999, 61000, 255000, 3600000, 3601000, 65537000, 86400000, 2147483648}))
	default:
		return int64(500 + g.n(3000))
	}
}

// expiryStep sets a time to live on some key.
func (g *Gen) expiryStep() Op {
	switch g.n(6) {
	case 0:
		return g.Make("setex")
	case 1, 2:
		a := []string{g.Key('s'), g.StrVal()}
		ex := g.setOpts(&a)
		op := Op{K: "c", Args: Bs(append([]string{"set"}, a...))}
		if ex != nil {
			op.At, op.Off, op.Unit = ex.At, ex.Off, ex.Unit
		}
		return op
	default:
		a := []string{"expire", g.AnyKey(), strconv.Itoa(1 + g.n(5))}
		if g.n(4) == 0 {
			a = append(a, pick(g, []string{"NX", "XX", "GT", "LT"}))
		}
		return Op{K: "c", Args: Bs(a)}
	}
}

// History generates a list of steps.
func (g *Gen) History() []Op {
	p := g.P
	n := p.Min + g.n(p.Max-p.Min+1)
	if g.p(p.LongP) {
		n = p.Max + g.n(p.LongMax-p.Max+1)
	}
	conns := p.Conns
	if conns == 0 {
		conns = 1
	}
	var ops []Op
	for len(ops) < n {
		conn := g.n(conns)
		var o Op
		switch {
		case g.p(p.Sleep):
			z := Op{K: "z", Ms: g.sleepMs()}
			if g.n(3) == 0 { // sleep to around the deadline of a key
				z.Args = Bs([]string{g.AnyKey()})
				z.Off = int64(pick(g, []int{-1000, -500, -1, 0, 1, 500, 999, 1000, 1001, 1500, 2000, 3000}))
			}
			ops = append(ops, z)
			continue
		case g.p(p.Dump):
			ops = append(ops, Op{K: "d"})
			continue
		case g.p(p.CloseP):
			ops = append(ops, Op{K: "x", Conn: conn})
			continue
		case g.p(p.SelectP):
			s := strconv.Itoa(g.n(p.Dbs))
			a := []string{g.optCase("SELECT"), s}
			if g.n(4) == 0 {
				a[1] = pick(g, []string{strconv.Itoa(p.Dbs), strconv.Itoa(p.Dbs + 1), "-1", "x", "", "9223372036854775807", "-9223372036854775808", "1.0", "1 ", "99999999999999999999", "\r\n", "4294967296"})
			} else if g.n(8) == 0 {
				a[1] = pick(g, []string{"0x1", "0X0", "0b1", "0o1", "1_0", "0_1", "010", "00", "01", "+1", "+0", "-0", " 0", "0 ", "1e0", "0.0", "１", "0x10", "\x00", "0\x00", "1\n", "a0", "0a", "--0", "0,1"})
			}
			if g.n(15) == 0 {
				a = append(a, "0")
			}
			if g.n(25) == 0 {
				a = a[:1]
			}
			o = Op{K: "c", Args: Bs(a)}
		case g.p(p.Scene):
			for _, o := range g.scene() {
				o.Conn = conn
				ops = append(ops, o)
			}
			continue
		case g.p(p.TTL):
			o = g.expiryStep()
		default:
			o = g.Random()
		}
		o.Conn = conn
		if g.p(p.CutP) {
			total := 16
			for _, a := range o.Args {
				total += len(a) + 8
			}
			for i := 1 + g.n(4); i > 0; i-- {
				o.Cuts = append(o.Cuts, 1+g.n(total))
			}
			o.Slow = g.n(2) == 0
		}
		ops = append(ops, o)
	}
	return ops
}
