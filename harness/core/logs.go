package core

import (
	"math/rand/v2"
)

var logLevels = []string{"debug", "info", "warning", "panic", "error"}

// LogRank orders the levels.
func LogRank(l string) int {
	for i, x := range logLevels {
		if x == l {
			return i
		}
	}
	return 1
}

func genLog(c *Case, r *rand.Rand) {
	c.Kind = "log"
	c.Seg, c.Dbs = 0, 0
	c.Fault = one(r, "", "", "new-dir", "old-file")
	if c.Fault == "old-file" && r.IntN(10) == 0 {
		c.N = r.IntN(3 << 20) // size of what is there
	}
	for s := 1 + r.IntN(3); s > 0; s-- {
		c.Ops = append(c.Ops, Op{K: "i", Args: Bs([]string{one(r, logLevels...)})})
		g := one(r, 1, 2, 3, 8, 16)
		n := r.IntN(60)
		if g > 2 {
			n = 40 + r.IntN(300)
		}
		for ; n > 0; n-- {
			a := []string{one(r, logLevels...)}
			for k := r.IntN(4); k > 0; k-- {
				a = append(a, one(r, "x", "hello world", "%d", "%s %v %!", "", "[error]", "]", "é中", "\t", "100%", "a=b", "127.0.0.1:6379", "\"q\"", longText(r)))
			}
			if r.IntN(4) == 0 { // the same call again and again
				a = []string{one(r, "info", "error", a[0]), one(r, "<same0>", "<same0>", "<same1>")}
				c.Ops = append(c.Ops, Op{K: "l", N: 1, Conn: r.IntN(g), Args: Bs(a)})
				if r.IntN(2) == 0 {
					c.Ops = append(c.Ops, Op{K: "l", N: 1, Conn: c.Ops[len(c.Ops)-1].Conn, Args: Bs(a)})
				}
				continue
			}
			c.Ops = append(c.Ops, Op{K: "l", Conn: r.IntN(g), Args: Bs(a)})
		}
	}
}

func longText(r *rand.Rand) string {
	n := r.IntN(300)
	if r.IntN(30) == 0 {
		n = 5000 + r.IntN(70000)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + r.IntN(26))
	}
	return string(b)
}
