package core

import (
	"fmt"
	"math/rand/v2"
	"strconv"
	"strings"
)

// GenE2E makes a case that is run against the real server process.
func GenE2E(prop string, seed uint64, index int64) *Case {
	r := Rand(prop+"-e2e", seed, index)
	c := &Case{Prop: prop, Seed: seed, Index: index, Seg: one(r, 1, 4, 100), Dbs: one(r, 1, 3, 16)}
	switch prop {
	case "C03":
		genFuzz(c, r)
		c.Kind = "e2e-fuzz"
		if r.IntN(10) == 0 {
			p := &Prof{W: allTypes(), KeyStyle: "plain", NKeys: 1}
			at := r.IntN(len(c.Ops) + 1)
			c.Ops = append(c.Ops[:at:at], append([]Op{burst(r, NewGen(r, p, c.Seg)), {K: "v"}}, c.Ops[at:]...)...)
		}
	case "C20":
		c.Kind = "e2e-finish"
		p := &Prof{W: allTypes(), KeyStyle: "plain", NKeys: 1}
		g := NewGen(r, p, c.Seg)
		for n := 5 + r.IntN(30); n > 0; n-- {
			o := Op{K: "n", N: r.IntN(4)}
			o.Fault = one(r, "close", "reset", "half", "partial", "partial-reset", "protocol", "protocol-wait", "unread", "unread-reset", "idle")
			switch o.Fault {
			case "partial", "partial-reset":
				d := g.stream()
				o.Data = B(d[:1+r.IntN(len(d)-1)])
			case "protocol", "protocol-wait":
				o.Data = B(one(r, "*1\r\n$x\r\n", "*x\r\n", "$-9\r\n", "*1\r\n$3\r\nabcde\r\n", "*-5\r\n", "*1\r\n$99999999999999\r\n", "*2\r\n:x\r\n"))
			}
			c.Ops = append(c.Ops, o)
		}
		if r.IntN(4) == 0 {
			c.Ops = append(c.Ops, burst(r, g))
		}
	case "C24":
		genE2EConfig(c, r)
	case "C26":
		genLife(c, r)
	case "C10":
		genRealExpiry(c, r)
	default:
		genRealSeq(c, r)
	}
	return c
}

// genRealSeq: a history of the property's own kind for the server process,
// without commands that depend on the clock.
func genRealSeq(c *Case, r *rand.Rand) {
	c.Kind = "e2e-seq"
	sub := Generate(c.Prop, c.Seed+77777, c.Index, "quick")
	if sub.Kind != "seq" || len(sub.Ops) > 400 || c.Prop == "C02" {
		for _, a := range parHistory(c.Prop, r, c, "quick", 0, 100) {
			c.Ops = append(c.Ops, Op{K: "c", Args: Bs(a)})
		}
		return
	}
	c.Dbs = sub.Dbs
	for _, o := range sub.Ops {
		if o.K == "x" || o.K == "c" && o.Unit == "" && len(o.Args) > 0 && (!timed(o.Strs()) || strings.EqualFold(string(o.Args[0]), "select")) {
			c.Ops = append(c.Ops, o)
		}
	}
}

// genRealExpiry: keys that expire by the real clock.
func genRealExpiry(c *Case, r *rand.Rand) {
	c.Kind = "e2e-seq"
	g := NewGen(r, &Prof{W: allTypes(), KeyStyle: "plain", NKeys: 3}, c.Seg)
	add := func(l ...Op) {
		for _, o := range l {
			a := o.Strs()
			if o.Unit == "" && len(a) > 0 && !(timed(a) && o.N != 7) && !strings.EqualFold(a[0], "ttl") && !strings.EqualFold(a[0], "persist") {
				o.N = 0
				c.Ops = append(c.Ops, o)
			}
		}
	}
	var keys []string
	types := map[string]byte{}
	for n := 4 + r.IntN(8); n > 0; n-- {
		t := pick(g, typeOf)
		k := pick(g, g.keys[t])
		ops, _ := g.fresh(k, t, 3)
		add(ops...)
		sec := strconv.Itoa(1 + r.IntN(2))
		o := g.op("expire", k, sec)
		if t == 's' || t == 'n' {
			switch r.IntN(4) {
			case 0:
				o = g.op("set", k, "7", "ex", sec)
			case 1:
				o = g.op("setex", k, sec, "7")
			case 2:
				o = g.op("set", k, "7", "px", one(r, "1", "400", "999", "1500"))
			}
		}
		if r.IntN(6) == 0 {
			o = g.op("expire", k, "1000")
		}
		o.N = 7
		add(o)
		keys = append(keys, k)
		types[k] = t
	}
	for n := r.IntN(3); n > 0; n-- {
		k := pick(g, keys)
		add(g.on(k, types[k]))
	}
	c.Ops = append(c.Ops, Op{K: "z", Ms: 200})
	add(g.op("keys", "*"))
	c.Ops = append(c.Ops, Op{K: "z", Ms: 2700 + r.Int64N(600)})
	for n := 3 + r.IntN(12); n > 0; n-- {
		k := pick(g, keys)
		if r.IntN(3) == 0 {
			add(g.look(k))
		} else {
			add(g.on(k, types[k]))
		}
	}
}

// burst: many connections that all end in the same way.
func burst(r *rand.Rand, g *Gen) Op {
	o := Op{K: "b", N: 100 + r.IntN(500), Fault: one(r, "close", "reset", "half")}
	switch r.IntN(6) {
	case 0:
	case 1:
		o.Data = B(g.rawGarbage())
	case 2:
		o.Data = B(g.rawRESP())
	case 3:
		o.Data = B(one(r, "\n", "*1\r\n$x\r\n", "*x\r\n", "$-9\r\n", "*1\r\n$3\r\nabcde\r\n", "*-5\r\n", "*1\r\n$99999999999999\r\n"))
	case 4:
		o.Data = B("*1\r\n$4\r\nPING\r\n*2\r\n$3\r\nGET\r\n$7\r\nwitness\r\n")
	default:
		d := "*2\r\n$3\r\nGET\r\n$7\r\nwitness\r\n"
		o.Data = B(d[:1+r.IntN(len(d)-1)])
	}
	o.Slow = r.IntN(3) == 0 // all open at the same time
	return o
}

// genE2EConfig: which options are given how. @HOST@, @PORT@ and @DIR@ stand
// for an address that is free when the case runs and a scratch directory.
func genE2EConfig(c *Case, r *rand.Rand) {
	c.Kind = "e2e-config"
	bad := r.IntN(3) == 0
	src := func() string { return one(r, "flag", "file", "file") }
	add := func(o, v, s string) { c.Ops = append(c.Ops, Op{K: "o", Args: Bs([]string{o, v, s})}) }
	if r.IntN(3) > 0 {
		add("host", "@HOST@", src())
	}
	add("port", "@PORT@", src())
	if r.IntN(3) > 0 {
		add("dbnum", strconv.Itoa(one(r, 1, 2, 3, 7, 16, 17, 40, 257, 300)), src())
	}
	if r.IntN(3) > 0 {
		add("segnum", strconv.Itoa(one(r, 1, 2, 3, 50, 101)), src())
	}
	if r.IntN(3) > 0 {
		add("logdir", "@DIR@", src())
	}
	if r.IntN(3) > 0 {
		add("loglevel", one(r, "debug", "info", "warning", "panic", "error"), src())
	}
	both := ""
	if r.IntN(4) == 0 { // given twice: the file prevails
		both = one(r, "dbnum", "loglevel", "logdir")
	}
	r.Shuffle(len(c.Ops), func(i, j int) { c.Ops[i], c.Ops[j] = c.Ops[j], c.Ops[i] })
	if bad {
		switch r.IntN(5) {
		case 0:
			c.Fault = "missing-file"
		case 1: // in the file
			o := one(r, "host", "port", "segnum", "dbnum")
			v := one(r, "x", "1x", "", "1.5.2.", "99999999999999999999")
			add(o, v, "file")
			c.Fault = "bad-value"
		case 2: // a flag
			o := one(r, "host", "port", "segnum", "dbnum")
			add(o, one(r, "x", "1x", "1.5.2."), "flag")
			c.Fault = "bad-value"
		case 3:
			add(one(r, "segnum", "dbnum"), one(r, "0", "-1"), src())
			c.Fault = "bad-value"
		default:
			add("port", one(r, "65536", "99999", "-1"), "file")
			c.Fault = "bad-value"
		}
	}
	// one value per option: the later addition replaces the earlier one
	last := map[string]int{}
	for i, o := range c.Ops {
		last[string(o.Args[0])] = i
	}
	var ops []Op
	for i, o := range c.Ops {
		if last[string(o.Args[0])] == i {
			ops = append(ops, o)
		}
	}
	c.Ops = ops
	var b strings.Builder
	for _, o := range ops {
		if o.Args[2] != "file" {
			continue
		}
		for r.IntN(5) == 0 {
			b.WriteString(one(r, "\n", "  \n", "\t\n"))
		}
		name := []byte(o.Args[0])
		for j := range name {
			if r.IntN(3) == 0 {
				name[j] -= 32
			}
		}
		fmt.Fprintf(&b, "%s%s%s%s%s", one(r, "", "", " ", "\t"), name, one(r, " ", "  ", "\t", " \t "), string(o.Args[1]), one(r, "", "", " ", "\t\t"))
		b.WriteString("\n")
	}
	s := b.String()
	if r.IntN(2) == 0 {
		s = strings.TrimSuffix(s, "\n")
	}
	c.File = B(s)
	for _, o := range c.Ops {
		if string(o.Args[0]) == both && o.Args[2] == "file" && c.Fault == "" {
			c.Ops = append([]Op{{K: "o", Args: Bs([]string{both, map[string]string{"dbnum": "5", "loglevel": "info", "logdir": "elsewhere"}[both], "flag"})}}, c.Ops...)
			break
		}
	}
}

// genLife: what clients and operators do while the server runs and when it is
// told to stop.
func genLife(c *Case, r *rand.Rand) {
	c.Kind = "e2e-life"
	if r.IntN(6) == 0 { // it cannot start
		c.Fault = one(r, "port-taken", "port-taken", "foreign-host", "logdir-file", "logdir-under-file")
		return
	}
	sessions := 1 + r.IntN(2)
	for s := 0; s < sessions; s++ {
		if s > 0 {
			c.Ops = append(c.Ops, Op{K: "R"})
		}
		if s == 0 && r.IntN(5) == 0 {
			c.N = 20 + r.IntN(40) // descriptors the process may have
			if r.IntN(2) == 0 {
				c.Ops = append(c.Ops, genClient(r))
			}
			c.Ops = append(c.Ops, Op{K: "h"})
		}
		if c.N == 0 && r.IntN(12) == 0 {
			o := genClient(r)
			o.N, o.Fault = 100+r.IntN(1500), one(r, "idle", "idle", "partial", "half")
			if o.Fault == "partial" {
				o.Data = B("*2\r\n$3\r\nGE")
			}
			c.Ops = append(c.Ops, o)
		}
		for n := r.IntN(6); n > 0; n-- {
			switch {
			case r.IntN(8) == 0 && c.N == 0:
				c.Ops = append(c.Ops, Op{K: "t"})
			default:
				c.Ops = append(c.Ops, genClient(r))
			}
		}
		c.Ops = append(c.Ops, Op{K: "s", Fault: one(r, "TERM", "INT", "TERM", "both")})
	}
}

func genClient(r *rand.Rand) Op {
	o := Op{K: "a", N: 1 + r.IntN(4), Fault: one(r, "idle", "partial", "busy", "busy", "unread", "garbage", "closed", "half", "churn", "pipeline")}
	switch o.Fault {
	case "partial":
		d := "*3\r\n$3\r\nSET\r\n$1\r\nk\r\n$5\r\nvalue\r\n"
		o.Data = B(d[:1+r.IntN(len(d)-1)])
	case "garbage":
		o.Data = B(one(r, "\n", "*x\r\n", "hello\r\n", "$-9\r\n", "\x00\xff", "*1\r\n$99999999999\r\n"))
	}
	return o
}
