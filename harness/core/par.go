package core

import (
	"fmt"
	"math/rand/v2"
	"strconv"
	"strings"

	"gredisverif/model"
)

// Marker is a key that exists in every database of a parallel case, holds the
// database's number and is never written by the clients.
const Marker = "!marker"

// GeneratePar makes a parallel case: clients that work at the same time, each
// on data of its own (databases of its own, or keys with a prefix of its own),
// with pipelined batches, reconnects and possibly clients that send garbage.
// Because the data is private, each client's replies are those of its own
// history, whatever the others do.
func GeneratePar(prop string, seed uint64, index int64, tier string) *Case {
	r := Rand(prop+"/par", seed, index)
	c := &Case{Prop: prop, Seed: seed, Index: index, Kind: "par", Seg: one(r, 1, 2, 3, 16, 100)}
	c.N = 2 + r.IntN(7)
	c.Fault = one(r, "db", "db", "prefix")
	noise := 0
	switch prop {
	case "C03", "C20":
		c.Fault = "prefix"
		noise = 1 + r.IntN(4)
	case "C15":
		c.Fault = "db"
	}
	per := 1
	c.Dbs = 1
	if c.Fault == "db" {
		per = 1 + r.IntN(3)
		c.Dbs = c.N*per + 1
	}
	max := 20 + r.IntN(80)
	style := r.IntN(3) // requests one by one, in small batches, in big ones
	for k := 0; k < c.N; k++ {
		reqs := parHistory(prop, r, c, tier, k, max)
		// where this client works
		var mine []string
		for j := 0; j < per; j++ {
			mine = append(mine, strconv.Itoa(1+k+j*c.N))
		}
		home := func() {
			if c.Fault == "db" {
				reqs = append([][]string{{"get", Marker}, {"select", one(r, mine...)}}, reqs...)
			}
		}
		home()
		for len(reqs) > 0 {
			o := Op{K: "p", Conn: k}
			n := 1
			switch style {
			case 1:
				n = 1 + r.IntN(4)
			case 2:
				n = 1 + r.IntN(25)
			}
			total := 0
			for ; n > 0 && len(reqs) > 0; n-- {
				a := reqs[0]
				reqs = reqs[1:]
				o.Batch = append(o.Batch, Bs(a))
				for _, x := range a {
					total += len(x) + 6
				}
				if c.Fault == "db" && r.IntN(map[bool]int{true: 4, false: 12}[prop == "C15"]) == 0 {
					s := one(r, mine...)
					if r.IntN(4) == 0 {
						s = one(r, strconv.Itoa(c.Dbs), "-1", "x", "", "99999999999999999999")
					}
					o.Batch = append(o.Batch, Bs([]string{"select", s}), Bs([]string{"get", Marker}))
				}
			}
			if r.IntN(4) == 0 {
				for j := 1 + r.IntN(4); j > 0; j-- {
					o.Cuts = append(o.Cuts, 1+r.IntN(total))
				}
			}
			if r.IntN(30) == 0 || prop == "C20" && r.IntN(8) == 0 {
				if r.IntN(2) == 0 {
					o.Tail = 1 + r.IntN(20)
				}
				c.Ops = append(c.Ops, o, Op{K: "x", Conn: k})
				home()
				continue
			}
			c.Ops = append(c.Ops, o)
		}
	}
	for k := 0; k < noise; k++ {
		sub := &Case{Prop: prop, Seg: c.Seg}
		genFuzz(sub, r)
		for _, o := range sub.Ops {
			if o.K == "r" && !bigNumber(string(o.Data)) {
				o.Conn = c.N + k
				c.Ops = append(c.Ops, o)
				if r.IntN(2) == 0 {
					c.Ops = append(c.Ops, Op{K: "x", Conn: o.Conn})
				}
			}
		}
	}
	return c
}

// parHistory makes the requests of one client.
func parHistory(prop string, r *rand.Rand, c *Case, tier string, k, max int) (reqs [][]string) {
	var ops []Op
	switch prop {
	case "C02", "C03", "C20":
		sub := &Case{Prop: prop, Seg: c.Seg}
		genPipe(sub, r)
		for _, o := range sub.Ops {
			for _, b := range o.Batch {
				ops = append(ops, Op{K: "c", Args: b})
			}
		}
	case "C14":
		sub := &Case{Prop: prop, Seg: c.Seg}
		genGlob(sub, r)
		ops = sub.Ops
	default:
		sub := &Case{Prop: prop, Seg: c.Seg}
		p := profile(prop, r, sub, tier)
		p.Sleep, p.TTL, p.Scene, p.SelectP, p.CloseP, p.Conns = 0, 0, 0, 0, 0, 1
		if p.BulkMax > 300 {
			p.BulkMax = 300
		}
		if (p.KeyStyle == "long" || p.LongVal) && r.IntN(20) > 0 {
			p.KeyStyle, p.LongVal = "near", false
		}
		ops = NewGen(r, p, c.Seg).History()
	}
	pre := fmt.Sprintf("victim-7f3a:%d:", k)
	for _, o := range ops {
		if o.K != "c" || len(o.Args) == 0 || len(reqs) >= max || o.Unit != "" {
			continue
		}
		a := o.Strs()
		if timed(a) {
			continue
		}
		if c.Fault == "prefix" {
			names := model.Names(a)
			for i := 1; i < len(a); i++ {
				for _, n := range names {
					if a[i] == n {
						a[i] = pre + a[i]
						break
					}
				}
			}
			ok := !strings.EqualFold(a[0], "keys")
			for _, n := range model.Names(a) {
				ok = ok && strings.HasPrefix(n, pre)
			}
			if !ok {
				continue
			}
		}
		reqs = append(reqs, a)
	}
	return reqs
}

// Timed is for the checks of the server process.
func Timed(a []string) bool { return timed(a) }

// timed tells whether a command depends on the clock or on the connection.
func timed(a []string) bool {
	switch strings.ToLower(a[0]) {
	case "expire", "setex", "select":
		return true
	case "set":
		for _, x := range a[1:] {
			switch strings.ToLower(x) {
			case "ex", "px", "exat", "pxat":
				return true
			}
		}
	}
	return false
}

// bigNumber tells whether a byte string has a number above a million in it.
func bigNumber(s string) bool {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] >= '0' && s[i] <= '9' {
			if n++; n > 6 {
				return true
			}
		} else {
			n = 0
		}
	}
	return false
}

// SelectWant gives the database a SELECT leads to (-1: an error), and whether
// the spelling of the number is unusual enough to be rejected as well.
func SelectWant(args []string, dbs int) (int, bool) {
	if len(args) != 2 {
		return -1, false
	}
	n, err := strconv.ParseInt(args[1], 10, 64)
	if err != nil || n < 0 || n >= int64(dbs) {
		return -1, false
	}
	return int(n), strconv.FormatInt(n, 10) != args[1]
}
