// Package model is the reference model: an independent, sequential description
// of the documented Redis commands gRedis supports. Step checks one reply
// against the model and advances the model; where the documentation leaves a
// choice (random members, timing resolution, reply form of "nothing"), Step
// checks validity and follows the server's choice.
package model

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"gredisverif/wire"
)

type Kind byte

const (
	Str Kind = iota + 1
	List
	Hash
	Set
)

func (k Kind) String() string {
	return [...]string{"none", "string", "list", "hash", "set"}[k]
}

// Entry is one live key.
type Entry struct {
	K Kind
	S string
	L []string
	H map[string]string
	M map[string]bool

	TTL     bool
	Lo      int64 // ms: must be visible while now < Lo
	Hi      int64 // ms: must be gone when now >= Hi
	Px      bool  // deadline came from a millisecond option (coarser slack)
	SeenAt  int64 // instant at which an undetermined key was observed alive
	HasSeen bool
}

func (e *Entry) clone() *Entry {
	c := *e
	c.L = append([]string(nil), e.L...)
	if e.H != nil {
		c.H = make(map[string]string, len(e.H))
		for k, v := range e.H {
			c.H[k] = v
		}
	}
	if e.M != nil {
		c.M = make(map[string]bool, len(e.M))
		for k := range e.M {
			c.M[k] = true
		}
	}
	return &c
}

// DB is one database.
type DB map[string]*Entry

// Model is the whole server state.
type Model struct{ DBs []DB }

func New(n int) *Model {
	m := &Model{}
	for i := 0; i < n; i++ {
		m.DBs = append(m.DBs, DB{})
	}
	return m
}

func (m *Model) Clone() *Model {
	c := &Model{}
	for _, d := range m.DBs {
		n := make(DB, len(d))
		for k, e := range d {
			n[k] = e.clone()
		}
		c.DBs = append(c.DBs, n)
	}
	return c
}

// Canon renders the state canonically (for memoisation and comparison).
func (m *Model) Canon() string {
	var b strings.Builder
	for i, d := range m.DBs {
		fmt.Fprintf(&b, "#%d", i)
		keys := make([]string, 0, len(d))
		for k := range d {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			e := d[k]
			fmt.Fprintf(&b, ";%q:%d:", k, e.K)
			switch e.K {
			case Str:
				fmt.Fprintf(&b, "%q", e.S)
			case List:
				fmt.Fprintf(&b, "%q", e.L)
			case Hash:
				fs := make([]string, 0, len(e.H))
				for f := range e.H {
					fs = append(fs, f)
				}
				sort.Strings(fs)
				for _, f := range fs {
					fmt.Fprintf(&b, "%q=%q,", f, e.H[f])
				}
			case Set:
				fmt.Fprintf(&b, "%q", sortedSet(e.M))
			}
			if e.TTL {
				fmt.Fprintf(&b, "@%d-%d", e.Lo, e.Hi)
			}
		}
	}
	return b.String()
}

func sortedSet(m map[string]bool) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// ---------------------------------------------------------------- time

// Purge drops keys that must be gone at now.
func (d DB) Purge(now int64) (n int) {
	for k, e := range d {
		if e.TTL && now >= e.Hi {
			delete(d, k)
			n++
		}
	}
	return
}

// Undetermined lists the keys of d whose visibility at now the property leaves
// open (deadline passed, resolution second not over) and not yet observed.
func (d DB) Undetermined(now int64) (r []string) {
	for k, e := range d {
		if e.TTL && now >= e.Lo && now < e.Hi && !(e.HasSeen && e.SeenAt == now) {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return
}

// Resolve records what a probe observed about an undetermined key.
func (d DB) Resolve(k string, alive bool, now int64) {
	e := d[k]
	if e == nil {
		return
	}
	if !alive {
		delete(d, k)
		return
	}
	e.HasSeen, e.SeenAt = true, now
}

// ---------------------------------------------------------------- numbers

type numClass int

const (
	numBad numClass = iota
	numOK
	numGrey // accepted by some reasonable parsers (leading zeros, +, ...)
)

func ParseInt(s string) (int64, numClass) {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return 0, numBad
	}
	if strconv.FormatInt(n, 10) == s {
		return n, numOK
	}
	return n, numGrey
}

var floatRe = regexp.MustCompile(`^[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?$`)

func ParseFloat(s string) (float64, numClass) {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return 0, numBad
	}
	if math.IsInf(f, 0) || math.IsNaN(f) {
		return f, numBad
	}
	if floatRe.MatchString(s) {
		return f, numOK
	}
	return f, numGrey
}

var plainDec = regexp.MustCompile(`^-?[0-9]+(\.[0-9]*[1-9])?$`)

// checkFloat verifies that the reply is the plain decimal sum of a and b.
func checkFloat(s string, a, b float64) error {
	if !plainDec.MatchString(s) {
		return fmt.Errorf("%q is not a plain decimal number", s)
	}
	got, ok := new(big.Rat).SetString(s)
	if !ok {
		return fmt.Errorf("%q is not a number", s)
	}
	ra, rb := new(big.Rat).SetFloat64(a), new(big.Rat).SetFloat64(b)
	want := new(big.Rat).Add(ra, rb)
	diff := new(big.Rat).Sub(got, want)
	diff.Abs(diff)
	tol := new(big.Rat).Add(new(big.Rat).Abs(ra), new(big.Rat).Abs(rb))
	tol.Mul(tol, big.NewRat(1, 1e14))
	if diff.Cmp(tol) > 0 {
		return fmt.Errorf("sum of %v and %v answered as %s", a, b, s)
	}
	return nil
}

// ---------------------------------------------------------------- expectations

func mism(want string, r wire.Reply) error {
	return fmt.Errorf("want %s, got %s", want, r)
}

func wantErr(r wire.Reply) error {
	if r.K != '-' {
		return mism("an error", r)
	}
	return nil
}

func wantInt(r wire.Reply, n int64) error {
	if r.K != ':' || r.N != n {
		return mism(":"+strconv.FormatInt(n, 10), r)
	}
	return nil
}

func wantStatus(r wire.Reply, s string) error {
	if r.K != '+' || r.S != s {
		return mism("+"+s, r)
	}
	return nil
}

func wantBulk(r wire.Reply, s string) error {
	if r.K != '$' || r.Null || r.S != s {
		return mism(wire.Reply{K: '$', S: s}.String(), r)
	}
	return nil
}

func wantNil(r wire.Reply) error {
	if (r.K != '$' && r.K != '*') || !r.Null {
		return mism("nil", r)
	}
	return nil
}

func emptyish(r wire.Reply) bool {
	return (r.K == '$' && r.Null) || (r.K == '*' && len(r.A) == 0)
}

func wantEmptyish(r wire.Reply) error {
	if !emptyish(r) {
		return mism("nil or an empty array", r)
	}
	return nil
}

func bulks(r wire.Reply) ([]string, error) {
	if r.K != '*' {
		return nil, mism("an array", r)
	}
	out := make([]string, 0, len(r.A))
	for _, e := range r.A {
		if e.K != '$' || e.Null {
			return nil, mism("an array of strings", r)
		}
		out = append(out, e.S)
	}
	return out, nil
}

func quoteList(l []string) string {
	var p []wire.Reply
	for _, s := range l {
		p = append(p, wire.Reply{K: '$', S: s})
	}
	return wire.Reply{K: '*', A: p}.String()
}

func wantList(r wire.Reply, l []string) error {
	got, err := bulks(r)
	if err != nil {
		return err
	}
	if len(got) != len(l) {
		return mism(quoteList(l), r)
	}
	for i := range l {
		if got[i] != l[i] {
			return mism(quoteList(l), r)
		}
	}
	return nil
}

func wantMulti(r wire.Reply, l []string) error {
	got, err := bulks(r)
	if err != nil {
		return err
	}
	a, b := append([]string(nil), got...), append([]string(nil), l...)
	sort.Strings(a)
	sort.Strings(b)
	if len(a) != len(b) {
		return mism("(any order) "+quoteList(b), r)
	}
	for i := range a {
		if a[i] != b[i] {
			return mism("(any order) "+quoteList(b), r)
		}
	}
	return nil
}

// oneOf passes if any alternative passes.
func oneOf(errs ...error) error {
	var first error
	for _, e := range errs {
		if e == nil {
			return nil
		}
		if first == nil {
			first = e
		}
	}
	return first
}

// ---------------------------------------------------------------- arity

type arity struct {
	min, max int // including the name; max -1: unbounded
	par      int // 0 none, 1: odd length required, 2: even length required
}

var arities = map[string]arity{
	"ping": {1, 2, 0}, "del": {2, -1, 0}, "exists": {2, -1, 0}, "keys": {2, 2, 0}, "expire": {3, 4, 0},
	"persist": {2, 2, 0}, "ttl": {2, 2, 0}, "rename": {3, 3, 0}, "type": {2, 2, 0},
	"set": {3, -1, 0}, "get": {2, 2, 0}, "getrange": {4, 4, 0}, "setrange": {4, 4, 0}, "mget": {2, -1, 0},
	"mset": {3, -1, 1}, "setex": {4, 4, 0}, "setnx": {3, 3, 0}, "strlen": {2, 2, 0}, "incr": {2, 2, 0},
	"incrby": {3, 3, 0}, "decr": {2, 2, 0}, "decrby": {3, 3, 0}, "incrbyfloat": {3, 3, 0}, "append": {3, 3, 0},
	"hdel": {3, -1, 0}, "hexists": {3, 3, 0}, "hget": {3, 3, 0}, "hgetall": {2, 2, 0}, "hincrby": {4, 4, 0},
	"hincrbyfloat": {4, 4, 0}, "hkeys": {2, 2, 0}, "hlen": {2, 2, 0}, "hmget": {3, -1, 0}, "hmset": {4, -1, 2},
	"hset": {4, -1, 2}, "hsetnx": {4, 4, 0}, "hvals": {2, 2, 0}, "hstrlen": {3, 3, 0}, "hrandfield": {2, 4, 0},
	"lindex": {3, 3, 0}, "linsert": {5, 5, 0}, "llen": {2, 2, 0}, "lmove": {5, 5, 0}, "lpop": {2, 3, 0},
	"lpos": {3, -1, 1}, "lpush": {3, -1, 0}, "lpushx": {3, -1, 0}, "lrange": {4, 4, 0}, "lrem": {4, 4, 0},
	"lset": {4, 4, 0}, "ltrim": {4, 4, 0}, "rpop": {2, 3, 0}, "rpush": {3, -1, 0}, "rpushx": {3, -1, 0},
	"sadd": {3, -1, 0}, "scard": {2, 2, 0}, "sdiff": {2, -1, 0}, "sdiffstore": {3, -1, 0}, "sinter": {2, -1, 0},
	"sinterstore": {3, -1, 0}, "sismember": {3, 3, 0}, "smembers": {2, 2, 0}, "smove": {4, 4, 0},
	"spop": {2, 3, 0}, "srandmember": {2, 3, 0}, "srem": {3, -1, 0}, "sunion": {2, -1, 0}, "sunionstore": {3, -1, 0},
	"select": {2, 2, 0},
}

// Commands lists every documented command except SELECT.
func Commands() []string {
	var r []string
	for c := range arities {
		if c != "select" {
			r = append(r, c)
		}
	}
	sort.Strings(r)
	return r
}

// ArityOK tells whether the argument count is acceptable.
func ArityOK(args []string) (known, ok bool) {
	a, known := arities[strings.ToLower(args[0])]
	if !known {
		return false, false
	}
	n := len(args)
	if n < a.min || (a.max >= 0 && n > a.max) || (a.par == 1 && n%2 != 1) || (a.par == 2 && n%2 != 0) {
		return true, false
	}
	return true, true
}

// Names returns the keys a (well-formed) command names.
func Names(args []string) []string {
	if len(args) == 0 {
		return nil
	}
	if _, ok := ArityOK(args); !ok {
		return nil
	}
	switch c := strings.ToLower(args[0]); c {
	case "ping", "keys", "select":
		return nil
	case "del", "exists", "mget", "sdiff", "sinter", "sunion", "sdiffstore", "sinterstore", "sunionstore":
		return args[1:]
	case "mset":
		var r []string
		for i := 1; i < len(args); i += 2 {
			r = append(r, args[i])
		}
		return r
	case "rename", "lmove", "smove":
		return args[1:3]
	default:
		return args[1:2]
	}
}

// ReadOnly tells whether a command never modifies anything.
func ReadOnly(cmd string) bool {
	switch strings.ToLower(cmd) {
	case "ping", "exists", "keys", "ttl", "type", "get", "getrange", "mget", "strlen", "hexists", "hget", "hgetall",
		"hkeys", "hlen", "hmget", "hvals", "hstrlen", "hrandfield", "lindex", "llen", "lpos", "lrange", "scard",
		"sdiff", "sinter", "sunion", "sismember", "smembers", "srandmember":
		return true
	}
	return false
}
