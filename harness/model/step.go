package model

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"gredisverif/wire"
)

const maxString = 512 << 20

// Info reports what a step did, for classification.
type Info struct {
	Cmd     string
	Err     bool // error reply (correctly)
	Mutated bool
	Hit     bool // named an existing key
	Created bool
	Removed bool // a key disappeared
	Expired bool // named a key whose time had passed
	Multi   bool // named two or more distinct existing keys
	Wrong   bool // wrong-type access
}

type stepper struct {
	d    DB
	a    []string
	r    wire.Reply
	now  int64
	info *Info
}

// Probe is Step for a reading command that follows a Purge at the same time.
func Probe(d DB, args []string, r wire.Reply, now int64) error {
	s := &stepper{d: d, a: args, r: r, now: now, info: &Info{Cmd: strings.ToLower(args[0])}}
	return s.step()
}

// Step checks reply r to command args in database d at time now (ms) and
// advances d.
func Step(d DB, args []string, r wire.Reply, now int64, info *Info) error {
	if info == nil {
		info = &Info{}
	}
	if len(args) == 0 {
		return fmt.Errorf("empty command")
	}
	s := &stepper{d: d, a: args, r: r, now: now, info: info}
	info.Cmd = strings.ToLower(args[0])
	seen := map[string]bool{}
	for _, k := range Names(args) {
		if e := d[k]; e != nil {
			if e.TTL && now >= e.Hi {
				info.Expired = true
			} else {
				info.Hit = true
				seen[k] = true
			}
		}
	}
	info.Multi = len(seen) > 1
	d.Purge(now)
	before := len(d)
	known, ok := ArityOK(args)
	if !known || !ok {
		info.Err = true
		return wantErr(r)
	}
	err := s.step()
	if r.IsErr() {
		info.Err = true
	}
	if len(d) > before {
		info.Created = true
	}
	if len(d) < before {
		info.Removed = true
	}
	return err
}

func (s *stepper) accept(c numClass) bool {
	switch c {
	case numOK:
		return true
	case numBad:
		return false
	}
	return !s.r.IsErr()
}

// get returns the entry of key k, and whether it exists with another kind.
func (s *stepper) get(k string, kind Kind) (e *Entry, wrong bool) {
	e = s.d[k]
	if e != nil && e.K != kind {
		s.info.Wrong = true
		return nil, true
	}
	return e, false
}

func (s *stepper) mut() { s.info.Mutated = true }

func (s *stepper) dropIfEmpty(k string) {
	e := s.d[k]
	if e == nil {
		return
	}
	if (e.K == List && len(e.L) == 0) || (e.K == Hash && len(e.H) == 0) || (e.K == Set && len(e.M) == 0) {
		delete(s.d, k)
	}
}

// badArg: the arguments are invalid. An error is required, except that on a
// missing key the reply for a missing key is tolerated too.
func (s *stepper) badArg(missing error) error {
	if s.d[s.a[1]] == nil {
		return oneOf(wantErr(s.r), missing)
	}
	return wantErr(s.r)
}

func (s *stepper) setTTL(k string, lo int64, px bool) {
	e := s.d[k]
	e.TTL, e.Lo, e.Px, e.HasSeen = true, lo, px, false
	// gone from the end of the clock second in which the time elapses
	e.Hi = floorDiv(lo, 1000)*1000 + 1000
	if e.Hi <= s.now {
		delete(s.d, k)
	}
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func normRange(start, end int64, n int) (int, int, bool) {
	l := int64(n)
	if start < 0 {
		start += l
	}
	if end < 0 {
		end += l
	}
	if start < 0 {
		start = 0
	}
	if end >= l {
		end = l - 1
	}
	if end < 0 || start > end || start >= l {
		return 0, 0, false
	}
	return int(start), int(end), true
}

func normIndex(i int64, n int) (int, bool) {
	if i < 0 {
		i += int64(n)
	}
	if i < 0 || i >= int64(n) {
		return 0, false
	}
	return int(i), true
}

func (s *stepper) step() error {
	d, a, r := s.d, s.a, s.r
	key := ""
	if len(a) > 1 {
		key = a[1]
	}
	switch s.info.Cmd {
	case "ping":
		if len(a) == 1 {
			return wantStatus(r, "PONG")
		}
		return wantBulk(r, a[1])

	// ------------------------------------------------------------ keys
	case "del":
		n := int64(0)
		for _, k := range a[1:] {
			if d[k] != nil {
				delete(d, k)
				n++
				s.mut()
			}
		}
		return wantInt(r, n)
	case "exists":
		n := int64(0)
		for _, k := range a[1:] {
			if d[k] != nil {
				n++
			}
		}
		return wantInt(r, n)
	case "keys":
		return s.keys()
	case "type":
		if e := d[key]; e != nil {
			return wantStatus(r, e.K.String())
		}
		return wantStatus(r, "none")
	case "ttl":
		e := d[key]
		if e == nil {
			return wantInt(r, -2)
		}
		if !e.TTL {
			return wantInt(r, -1)
		}
		if r.K != ':' {
			return mism("an integer", r)
		}
		// within one second of what remains
		diff := r.N*1000 - (e.Lo - s.now)
		if r.N < 0 || diff <= -1000 || diff >= 1000 {
			return mism(fmt.Sprintf("about %d ms remaining", e.Lo-s.now), r)
		}
		return nil
	case "persist":
		e := d[key]
		if e == nil || !e.TTL {
			return wantInt(r, 0)
		}
		e.TTL = false
		s.mut()
		return wantInt(r, 1)
	case "expire":
		return s.expire()
	case "rename":
		e := d[key]
		if e == nil {
			return wantErr(r)
		}
		delete(d, key)
		d[a[2]] = e
		s.mut()
		return wantStatus(r, "OK")

	// ------------------------------------------------------------ strings
	case "set":
		return s.set()
	case "get":
		e, wrong := s.get(key, Str)
		if wrong {
			return wantErr(r)
		}
		if e == nil {
			return wantNil(r)
		}
		return wantBulk(r, e.S)
	case "strlen":
		e, wrong := s.get(key, Str)
		if wrong {
			return wantErr(r)
		}
		if e == nil {
			return wantInt(r, 0)
		}
		return wantInt(r, int64(len(e.S)))
	case "getrange":
		st, c1 := ParseInt(a[2])
		en, c2 := ParseInt(a[3])
		if !s.accept(c1) || !s.accept(c2) {
			return s.badArg(wantBulk(r, ""))
		}
		e, wrong := s.get(key, Str)
		if wrong {
			return wantErr(r)
		}
		if e == nil {
			return wantBulk(r, "")
		}
		l := int64(len(e.S))
		if en < -l && st < 0 && l > 0 && st <= en {
			// Redis itself clamps the end to the first byte here; both readings are allowed
			return oneOf(wantBulk(r, ""), wantBulk(r, e.S[:1]))
		}
		x, y, ok := normRange(st, en, len(e.S))
		if !ok {
			return wantBulk(r, "")
		}
		return wantBulk(r, e.S[x:y+1])
	case "setrange":
		off, c := ParseInt(a[2])
		if !s.accept(c) || off < 0 {
			return wantErr(r)
		}
		e, wrong := s.get(key, Str)
		if wrong {
			return wantErr(r)
		}
		val := a[3]
		if val == "" {
			if off > maxString {
				return oneOf(wantErr(r), wantInt(r, int64(len(strOf(e)))))
			}
			return wantInt(r, int64(len(strOf(e))))
		}
		if off > maxString-int64(len(val)) {
			return wantErr(r)
		}
		old := strOf(e)
		if int64(len(old)) < off {
			old += strings.Repeat("\x00", int(off)-len(old))
		}
		nv := old[:off] + val
		if len(old) > len(nv) {
			nv += old[len(nv):]
		}
		s.putStr(key, nv)
		return wantInt(r, int64(len(nv)))
	case "append":
		e, wrong := s.get(key, Str)
		if wrong {
			return wantErr(r)
		}
		nv := strOf(e) + a[2]
		s.putStr(key, nv)
		return wantInt(r, int64(len(nv)))
	case "mget":
		if r.K != '*' || len(r.A) != len(a)-1 {
			return mism(fmt.Sprintf("an array of %d", len(a)-1), r)
		}
		for i, k := range a[1:] {
			e := d[k]
			var err error
			if e == nil || e.K != Str {
				err = wantNil(r.A[i])
			} else {
				err = wantBulk(r.A[i], e.S)
			}
			if err != nil {
				return fmt.Errorf("element %d (key %q): %w", i, k, err)
			}
		}
		return nil
	case "mset":
		for i := 1; i < len(a); i += 2 {
			d[a[i]] = &Entry{K: Str, S: a[i+1]}
		}
		s.mut()
		return wantStatus(r, "OK")
	case "setex":
		n, c := ParseInt(a[2])
		if !s.accept(c) || n <= 0 || n > math.MaxInt64-4102444800 {
			return wantErr(r)
		}
		d[key] = &Entry{K: Str, S: a[3]}
		s.setTTL(key, s.now+n*1000, false)
		s.mut()
		return wantStatus(r, "OK")
	case "setnx":
		if d[key] != nil {
			return wantInt(r, 0)
		}
		d[key] = &Entry{K: Str, S: a[2]}
		s.mut()
		return wantInt(r, 1)
	case "incr":
		return s.incr(1, numOK, 1)
	case "decr":
		return s.incr(1, numOK, -1)
	case "incrby":
		n, c := ParseInt(a[2])
		return s.incr(n, c, 1)
	case "decrby":
		n, c := ParseInt(a[2])
		return s.incr(n, c, -1)
	case "incrbyfloat":
		inc, c := ParseFloat(a[2])
		if !s.accept(c) {
			return wantErr(r)
		}
		e, wrong := s.get(key, Str)
		if wrong {
			return wantErr(r)
		}
		cur := 0.0
		if e != nil {
			var c2 numClass
			cur, c2 = ParseFloat(e.S)
			if !s.accept(c2) {
				return wantErr(r)
			}
		}
		nv, err := s.floatSum(cur, inc)
		if err != nil || r.IsErr() {
			return err
		}
		s.putStr(key, nv)
		return nil
	}
	switch s.info.Cmd[0] {
	case 'h':
		return s.hash(key)
	case 's':
		return s.sets(key)
	default:
		return s.list(key)
	}
}

func strOf(e *Entry) string {
	if e == nil {
		return ""
	}
	return e.S
}

func (s *stepper) putStr(k, v string) {
	if e := s.d[k]; e != nil {
		e.S = v
	} else {
		s.d[k] = &Entry{K: Str, S: v}
	}
	s.mut()
}

// floatSum checks the reply of a float increment and returns the new value.
func (s *stepper) floatSum(cur, inc float64) (string, error) {
	sum := cur + inc
	if math.IsInf(sum, 0) || math.IsNaN(sum) {
		return "", wantErr(s.r)
	}
	if s.r.K != '$' || s.r.Null {
		return "", mism(strconv.FormatFloat(sum, 'f', -1, 64), s.r)
	}
	if err := checkFloat(s.r.S, cur, inc); err != nil {
		return "", err
	}
	return s.r.S, nil
}

func addOverflows(a, b int64) bool {
	c := a + b
	return (c > a) != (b > 0) && b != 0
}

func subOverflows(a, b int64) bool {
	c := a - b
	return (c < a) != (b > 0) && b != 0
}

func (s *stepper) incr(n int64, c numClass, sign int) error {
	key := s.a[1]
	if !s.accept(c) {
		return wantErr(s.r)
	}
	e, wrong := s.get(key, Str)
	if wrong {
		return wantErr(s.r)
	}
	cur := int64(0)
	if e != nil {
		var c2 numClass
		cur, c2 = ParseInt(e.S)
		if !s.accept(c2) {
			return wantErr(s.r)
		}
	}
	var nv int64
	if sign > 0 {
		if addOverflows(cur, n) {
			return wantErr(s.r)
		}
		nv = cur + n
	} else {
		if subOverflows(cur, n) {
			return wantErr(s.r)
		}
		if n == math.MinInt64 && s.r.IsErr() {
			return nil // Redis refuses this decrement outright
		}
		nv = cur - n
	}
	if err := wantInt(s.r, nv); err != nil {
		return err
	}
	s.putStr(key, strconv.FormatInt(nv, 10))
	return nil
}

func (s *stepper) keys() error {
	got, err := bulks(s.r)
	if err != nil {
		return err
	}
	p := s.a[1]
	if _, ok := compileGlob(p); !ok {
		seen := map[string]bool{}
		for _, k := range got {
			if seen[k] || s.d[k] == nil {
				return mism("a subset of the keys, each once", s.r)
			}
			seen[k] = true
		}
		return nil
	}
	var want []string
	for k := range s.d {
		if m, _ := Glob(p, k); m {
			want = append(want, k)
		}
	}
	return wantMulti(s.r, want)
}

func (s *stepper) expire() error {
	n, c := ParseInt(s.a[2])
	if !s.accept(c) {
		return wantErr(s.r)
	}
	opt := ""
	if len(s.a) == 4 {
		opt = strings.ToLower(s.a[3])
		switch opt {
		case "nx", "xx", "gt", "lt":
		default:
			return s.badArg(wantInt(s.r, 0))
		}
	}
	key := s.a[1]
	e := s.d[key]
	if n > math.MaxInt64-4102444800 {
		return s.badArg(wantInt(s.r, 0))
	}
	if e == nil {
		return wantInt(s.r, 0)
	}
	lo := s.now
	if n > 0 {
		if n > 1e15 {
			n = 1e15
		}
		lo += n * 1000
	} else {
		if n < -1e9 {
			n = -1e9
		}
		lo += n * 1000
	}
	do, open := true, false
	switch opt {
	case "nx":
		do = !e.TTL
	case "xx":
		do = e.TTL
	case "gt", "lt":
		if !e.TTL {
			do = opt == "lt"
			break
		}
		diff := lo - e.Lo
		if opt == "lt" {
			diff = -diff
		}
		do = diff > 0
		slack := int64(1000)
		if (diff != 0 || e.Px) && diff > -slack && diff < slack {
			open = true
		}
	}
	if open && s.r.K == ':' && (s.r.N == 0 || s.r.N == 1) {
		do = s.r.N == 1
	}
	if !do {
		return wantInt(s.r, 0)
	}
	s.mut()
	s.setTTL(key, lo, false)
	return wantInt(s.r, 1)
}

func (s *stepper) set() error {
	a, r, key := s.a, s.r, s.a[1]
	var nx, xx, get, keep bool
	ttlOpts := 0
	var ttlKind string
	var ttlVal int64
	bad := false
	for i := 3; i < len(a) && !bad; i++ {
		switch o := strings.ToLower(a[i]); o {
		case "nx":
			nx = true
		case "xx":
			xx = true
		case "get":
			get = true
		case "keepttl":
			keep = true
			ttlOpts++
		case "ex", "px", "exat", "pxat":
			ttlOpts++
			i++
			if i >= len(a) {
				bad = true
				break
			}
			v, c := ParseInt(a[i])
			if !s.accept(c) || v <= 0 {
				bad = true
				break
			}
			if (o == "ex" && v > math.MaxInt64-4102444800) || (o == "px" && v > math.MaxInt64-4102444800000) {
				bad = true
			}
			ttlKind, ttlVal = o, v
		default:
			bad = true
		}
	}
	if bad || (nx && xx) || ttlOpts > 1 {
		return wantErr(r)
	}
	e := s.d[key]
	if get && e != nil && e.K != Str {
		s.info.Wrong = true
		return wantErr(r)
	}
	do := !(nx && e != nil) && !(xx && e == nil)
	var err error
	switch {
	case get && e != nil:
		err = wantBulk(r, e.S)
	case get:
		err = wantNil(r)
	case do:
		err = wantStatus(r, "OK")
	default:
		err = wantNil(r)
	}
	if !do {
		return err
	}
	s.mut()
	n := &Entry{K: Str, S: a[2]}
	if keep && e != nil {
		n.TTL, n.Lo, n.Hi, n.Px, n.SeenAt, n.HasSeen = e.TTL, e.Lo, e.Hi, e.Px, e.SeenAt, e.HasSeen
	}
	s.d[key] = n
	cap15 := func(v, lim int64) int64 {
		if v > lim {
			return lim
		}
		return v
	}
	switch ttlKind {
	case "ex":
		s.setTTL(key, s.now+cap15(ttlVal, 1e15)*1000, false)
	case "px":
		s.setTTL(key, s.now+cap15(ttlVal, 1e18), true)
	case "exat":
		s.setTTL(key, cap15(ttlVal, 1e15)*1000, false)
	case "pxat":
		s.setTTL(key, cap15(ttlVal, 1e18), false)
	}
	return err
}
