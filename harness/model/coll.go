package model

import (
	"fmt"
	"strconv"
	"strings"

	"gredisverif/wire"
)

// ---------------------------------------------------------------- lists

func (s *stepper) list(key string) error {
	d, a, r := s.d, s.a, s.r
	cmd := s.info.Cmd
	e, wrong := s.get(key, List)
	n := 0
	if e != nil {
		n = len(e.L)
	}
	switch cmd {
	case "lpush", "rpush", "lpushx", "rpushx":
		if wrong {
			return wantErr(r)
		}
		if e == nil {
			if strings.HasSuffix(cmd, "x") {
				return wantInt(r, 0)
			}
			e = &Entry{K: List}
			d[key] = e
		}
		for _, v := range a[2:] {
			if cmd[0] == 'l' {
				e.L = append([]string{v}, e.L...)
			} else {
				e.L = append(e.L, v)
			}
		}
		s.mut()
		return wantInt(r, int64(len(e.L)))
	case "llen":
		if wrong {
			return wantErr(r)
		}
		return wantInt(r, int64(n))
	case "lindex":
		i, c := ParseInt(a[2])
		if !s.accept(c) {
			return s.badArg(wantNil(r))
		}
		if wrong {
			return wantErr(r)
		}
		if j, ok := normIndex(i, n); ok {
			return wantBulk(r, e.L[j])
		}
		return wantNil(r)
	case "lset":
		i, c := ParseInt(a[2])
		if !s.accept(c) || wrong || e == nil {
			return wantErr(r)
		}
		j, ok := normIndex(i, n)
		if !ok {
			return wantErr(r)
		}
		e.L[j] = a[3]
		s.mut()
		return wantStatus(r, "OK")
	case "linsert":
		w := strings.ToLower(a[2])
		if w != "before" && w != "after" {
			return s.badArg(wantInt(r, 0))
		}
		if wrong {
			return wantErr(r)
		}
		if e == nil {
			return wantInt(r, 0)
		}
		for i, v := range e.L {
			if v == a[3] {
				p := i
				if w == "after" {
					p++
				}
				nl := append([]string(nil), e.L[:p]...)
				nl = append(nl, a[4])
				e.L = append(nl, e.L[p:]...)
				s.mut()
				return wantInt(r, int64(len(e.L)))
			}
		}
		return wantInt(r, -1)
	case "lrange":
		st, c1 := ParseInt(a[2])
		en, c2 := ParseInt(a[3])
		if !s.accept(c1) || !s.accept(c2) {
			return s.badArg(wantList(r, nil))
		}
		if wrong {
			return wantErr(r)
		}
		x, y, ok := normRange(st, en, n)
		if !ok {
			return wantList(r, nil)
		}
		return wantList(r, e.L[x:y+1])
	case "ltrim":
		st, c1 := ParseInt(a[2])
		en, c2 := ParseInt(a[3])
		if !s.accept(c1) || !s.accept(c2) {
			return s.badArg(wantStatus(r, "OK"))
		}
		if wrong {
			return wantErr(r)
		}
		if e != nil {
			x, y, ok := normRange(st, en, n)
			if !ok {
				e.L = nil
			} else {
				e.L = append([]string(nil), e.L[x:y+1]...)
			}
			s.dropIfEmpty(key)
			s.mut()
		}
		return wantStatus(r, "OK")
	case "lrem":
		cnt, c := ParseInt(a[2])
		if !s.accept(c) {
			return s.badArg(wantInt(r, 0))
		}
		if wrong {
			return wantErr(r)
		}
		if e == nil {
			return wantInt(r, 0)
		}
		keep := make([]bool, n)
		removed := int64(0)
		lim := cnt
		if lim < 0 {
			lim = -lim
		}
		for k := 0; k < n; k++ {
			i := k
			if cnt < 0 {
				i = n - 1 - k
			}
			if e.L[i] == a[3] && (cnt == 0 || lim < 0 || removed < lim) {
				removed++
			} else {
				keep[i] = true
			}
		}
		var nl []string
		for i, v := range e.L {
			if keep[i] {
				nl = append(nl, v)
			}
		}
		e.L = nl
		if removed > 0 {
			s.mut()
		}
		s.dropIfEmpty(key)
		return wantInt(r, removed)
	case "lpop", "rpop":
		cnt, counted := int64(1), len(a) == 3
		if counted {
			var c numClass
			cnt, c = ParseInt(a[2])
			if !s.accept(c) || cnt < 0 {
				return s.badArg(wantEmptyish(r))
			}
			if cnt == 0 {
				if wrong {
					return wantErr(r)
				}
				return oneOf(wantErr(r), wantEmptyish(r))
			}
		}
		if wrong {
			return wantErr(r)
		}
		if e == nil {
			if counted {
				return wantEmptyish(r)
			}
			return wantNil(r)
		}
		if cnt > int64(n) {
			cnt = int64(n)
		}
		var out []string
		for i := int64(0); i < cnt; i++ {
			if cmd == "lpop" {
				out = append(out, e.L[0])
				e.L = e.L[1:]
			} else {
				out = append(out, e.L[len(e.L)-1])
				e.L = e.L[:len(e.L)-1]
			}
		}
		s.mut()
		s.dropIfEmpty(key)
		if counted {
			return wantList(r, out)
		}
		return wantBulk(r, out[0])
	case "lmove":
		f, t := strings.ToLower(a[3]), strings.ToLower(a[4])
		if (f != "left" && f != "right") || (t != "left" && t != "right") {
			return s.badArg(wantNil(r))
		}
		if wrong {
			return wantErr(r)
		}
		if e == nil {
			return wantNil(r)
		}
		de := d[a[2]]
		if de != nil && de.K != List {
			s.info.Wrong = true
			return wantErr(r)
		}
		var v string
		if f == "left" {
			v = e.L[0]
			e.L = append([]string(nil), e.L[1:]...)
		} else {
			v = e.L[n-1]
			e.L = append([]string(nil), e.L[:n-1]...)
		}
		if de == nil {
			de = &Entry{K: List}
			d[a[2]] = de
		}
		if t == "left" {
			de.L = append([]string{v}, de.L...)
		} else {
			de.L = append(append([]string(nil), de.L...), v)
		}
		s.dropIfEmpty(key)
		s.mut()
		return wantBulk(r, v)
	case "lpos":
		return s.lpos(e, wrong)
	}
	return fmt.Errorf("model: no rule for %q", cmd)
}

func (s *stepper) lpos(e *Entry, wrong bool) error {
	a, r := s.a, s.r
	rank, count, maxlen := int64(1), int64(-1), int64(0)
	for i := 3; i+1 < len(a); i += 2 {
		v, c := ParseInt(a[i+1])
		ok := s.accept(c)
		switch strings.ToLower(a[i]) {
		case "rank":
			rank = v
			ok = ok && v != 0
		case "count":
			count = v
			ok = ok && v >= 0
		case "maxlen":
			maxlen = v
			ok = ok && v >= 0
		default:
			ok = false
		}
		if !ok {
			return s.badArg(wantEmptyish(r))
		}
	}
	if wrong {
		return wantErr(r)
	}
	if e == nil {
		if count >= 0 {
			return wantEmptyish(r)
		}
		return wantNil(r)
	}
	n := len(e.L)
	var hits []int64
	skip := rank
	if skip < 0 {
		skip = -skip
	}
	seen := int64(0)
	for k := 0; k < n; k++ {
		if maxlen > 0 && int64(k) >= maxlen {
			break
		}
		i := k
		if rank < 0 {
			i = n - 1 - k
		}
		if e.L[i] == a[2] {
			seen++
			if seen >= skip && skip > 0 {
				hits = append(hits, int64(i))
				if count < 0 || (count > 0 && int64(len(hits)) == count) {
					break
				}
			}
		}
	}
	if count < 0 {
		if len(hits) == 0 {
			return wantNil(r)
		}
		return wantInt(r, hits[0])
	}
	if len(hits) == 0 {
		return wantEmptyish(r)
	}
	want := wire.Reply{K: '*'}
	for _, h := range hits {
		want.A = append(want.A, wire.Reply{K: ':', N: h})
	}
	if !r.Equal(want) {
		return mism(want.String(), r)
	}
	return nil
}

// ---------------------------------------------------------------- hashes

func (s *stepper) hash(key string) error {
	d, a, r := s.d, s.a, s.r
	e, wrong := s.get(key, Hash)
	var h map[string]string
	if e != nil {
		h = e.H
	}
	create := func() {
		if e == nil {
			e = &Entry{K: Hash, H: map[string]string{}}
			d[key] = e
			h = e.H
		}
	}
	cmd := s.info.Cmd
	if wrong && cmd != "hrandfield" {
		return wantErr(r)
	}
	switch cmd {
	case "hset", "hmset":
		create()
		n := int64(0)
		for i := 2; i < len(a); i += 2 {
			if _, ok := h[a[i]]; !ok {
				n++
			}
			h[a[i]] = a[i+1]
		}
		s.mut()
		if cmd == "hmset" {
			return wantStatus(r, "OK")
		}
		return wantInt(r, n)
	case "hsetnx":
		if _, ok := h[a[2]]; ok {
			return wantInt(r, 0)
		}
		create()
		h[a[2]] = a[3]
		s.mut()
		return wantInt(r, 1)
	case "hdel":
		n := int64(0)
		for _, f := range a[2:] {
			if _, ok := h[f]; ok {
				delete(h, f)
				n++
				s.mut()
			}
		}
		s.dropIfEmpty(key)
		return wantInt(r, n)
	case "hexists":
		if _, ok := h[a[2]]; ok {
			return wantInt(r, 1)
		}
		return wantInt(r, 0)
	case "hget":
		if v, ok := h[a[2]]; ok {
			return wantBulk(r, v)
		}
		return wantNil(r)
	case "hstrlen":
		return wantInt(r, int64(len(h[a[2]])))
	case "hlen":
		return wantInt(r, int64(len(h)))
	case "hmget":
		if r.K != '*' || len(r.A) != len(a)-2 {
			return mism(fmt.Sprintf("an array of %d", len(a)-2), r)
		}
		for i, f := range a[2:] {
			var err error
			if v, ok := h[f]; ok {
				err = wantBulk(r.A[i], v)
			} else {
				err = wantNil(r.A[i])
			}
			if err != nil {
				return fmt.Errorf("element %d: %w", i, err)
			}
		}
		return nil
	case "hkeys":
		var l []string
		for f := range h {
			l = append(l, f)
		}
		return wantMulti(r, l)
	case "hvals":
		var l []string
		for _, v := range h {
			l = append(l, v)
		}
		return wantMulti(r, l)
	case "hgetall":
		got, err := bulks(r)
		if err != nil {
			return err
		}
		return checkPairs(got, h, len(h), true, r)
	case "hincrby":
		n, c := ParseInt(a[3])
		if !s.accept(c) {
			return wantErr(r)
		}
		cur := int64(0)
		if v, ok := h[a[2]]; ok {
			var c2 numClass
			cur, c2 = ParseInt(v)
			if !s.accept(c2) {
				return wantErr(r)
			}
		}
		if addOverflows(cur, n) {
			return wantErr(r)
		}
		if err := wantInt(r, cur+n); err != nil {
			return err
		}
		create()
		h[a[2]] = strconv.FormatInt(cur+n, 10)
		s.mut()
		return nil
	case "hincrbyfloat":
		inc, c := ParseFloat(a[3])
		if !s.accept(c) {
			return wantErr(r)
		}
		cur := 0.0
		if v, ok := h[a[2]]; ok {
			var c2 numClass
			cur, c2 = ParseFloat(v)
			if !s.accept(c2) {
				return wantErr(r)
			}
		}
		nv, err := s.floatSum(cur, inc)
		if err != nil || r.IsErr() {
			return err
		}
		create()
		h[a[2]] = nv
		s.mut()
		return nil
	case "hrandfield":
		withv := false
		cnt, c := int64(1), numOK
		if len(a) >= 3 {
			cnt, c = ParseInt(a[2])
		}
		bad := !s.accept(c)
		if len(a) == 4 {
			if strings.ToLower(a[3]) != "withvalues" {
				bad = true
			}
			withv = true
		}
		if bad {
			return s.badArg(wantEmptyish(r))
		}
		if wrong {
			return wantErr(r)
		}
		if len(a) == 2 {
			if len(h) == 0 {
				return wantNil(r)
			}
			if r.K != '$' || r.Null {
				return mism("one field", r)
			}
			if _, ok := h[r.S]; !ok {
				return mism("an existing field", r)
			}
			return nil
		}
		if cnt < -(1 << 40) {
			return s.badArg(wantEmptyish(r))
		}
		if cnt == 0 || len(h) == 0 {
			return wantEmptyish(r)
		}
		got, err := bulks(r)
		if err != nil {
			return err
		}
		want, distinct := cnt, true
		if cnt < 0 {
			want, distinct = -cnt, false
		} else if cnt > int64(len(h)) {
			want = int64(len(h))
		}
		if withv {
			return checkPairs(got, h, int(want), distinct, r)
		}
		return checkPicks(got, func(f string) bool { _, ok := h[f]; return ok }, int(want), distinct, r)
	}
	return fmt.Errorf("model: no rule for %q", cmd)
}

func checkPairs(got []string, h map[string]string, want int, distinct bool, r wire.Reply) error {
	if len(got) != 2*want {
		return mism(fmt.Sprintf("%d field-value pairs", want), r)
	}
	seen := map[string]bool{}
	for i := 0; i < len(got); i += 2 {
		v, ok := h[got[i]]
		if !ok {
			return mism(fmt.Sprintf("only existing fields (%q is not)", got[i]), r)
		}
		if v != got[i+1] {
			return mism(fmt.Sprintf("field %q with value %q", got[i], v), r)
		}
		if seen[got[i]] && distinct {
			return mism("each field once", r)
		}
		seen[got[i]] = true
	}
	return nil
}

func checkPicks(got []string, in func(string) bool, want int, distinct bool, r wire.Reply) error {
	if len(got) != want {
		return mism(fmt.Sprintf("%d picks", want), r)
	}
	seen := map[string]bool{}
	for _, g := range got {
		if !in(g) {
			return mism(fmt.Sprintf("only existing members (%q is not)", g), r)
		}
		if distinct && seen[g] {
			return mism("distinct members", r)
		}
		seen[g] = true
	}
	return nil
}

// ---------------------------------------------------------------- sets

func (s *stepper) sets(key string) error {
	d, a, r := s.d, s.a, s.r
	cmd := s.info.Cmd
	switch cmd {
	case "sinter", "sunion", "sdiff", "sinterstore", "sunionstore", "sdiffstore":
		store := strings.HasSuffix(cmd, "store")
		op := strings.TrimSuffix(cmd, "store")
		src := a[1:]
		if store {
			src = a[2:]
		}
		var ops []map[string]bool
		for _, k := range src {
			e, wrong := s.get(k, Set)
			if wrong {
				return wantErr(r)
			}
			if e == nil {
				ops = append(ops, nil)
			} else {
				ops = append(ops, e.M)
			}
		}
		res := map[string]bool{}
		for _, o := range ops {
			for m := range o {
				res[m] = true
			}
		}
		if op != "sunion" {
			for m := range res {
				in0, all, later := ops[0][m], true, false
				for i, o := range ops {
					if !o[m] {
						all = false
					} else if i > 0 {
						later = true
					}
				}
				if (op == "sinter" && !all) || (op == "sdiff" && (!in0 || later)) {
					delete(res, m)
				}
			}
		}
		if !store {
			return wantMulti(r, sortedSet(res))
		}
		s.mut()
		if len(res) == 0 {
			delete(d, a[1])
		} else {
			d[a[1]] = &Entry{K: Set, M: res}
		}
		return wantInt(r, int64(len(res)))
	}
	e, wrong := s.get(key, Set)
	var m map[string]bool
	if e != nil {
		m = e.M
	}
	switch cmd {
	case "sadd":
		if wrong {
			return wantErr(r)
		}
		if e == nil {
			e = &Entry{K: Set, M: map[string]bool{}}
			d[key] = e
			m = e.M
		}
		n := int64(0)
		for _, v := range a[2:] {
			if !m[v] {
				m[v] = true
				n++
			}
		}
		s.mut()
		return wantInt(r, n)
	case "srem":
		if wrong {
			return wantErr(r)
		}
		n := int64(0)
		for _, v := range a[2:] {
			if m[v] {
				delete(m, v)
				n++
				s.mut()
			}
		}
		s.dropIfEmpty(key)
		return wantInt(r, n)
	case "scard":
		if wrong {
			return wantErr(r)
		}
		return wantInt(r, int64(len(m)))
	case "sismember":
		if wrong {
			return wantErr(r)
		}
		if m[a[2]] {
			return wantInt(r, 1)
		}
		return wantInt(r, 0)
	case "smembers":
		if wrong {
			return wantErr(r)
		}
		return wantMulti(r, sortedSet(m))
	case "smove":
		if wrong {
			return wantErr(r)
		}
		if e == nil {
			// Redis does not look at the destination then
			if de := d[a[2]]; de != nil && de.K != Set {
				return oneOf(wantInt(r, 0), wantErr(r))
			}
			return wantInt(r, 0)
		}
		de := d[a[2]]
		if de != nil && de.K != Set {
			s.info.Wrong = true
			return wantErr(r)
		}
		if !m[a[3]] {
			return wantInt(r, 0)
		}
		delete(m, a[3])
		if de == nil {
			de = &Entry{K: Set, M: map[string]bool{}}
			d[a[2]] = de
		}
		de.M[a[3]] = true
		s.dropIfEmpty(key)
		s.mut()
		return wantInt(r, 1)
	case "spop", "srandmember":
		cnt, counted := int64(1), len(a) == 3
		if counted {
			var c numClass
			cnt, c = ParseInt(a[2])
			if !s.accept(c) || (cmd == "spop" && cnt < 0) || cnt < -(1<<40) {
				return s.badArg(wantEmptyish(r))
			}
		}
		if counted && cnt == 0 {
			// nothing to choose: an empty reply or a refusal
			return oneOf(wantEmptyish(r), wantErr(r))
		}
		if wrong {
			return wantErr(r)
		}
		if e == nil {
			if counted {
				return wantEmptyish(r)
			}
			return wantNil(r)
		}
		var got []string
		want, distinct := cnt, true
		if !counted {
			if r.K != '$' || r.Null {
				return mism("one member", r)
			}
			got = []string{r.S}
		} else {
			var err error
			if got, err = bulks(r); err != nil {
				return err
			}
			if cnt < 0 {
				want, distinct = -cnt, false
			} else if cnt > int64(len(m)) {
				want = int64(len(m))
			}
		}
		if err := checkPicks(got, func(x string) bool { return m[x] }, int(want), distinct, r); err != nil {
			return err
		}
		if cmd == "spop" {
			for _, g := range got {
				delete(m, g)
			}
			s.mut()
			s.dropIfEmpty(key)
		}
		return nil
	}
	return fmt.Errorf("model: no rule for %q", cmd)
}
