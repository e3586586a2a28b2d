package model

// Glob is the reference matcher for the documented pattern forms. ok is false
// when the pattern is outside the documented forms (then only "a subset of the
// keys, no crash" is required).

type item struct{ lo, hi byte }

type tok struct {
	kind byte // 'c' literal, '?', '*', '['
	c    byte
	neg  bool
	set  []item
}

func compileGlob(p string) (toks []tok, ok bool) {
	for i := 0; i < len(p); {
		switch p[i] {
		case '\\':
			return nil, false
		case '?', '*':
			toks = append(toks, tok{kind: p[i]})
			i++
		case '[':
			i++
			t := tok{kind: '['}
			if i < len(p) && p[i] == '^' {
				t.neg = true
				i++
			}
			closed := false
			for i < len(p) {
				c := p[i]
				if c == ']' {
					closed = true
					i++
					break
				}
				if c == '-' || c == '\\' {
					return nil, false
				}
				if i+1 < len(p) && p[i+1] == '-' {
					if i+2 >= len(p) || p[i+2] == ']' || p[i+2] == '-' || p[i+2] < c {
						return nil, false
					}
					t.set = append(t.set, item{c, p[i+2]})
					i += 3
					continue
				}
				t.set = append(t.set, item{c, c})
				i++
			}
			if !closed || len(t.set) == 0 {
				return nil, false
			}
			toks = append(toks, t)
		default:
			toks = append(toks, tok{kind: 'c', c: p[i]})
			i++
		}
	}
	return toks, true
}

// Glob matches by dynamic programming (no recursion, no shared structure with
// the implementation under test).
func Glob(p, s string) (match, ok bool) {
	toks, ok := compileGlob(p)
	if !ok {
		return false, false
	}
	// a literal beginning is compared directly
	for len(toks) > 0 && toks[0].kind == 'c' {
		if s == "" || s[0] != toks[0].c {
			return false, true
		}
		toks, s = toks[1:], s[1:]
	}
	// the set of places reached so far, in order
	cur := []int{0}
	for _, t := range toks {
		var next []int
		if t.kind == '*' {
			if len(cur) > 0 {
				for j := cur[0]; j <= len(s); j++ {
					next = append(next, j)
				}
			}
		} else {
			for _, j := range cur {
				if j == len(s) {
					continue
				}
				m := false
				switch t.kind {
				case '?':
					m = true
				case 'c':
					m = t.c == s[j]
				case '[':
					for _, it := range t.set {
						if s[j] >= it.lo && s[j] <= it.hi {
							m = true
						}
					}
					if t.neg {
						m = !m
					}
				}
				if m {
					next = append(next, j+1)
				}
			}
		}
		cur = next
	}
	return len(cur) > 0 && cur[len(cur)-1] == len(s), true
}
