package main

import (
	"encoding/json"
	"sync"
	"time"

	"gredisverif/core"
)

func clone(c *core.Case) *core.Case {
	b, _ := json.Marshal(c)
	d := &core.Case{}
	json.Unmarshal(b, d)
	return d
}

// cand makes a smaller case when it is its turn (nil: none).
type cand func() *core.Case

type shrinker struct {
	c    *ctx
	best *core.Case
	msg  string
	end  time.Time
	reps int
	one  time.Duration
	kind string
}

// shrink minimises a failing case, trying candidates in processes of their own.
func (c *ctx) shrink(k *core.Case, msg, kind string) (*core.Case, string) {
	s := &shrinker{c: c, best: clone(k), msg: msg, end: time.Now().Add(40 * time.Second), one: 20 * time.Second, kind: kind}
	if c.tier == "thorough" {
		s.end = time.Now().Add(120 * time.Second)
	}
	// does it fail again at once? if not, repeat each candidate several times
	if kd, m := c.try(clone(k), 0, s.one); kd == "" {
		s.reps = 30
		if kd, m := c.try(clone(k), 60, 2*s.one); kd == "" || kd == "env" || kd == "timeout" {
			return s.best, msg // what was observed stands, unshrunk
		} else {
			s.msg = m
		}
	} else if kd != "env" && kd != "timeout" {
		s.msg = m
	}
	for time.Now().Before(s.end) {
		before, _ := json.Marshal(s.best)
		s.ops()
		s.batches()
		s.simplify()
		after, _ := json.Marshal(s.best)
		if string(before) == string(after) {
			break
		}
	}
	return s.best, s.msg
}

// first returns the first candidate that still fails.
func (s *shrinker) first(cands []cand) bool {
	par := s.c.workers
	for i := 0; i < len(cands); i += par {
		if time.Now().After(s.end) {
			return false
		}
		n := min(par, len(cands)-i)
		res := make([]string, n)
		msgs := make([]string, n)
		ks := make([]*core.Case, n)
		var wg sync.WaitGroup
		for j := 0; j < n; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if ks[j] = cands[i+j](); ks[j] == nil {
					return
				}
				res[j], msgs[j] = s.c.try(ks[j], s.reps, s.one)
			}()
		}
		wg.Wait()
		for j := 0; j < n; j++ {
			if res[j] != "" && res[j] != "env" && res[j] != "timeout" {
				s.best, s.msg = ks[j], msgs[j]
				return true
			}
		}
	}
	return false
}

// ops removes chunks of operations (ddmin).
func (s *shrinker) ops() {
	size := (len(s.best.Ops) + 1) / 2
	for size >= 1 {
		var cands []cand
		b := s.best
		for i := 0; i < len(b.Ops); i += size {
			j := min(i+size, len(b.Ops))
			if j-i == len(b.Ops) {
				continue
			}
			cands = append(cands, func() *core.Case {
				d := clone(b)
				d.Ops = append(d.Ops[:i:i], d.Ops[j:]...)
				return d
			})
		}
		if !s.first(cands) {
			if size == 1 {
				return
			}
			size = (size + 1) / 2
			if size > len(s.best.Ops) {
				size = len(s.best.Ops)
			}
			continue
		}
		if size > len(s.best.Ops) {
			size = len(s.best.Ops)
		}
		if time.Now().After(s.end) {
			return
		}
	}
}

// batches removes requests of pipelines.
func (s *shrinker) batches() {
	for oi := 0; oi < len(s.best.Ops); oi++ {
		size := (len(s.best.Ops[oi].Batch) + 1) / 2
		for size >= 1 && time.Now().Before(s.end) {
			var cands []cand
			b := s.best
			n := len(b.Ops[oi].Batch)
			for i := 0; i < n; i += size {
				j := min(i+size, n)
				if j-i == n && b.Ops[oi].K == "p" {
					continue
				}
				cands = append(cands, func() *core.Case {
					d := clone(b)
					d.Ops[oi].Batch = append(d.Ops[oi].Batch[:i:i], d.Ops[oi].Batch[j:]...)
					return d
				})
			}
			if !s.first(cands) {
				if size == 1 {
					break
				}
				size = (size + 1) / 2
			}
		}
	}
}

func (s *shrinker) simplify() {
	for again := true; again && time.Now().Before(s.end); {
		again = false
		var cands []cand
		b := s.best
		add := func(f func(d *core.Case) bool) {
			cands = append(cands, func() *core.Case {
				d := clone(b)
				if f(d) {
					return d
				}
				return nil
			})
		}
		add(func(d *core.Case) bool { v := d.Phase != 0; d.Phase = 0; return v })
		add(func(d *core.Case) bool { v := d.Each; d.Each = false; return v })
		add(func(d *core.Case) bool { v := d.Seg != 100 && d.Seg > 1; d.Seg = 100; return v })
		add(func(d *core.Case) bool { v := d.Dbs > 1 && d.Prop != "C02"; d.Dbs = 1; return v })
		add(func(d *core.Case) bool { v := len(d.Keys) > 0 && d.Kind == "seq"; d.Keys = nil; return v })
		for i := range s.best.Segs {
			add(func(d *core.Case) bool {
				d.Segs = append(d.Segs[:i:i], d.Segs[i+1:]...)
				return len(d.Segs) > 0
			})
		}
		add(func(d *core.Case) bool { v := len(d.File) > 1; d.File = d.File[:len(d.File)/2]; return v })
		add(func(d *core.Case) bool { v := len(d.File) > 1; d.File = d.File[len(d.File)/2:]; return v })
		for i := range s.best.Ops {
			o := &s.best.Ops[i]
			if len(o.Cuts) > 0 {
				add(func(d *core.Case) bool { d.Ops[i].Cuts, d.Ops[i].Slow = nil, false; return true })
				add(func(d *core.Case) bool { d.Ops[i].Cuts = d.Ops[i].Cuts[:len(o.Cuts)/2]; return true })
				add(func(d *core.Case) bool { d.Ops[i].Cuts = d.Ops[i].Cuts[(len(o.Cuts)+1)/2:]; return true })
			}
			if o.Tail > 0 {
				add(func(d *core.Case) bool { d.Ops[i].Tail = 0; return true })
			}
			if len(o.Data) > 1 {
				add(func(d *core.Case) bool { d.Ops[i].Data = d.Ops[i].Data[:len(o.Data)/2]; return true })
				add(func(d *core.Case) bool { d.Ops[i].Data = d.Ops[i].Data[len(o.Data)/2:]; return true })
				if len(o.Data) < 60 {
					for p := range o.Data {
						add(func(d *core.Case) bool { d.Ops[i].Data = d.Ops[i].Data[:p] + d.Ops[i].Data[p+1:]; return true })
					}
				}
			}
			if o.N > 1 && o.K == "f" {
				add(func(d *core.Case) bool { d.Ops[i].N = 1; return true })
			}
			if o.K == "c" && o.Unit == "" {
				n := len(o.Args)
				step := max(1, n/16)
				for a := 2; a < n; a += step {
					add(func(d *core.Case) bool {
						d.Ops[i].Args = append(d.Ops[i].Args[:a:a], d.Ops[i].Args[min(n, a+step):]...)
						return true
					})
				}
				if n > 6 {
					add(func(d *core.Case) bool { d.Ops[i].Args = d.Ops[i].Args[:2+(n-2)/2]; return true })
				}
				for a := 1; a < n; a++ {
					if len(o.Args[a]) > 8 && n < 200 {
						add(func(d *core.Case) bool { d.Ops[i].Args[a] = d.Ops[i].Args[a][:len(o.Args[a])/2]; return true })
					}
				}
			}
		}
		again = s.first(cands)
	}
}
