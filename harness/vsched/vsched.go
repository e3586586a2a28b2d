// Package vsched is a cooperative scheduler for the command code: rewritten
// source calls Yield before every statement and uses the locks of this package
// instead of sync's. One task runs at a time; the scheduler decides which.
package vsched

import (
	"fmt"
	"iter"
	"runtime/debug"
	"time"
)

type task struct {
	id    int
	next  func() (struct{}, bool)
	stop  func()
	yield func(struct{}) bool
	ready func() bool // nil: runnable
	what  string
	done  bool
	prio  int
}

type abort struct{}

// Fatal is a misuse of a lock, which sync reports by ending the process.
type Fatal string

var (
	cur      *task
	tasks    []*task
	aborting bool
	steps    int
	clock    = time.Unix(1_000_000_000, 0)
)

// Now is the virtual clock.
func Now() time.Time { return clock }

// Advance moves the virtual clock.
func Advance(d time.Duration) { clock = clock.Add(d) }

// ResetClock restores the initial time.
func ResetClock(ms int64) { clock = time.Unix(1_000_000_000, ms*1e6) }

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Yield is a scheduling point.
func Yield() {
	t := cur
	if t == nil || aborting {
		return
	}
	if !t.yield(struct{}{}) {
		panic(abort{})
	}
}

// Step returns the number of scheduling decisions so far.
func Step() int { return steps }

// block suspends the current task until ready() holds.
func block(what string, ready func() bool) {
	if aborting {
		return
	}
	if cur == nil {
		if ready() {
			return
		}
		panic(Fatal("a lock was left behind: " + what + " would wait forever"))
	}
	for !ready() {
		cur.ready, cur.what = ready, what
		t := cur
		Yield()
		t.ready = nil
		if aborting {
			return
		}
	}
}

// Outcome of a scheduled run.
type Outcome struct {
	Deadlock string
	Panic    string
	Steps    int
	Limit    bool
}

// Chooser picks the next task among the runnable ones.
type Chooser interface {
	Pick(runnable []int, prev int, step int) int // index into runnable
}

// Run executes the functions as concurrent tasks.
func Run(fs []func(), ch Chooser, limit int) (o Outcome) {
	tasks, steps, aborting = nil, 0, false
	for _, f := range fs {
		spawn(f)
	}
	defer func() {
		aborting = true
		for _, t := range tasks {
			if !t.done {
				cur = t
				func() {
					defer func() { recover() }()
					t.stop()
				}()
			}
		}
		cur, aborting = nil, false
		tasks = nil
	}()
	prev := -1
	var run []int
	for {
		run = run[:0]
		left := 0
		for i, t := range tasks {
			if t.done {
				continue
			}
			left++
			if t.ready == nil || t.ready() {
				run = append(run, i)
			}
		}
		if left == 0 {
			o.Steps = steps
			return
		}
		if len(run) == 0 {
			s := "deadlock:"
			for _, t := range tasks {
				if !t.done {
					s += fmt.Sprintf(" client %d waits for %s;", t.id, t.what)
				}
			}
			o.Deadlock, o.Steps = s, steps
			return
		}
		if steps >= limit {
			o.Limit, o.Steps = true, steps
			return
		}
		k := run[ch.Pick(run, prev, steps)]
		steps++
		prev = k
		t := tasks[k]
		cur = t
		p := resume(t)
		cur = nil
		if p != "" {
			o.Panic, o.Steps = p, steps
			return
		}
	}
}

func resume(t *task) (p string) {
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(Fatal); ok {
				p = "fatal error: " + string(f)
			} else {
				p = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
			}
			t.done = true
		}
	}()
	if _, ok := t.next(); !ok {
		t.done = true
	}
	return
}

func spawn(f func()) *task {
	t := &task{id: len(tasks)}
	t.next, t.stop = iter.Pull(func(yield func(struct{}) bool) {
		t.yield = yield
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(abort); ok {
					return
				}
				panic(r)
			}
		}()
		f()
	})
	tasks = append(tasks, t)
	return t
}

// Go starts a goroutine of the code under test as a task.
func Go(f func()) {
	if cur == nil {
		// outside a scheduled run: run it to completion
		f()
		return
	}
	spawn(f)
	Yield()
}

// ---------------------------------------------------------------- locks

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	Yield()
	block("Mutex.Lock", func() bool { return !m.locked })
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	Yield()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	Yield()
	if !m.locked && !aborting {
		panic(Fatal("sync: unlock of unlocked mutex"))
	}
	m.locked = false
}

// RWMutex has the semantics of sync.RWMutex: a waiting writer keeps new
// readers out, and a departing writer lets the readers in that wait already.
type RWMutex struct {
	writer  bool
	readers int
	waitW   int
	waitR   int
	grant   int
}

func (m *RWMutex) Lock() {
	Yield()
	if m.writer || m.readers > 0 || m.waitW > 0 {
		m.waitW++
		block("RWMutex.Lock", func() bool { return !m.writer && m.readers == 0 })
		if m.waitW > 0 {
			m.waitW--
		}
	}
	m.writer = true
}

func (m *RWMutex) TryLock() bool {
	Yield()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	Yield()
	if !m.writer {
		if aborting {
			return
		}
		panic(Fatal("sync: Unlock of unlocked RWMutex"))
	}
	m.writer = false
	// admit the readers that are waiting now
	m.readers += m.waitR
	m.grant += m.waitR
	m.waitR = 0
}

func (m *RWMutex) RLock() {
	Yield()
	if m.writer || m.waitW > 0 {
		if cur == nil && !aborting && !m.writer && m.readers == 0 {
			m.waitW = 0
		} else {
			m.waitR++
			block("RWMutex.RLock", func() bool { return m.grant > 0 })
			if m.grant > 0 {
				m.grant--
			}
			return
		}
	}
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	Yield()
	if m.writer || m.waitW > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	Yield()
	if m.readers <= 0 {
		if aborting {
			return
		}
		panic(Fatal("sync: RUnlock of unlocked RWMutex"))
	}
	m.readers--
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	Yield()
	w.n += d
	if w.n < 0 && !aborting {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	Yield()
	block("WaitGroup.Wait", func() bool { return w.n == 0 })
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type Cond struct {
	L   Locker
	seq int
	n   int // signalled up to
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	me := c.seq
	c.seq++
	c.L.Unlock()
	block("Cond.Wait", func() bool { return c.n > me })
	c.L.Lock()
}
func (c *Cond) Signal() {
	if c.n < c.seq {
		c.n++
	}
}
func (c *Cond) Broadcast() { c.n = c.seq }
