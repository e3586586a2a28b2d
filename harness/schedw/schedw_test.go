// Package schedw runs small concurrent programs over the real command code
// (rewritten to yield before every statement) under seeded schedules and
// decides linearizability, deadlock freedom and KEYS exactness.
package schedw

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"sort"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"gRedis/config"
	"gRedis/memdb"

	"gredisverif/core"
	"gredisverif/model"
	"gredisverif/vsched"
	"gredisverif/wire"
)

var job core.Job
var started = time.Now()
var progress atomic.Int64
var stopNow atomic.Bool

func die(msg string) {
	fmt.Fprintln(os.Stderr, "WORKER-ENV: "+msg)
	os.Exit(3)
}

func finish(r *core.Report, code int) {
	b, err := json.Marshal(r)
	if err != nil {
		die(err.Error())
	}
	if err := os.WriteFile(job.Out, b, 0o644); err != nil {
		die(err.Error())
	}
	os.Exit(code)
}

func TestWorker(t *testing.T) {
	js := os.Getenv("VW_JOB")
	if js == "" {
		t.Skip("no job")
	}
	if err := json.Unmarshal([]byte(js), &job); err != nil {
		die("job: " + err.Error())
	}
	config.Conf = &config.Config{SegNum: 1, DbNum: 1}
	memdb.RegisterKeyCommands()
	memdb.RegisterStringCommands()
	memdb.RegisterHashCommands()
	memdb.RegisterListCommands()
	memdb.RegisterSetCommands()
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(200 * time.Millisecond)
			if job.Stop != "" {
				if _, err := os.Stat(job.Stop); err == nil {
					stopNow.Store(true)
				}
			}
			if p := progress.Load(); p != last {
				last, since = p, time.Now()
			} else if time.Since(since) > 60*time.Second {
				fmt.Fprintln(os.Stderr, "WORKER-HANG")
				panic("no progress for 60 s")
			}
		}
	}()
	rep := &core.Report{Labels: map[string]int64{}}
	if job.CaseFile != "" {
		b, err := os.ReadFile(job.CaseFile)
		if err != nil {
			die(err.Error())
		}
		c := &core.Case{}
		if err := json.Unmarshal(b, c); err != nil {
			die(err.Error())
		}
		L := map[string]int{}
		if c.OneSched == 0 {
			c.Scheds *= 5
		}
		rep.Evals++
		if err := runCase(c, L); err != nil {
			rep.Viol, rep.Msg = c, err.Error()
			finish(rep, 1)
		}
		if c.OneSched != 0 { // the very schedule may depend on details; try others as well
			c.OneSched = 0
			c.Scheds = 400
			if err := runCase(c, L); err != nil {
				rep.Viol, rep.Msg = c, err.Error()
				finish(rep, 1)
			}
		}
		finish(rep, 0)
	}
	jf, err := os.Create(job.Journal)
	if err != nil {
		die(err.Error())
	}
	var buf [8]byte
	for i := job.Start; i < job.Count; i += job.Stride {
		if time.Since(started).Seconds() > job.MaxSec || stopNow.Load() {
			rep.TimedOut = true
			break
		}
		c := core.Generate(job.Prop, job.Seed, i, job.Tier)
		binary.LittleEndian.PutUint64(buf[:], uint64(i))
		jf.WriteAt(buf[:], 0)
		L := map[string]int{}
		err := runCase(c, L)
		rep.Evals++
		for k, v := range L {
			rep.Labels[k] += int64(v)
		}
		if err != nil {
			rep.Viol, rep.Msg = c, err.Error()
			finish(rep, 1)
		}
		if core.NonTrivial(c, L) {
			rep.Hashes = append(rep.Hashes, c.Hash())
			if len(rep.Samples) < 2 {
				rep.Samples = append(rep.Samples, c.Sample())
			}
		}
	}
	finish(rep, 0)
}

type rec struct {
	client     int
	args       []string
	reply      wire.Reply
	start, end int
	done       bool
	bad        string
}

func exec(db *memdb.MemDb, args []string) (r wire.Reply, bad string) {
	cmd := make([][]byte, len(args))
	for i, a := range args {
		cmd[i] = []byte(a)
	}
	c := memdb.CmdTable[strings.ToLower(args[0])]
	if c == nil {
		return wire.Reply{K: '-', S: "unknown command"}, ""
	}
	d := c.Executor(db, cmd)
	vsched.Yield()
	if d == nil {
		return wire.Reply{K: '-', S: "unknown error"}, ""
	}
	out := d.ToRedisFormat()
	r, rest, err := wire.Decode(out)
	if err != nil || len(rest) > 0 {
		return r, fmt.Sprintf("reply is not one RESP value: %q (%v)", out, err)
	}
	return r, ""
}

// quiet runs f outside a scheduled run and reports panics.
func quiet(f func()) (msg string) {
	defer func() {
		if p := recover(); p != nil {
			msg = fmt.Sprintf("%v", p)
		}
	}()
	f()
	return
}

func nowMs() int64 { return vsched.Now().UnixMilli() }

func runCase(c *core.Case, L map[string]int) error {
	var setup, prog []core.Op
	clients := 0
	for _, o := range c.Ops {
		if o.Setup {
			setup = append(setup, o)
		} else if len(o.Args) > 0 {
			prog = append(prog, o)
			if o.Conn+1 > clients {
				clients = o.Conn + 1
			}
		}
	}
	classify(prog, c, L)
	lens := 0
	from, to := int64(0), c.Scheds
	if c.OneSched > 0 {
		from, to = c.OneSched-1, c.OneSched
	}
	for s := from; s < to; s++ {
		progress.Add(1)
		config.Conf = &config.Config{SegNum: c.Seg, DbNum: 1}
		vsched.ResetClock(0)
		db := memdb.NewMemDb()
		m := model.New(1)
		// setup
		for i, o := range setup {
			if o.K == "z" {
				vsched.Advance(time.Duration(o.Ms) * time.Millisecond)
				continue
			}
			args := o.Strs()
			if len(args) == 0 {
				continue
			}
			var r wire.Reply
			var bad string
			if p := quiet(func() { r, bad = exec(db, args) }); p != "" {
				return fmt.Errorf("setup command %d %s: %s", i, wire.CmdString(args), p)
			}
			if bad == "" {
				if err := model.Step(m.DBs[0], args, r, nowMs(), nil); err != nil {
					bad = err.Error()
				}
			}
			if bad != "" {
				if c.Prop == "C16" {
					return fmt.Errorf("setup command %d %s: %s", i, wire.CmdString(args), bad)
				}
				return nil // a sequential fault, decided by other properties
			}
		}
		// move on until no key is inside its deadline's resolution second
		for i := 0; i < 50 && len(m.DBs[0].Undetermined(nowMs())) > 0; i++ {
			vsched.Advance(200 * time.Millisecond)
		}
		m.DBs[0].Purge(nowMs())
		recs := make([]*rec, len(prog))
		fs := make([]func(), clients)
		for k := 0; k < clients; k++ {
			var mine []*rec
			for i, o := range prog {
				if o.Conn == k {
					recs[i] = &rec{client: k, args: o.Strs()}
					mine = append(mine, recs[i])
				}
			}
			fs[k] = func() {
				for _, x := range mine {
					vsched.Yield()
					x.start = vsched.Step()
					x.reply, x.bad = exec(db, x.args)
					x.end = vsched.Step()
					x.done = true
				}
			}
		}
		r := rand.New(rand.NewPCG(c.SchedSeed, uint64(s)))
		out := vsched.Run(fs, newChooser(r, s, clients, lens), 100000)
		lens = out.Steps
		L["schedules"]++
		L["steps"] += out.Steps
		fail := func(format string, a ...any) error {
			c.OneSched = s + 1
			return fmt.Errorf(format+"\nschedule %d:\n%s", append(a, s, history(recs))...)
		}
		if out.Panic != "" {
			return fail("the server crashed: %s", trim(out.Panic))
		}
		if out.Deadlock != "" {
			return fail("%s", out.Deadlock)
		}
		if out.Limit {
			return fail("a command did not complete within 100000 steps")
		}
		for _, x := range recs {
			if x.bad != "" {
				return fail("client %d %s: %s", x.client, wire.CmdString(x.args), x.bad)
			}
		}
		// final state
		var finals []*rec
		if p := quiet(func() { finals = dump(db, c) }); p != "" {
			return fail("after all commands completed: %s", p)
		}
		switch c.Prop {
		case "C16":
			if err := linearize(m, recs, finals); err != nil {
				return fail("%s", err)
			}
		case "C19":
			if err := checkKeys(m, recs); err != nil {
				return fail("%s", err)
			}
		}
	}
	return nil
}

func trim(s string) string {
	l := strings.Split(s, "\n")
	var out []string
	for _, x := range l {
		if strings.Contains(x, "runtime/debug") || strings.Contains(x, "vsched") {
			continue
		}
		out = append(out, x)
		if len(out) > 14 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func history(recs []*rec) string {
	l := append([]*rec(nil), recs...)
	sort.SliceStable(l, func(i, j int) bool { return l[i].start < l[j].start })
	var b strings.Builder
	for _, x := range l {
		if !x.done {
			fmt.Fprintf(&b, "  client %d [%d-      ] %s -> no reply\n", x.client, x.start, wire.CmdString(x.args))
			continue
		}
		fmt.Fprintf(&b, "  client %d [%d-%d] %s -> %s\n", x.client, x.start, x.end, wire.CmdString(x.args), x.reply)
	}
	return b.String()
}

func classify(prog []core.Op, c *core.Case, L map[string]int) {
	for i, a := range prog {
		for _, b := range prog[:i] {
			if a.Conn == b.Conn {
				continue
			}
			na, nb := model.Names(a.Strs()), model.Names(b.Strs())
			common, shared := false, false
			for _, x := range na {
				for _, y := range nb {
					if x == y {
						common = true
					}
				}
			}
			if c.Seg <= 2 && len(na) > 0 && len(nb) > 0 {
				shared = true
			}
			ro := model.ReadOnly(string(a.Args[0])) && model.ReadOnly(string(b.Args[0]))
			if common && !ro {
				L["conflicts"]++
			}
			if shared && !ro {
				L["shared-locks"]++
			}
			ka, kb := strings.EqualFold(string(a.Args[0]), "keys"), strings.EqualFold(string(b.Args[0]), "keys")
			if ka != kb && !ro {
				L["keys-overlaps"]++
			}
		}
	}
}

func dump(db *memdb.MemDb, c *core.Case) (out []*rec) {
	ask := func(args ...string) wire.Reply {
		r, bad := exec(db, args)
		if bad != "" {
			panic(bad)
		}
		out = append(out, &rec{args: args, reply: r})
		return r
	}
	ask("keys", "*")
	for _, kb := range c.Keys {
		k := string(kb)
		switch ask("type", k).S {
		case "string":
			ask("get", k)
		case "list":
			ask("lrange", k, "0", "-1")
		case "hash":
			ask("hgetall", k)
		case "set":
			ask("smembers", k)
		}
		ask("ttl", k)
	}
	return
}

// ---------------------------------------------------------------- schedules

type chooser struct {
	r     *rand.Rand
	mode  int
	p     float64
	prio  []float64
	chg   map[int]bool
	count int
	quant int
}

func newChooser(r *rand.Rand, s int64, clients, lens int) *chooser {
	c := &chooser{r: r, mode: int(s % 4)}
	switch c.mode {
	case 0: // uniform
	case 1: // seldom switch
		c.p = []float64{0.02, 0.05, 0.1, 0.2}[r.IntN(4)]
	case 2, 3: // priorities with change points
		for i := 0; i < 16; i++ {
			c.prio = append(c.prio, r.Float64()+1)
		}
		if lens < 10 {
			lens = 100
		}
		c.chg = map[int]bool{}
		for d := 1 + r.IntN(3); d > 0; d-- {
			c.chg[r.IntN(lens)] = true
		}
	}
	return c
}

func (c *chooser) Pick(run []int, prev, step int) int {
	if len(run) == 1 {
		return 0
	}
	switch c.mode {
	case 0:
		return c.r.IntN(len(run))
	case 1:
		if c.r.Float64() >= c.p {
			for i, k := range run {
				if k == prev {
					return i
				}
			}
		}
		return c.r.IntN(len(run))
	}
	if c.chg[step] && prev >= 0 && prev < len(c.prio) {
		c.count++
		c.prio[prev] = 1 / float64(c.count+1) // lowest so far
	}
	best := 0
	for i, k := range run {
		for k >= len(c.prio) {
			c.prio = append(c.prio, c.r.Float64()+1)
		}
		if c.prio[k] > c.prio[run[best]] {
			best = i
		}
	}
	return best
}

// ---------------------------------------------------------------- oracles

// linearize looks for a one-at-a-time order that explains all replies and the
// final state.
func linearize(m *model.Model, recs, finals []*rec) error {
	n := len(recs)
	seen := map[string]bool{}
	t := nowMs()
	var why error
	var dfs func(mask uint32, m *model.Model) bool
	dfs = func(mask uint32, m *model.Model) bool {
		if mask == 1<<n-1 {
			f := m.Clone()
			for _, x := range finals {
				if err := model.Step(f.DBs[0], x.args, x.reply, t, nil); err != nil {
					why = fmt.Errorf("final state: %s answered %s: %w", wire.CmdString(x.args), x.reply, err)
					return false
				}
			}
			return true
		}
		key := fmt.Sprintf("%x|%s", mask, m.Canon())
		if seen[key] {
			return false
		}
		seen[key] = true
		// candidates: not preceded by another pending operation
		minEnd := int(^uint(0) >> 1)
		for i, x := range recs {
			if mask&(1<<i) == 0 && x.end < minEnd {
				minEnd = x.end
			}
		}
		for i, x := range recs {
			if mask&(1<<i) != 0 || x.start > minEnd {
				continue
			}
			if clientBefore(recs, mask, i) {
				continue
			}
			c := m.Clone()
			if err := model.Step(c.DBs[0], x.args, x.reply, t, nil); err != nil {
				why = fmt.Errorf("%s answered %s: %w", wire.CmdString(x.args), x.reply, err)
				continue
			}
			if dfs(mask|1<<i, c) {
				return true
			}
		}
		return false
	}
	if dfs(0, m.Clone()) {
		return nil
	}
	var b strings.Builder
	for _, x := range finals {
		fmt.Fprintf(&b, "  %s -> %s\n", wire.CmdString(x.args), x.reply)
	}
	return fmt.Errorf("no one-at-a-time order explains the replies and the final state (last obstacle: %v)\nfinal state:\n%s", why, b.String())
}

// clientBefore: an earlier operation of the same client is still pending.
func clientBefore(recs []*rec, mask uint32, i int) bool {
	for j, y := range recs {
		if j != i && mask&(1<<j) == 0 && y.client == recs[i].client && y.end <= recs[i].start && j < i {
			return true
		}
	}
	return false
}

type event struct {
	start, end int
	eff        byte // '+' exists afterwards, '-' gone afterwards, '?' perhaps removed, '*' perhaps made
}

// effects returns what a completed command did to the existence of keys.
func effects(x *rec) map[string]byte {
	e := map[string]byte{}
	a, r := x.args, x.reply
	if _, ok := model.ArityOK(a); !ok || r.IsErr() {
		return e
	}
	c := strings.ToLower(a[0])
	if model.ReadOnly(c) {
		return e
	}
	pos := r.K == ':' && r.N > 0
	switch c {
	case "set":
		if r.K == '+' {
			e[a[1]] = '+'
		} else {
			e[a[1]] = '*' // written or not: the reply is the old value
		}
	case "setex", "append", "setnx", "incr", "incrby", "decr", "decrby", "incrbyfloat", "rpush", "lpush", "hset", "hmset", "hsetnx", "hincrby", "hincrbyfloat", "sadd":
		e[a[1]] = '+'
	case "mset":
		for i := 1; i < len(a); i += 2 {
			e[a[i]] = '+'
		}
	case "setrange", "lpushx", "rpushx":
		if pos {
			e[a[1]] = '+'
		}
	case "del":
		for _, k := range a[1:] {
			e[k] = '-'
		}
	case "rename":
		if a[1] != a[2] {
			e[a[1]] = '-'
		}
		e[a[2]] = '+'
	case "sinterstore", "sunionstore", "sdiffstore":
		if pos {
			e[a[1]] = '+'
		} else {
			e[a[1]] = '-'
		}
	case "lmove":
		if !r.Null {
			e[a[1]] = '?'
			e[a[2]] = '+'
		}
	case "smove":
		if pos {
			e[a[1]] = '?'
			e[a[2]] = '+'
		}
	case "expire", "persist", "lset", "linsert":
		// long times to live only
	default:
		for _, k := range model.Names(a) {
			e[k] = '?'
		}
	}
	return e
}

// checkKeys decides each KEYS reply by what the other commands allow.
func checkKeys(m *model.Model, recs []*rec) error {
	ev := map[string][]event{}
	for k := range m.DBs[0] {
		ev[k] = append(ev[k], event{-2, -1, '+'})
	}
	for _, x := range recs {
		for k, f := range effects(x) {
			ev[k] = append(ev[k], event{x.start, x.end, f})
		}
	}
	for _, x := range recs {
		if !strings.EqualFold(x.args[0], "keys") || len(x.args) != 2 {
			continue
		}
		if x.reply.K != '*' {
			return fmt.Errorf("KEYS answered %s", x.reply)
		}
		got := map[string]int{}
		for _, e := range x.reply.A {
			got[e.S]++
			if got[e.S] > 1 {
				return fmt.Errorf("KEYS returned %q twice", e.S)
			}
			if ok, valid := model.Glob(x.args[1], e.S); valid && !ok {
				return fmt.Errorf("KEYS %q returned %q, which does not match", x.args[1], e.S)
			}
		}
		names := map[string]bool{}
		for k := range ev {
			names[k] = true
		}
		for k := range got {
			names[k] = true
		}
		for k := range names {
			match, valid := model.Glob(x.args[1], k)
			must, can := false, false
			es := ev[k]
			for _, a := range es {
				if a.eff == '*' && a.start < x.end {
					can = true
				}
				if a.eff != '+' {
					continue
				}
				if a.start < x.end {
					can = true
				}
				if a.end < x.start {
					safe := true
					for _, b := range es {
						if b.eff != '+' && b.eff != '*' && b.end > a.start && b.start < x.end {
							safe = false
						}
					}
					if safe {
						must = true
					}
				}
			}
			// certainly removed before the call and not made again
			if can {
				for _, b := range es {
					if b.eff != '-' || b.end >= x.start {
						continue
					}
					again := false
					for _, a := range es {
						if a.eff == '+' && a.end > b.start && a.start < x.end && a != b {
							again = true
						}
						if a.eff == '*' && a.end > b.start && a.start < x.end {
							again = true
						}
					}
					if !again {
						can = false
					}
				}
			}
			if valid && match && must && got[k] == 0 {
				return fmt.Errorf("KEYS %q missed %q, which existed throughout the call: %s", x.args[1], k, x.reply)
			}
			if !can && got[k] > 0 {
				return fmt.Errorf("KEYS %q returned %q, which did not exist at any time during the call: %s", x.args[1], k, x.reply)
			}
		}
	}
	return nil
}
