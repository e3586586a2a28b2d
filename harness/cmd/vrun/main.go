// vrun runs the check of one property: it builds the workers from /repo's
// working tree, lets them execute generated cases, confirms and shrinks any
// failure to a replay file, and writes the evidence file.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"gredisverif/core"
)

type plan struct {
	worker   string // seq, sched, race
	quick    int64
	thorough int64
	e2e      bool     // extra cases with the real server process
	par      [2]int64 // extra cases of parallel clients
}

var plans = map[string]plan{
	"C01": {"seq", 12000, 400000, true, [2]int64{2000, 80000}},
	"C02": {"seq", 10000, 300000, false, [2]int64{5000, 150000}},
	"C03": {"seq", 24000, 600000, true, [2]int64{2000, 60000}},
	"C04": {"seq", 130000, 3000000, true, [2]int64{2000, 50000}},
	"C05": {"seq", 130000, 3000000, true, [2]int64{2000, 50000}},
	"C06": {"seq", 70000, 2000000, true, [2]int64{2000, 50000}},
	"C07": {"seq", 70000, 2000000, true, [2]int64{2000, 50000}},
	"C08": {"seq", 70000, 2000000, true, [2]int64{2000, 50000}},
	"C09": {"seq", 90000, 3000000, true, [2]int64{2000, 50000}},
	"C10": {"seq", 250000, 4000000, true, [2]int64{0, 0}},
	"C11": {"seq", 40000, 800000, false, [2]int64{0, 0}},
	"C12": {"seq", 30000, 600000, true, [2]int64{2000, 50000}},
	"C13": {"seq", 40000, 800000, true, [2]int64{2000, 50000}},
	"C14": {"seq", 60000, 2000000, true, [2]int64{2000, 50000}},
	"C15": {"seq", 40000, 2000000, true, [2]int64{6000, 150000}},
	"C16": {"sched", 20000, 200000, false, [2]int64{0, 0}},
	"C17": {"sched", 16000, 200000, false, [2]int64{0, 0}},
	"C18": {"race", 900, 12000, false, [2]int64{0, 0}},
	"C19": {"sched", 20000, 300000, false, [2]int64{0, 0}},
	"C20": {"seq", 20000, 800000, true, [2]int64{2000, 60000}},
	"C21": {"seq", 120000, 2500000, true, [2]int64{2000, 50000}},
	"C22": {"seq", 32000, 1000000, true, [2]int64{2000, 50000}},
	"C23": {"seq", 20000, 600000, false, [2]int64{0, 0}},
	"C24": {"seq", 150000, 1000000, true, [2]int64{0, 0}},
	"C25": {"seq", 16000, 600000, true, [2]int64{2000, 50000}},
	"C26": {"", 0, 0, true, [2]int64{0, 0}},
	"C27": {"seq", 20000, 300000, false, [2]int64{0, 0}},
}

type ctx struct {
	id       string
	tier     string
	seed     uint64
	root     string // /verif
	repo     string
	scratch  string
	plan     plan
	workers  int
	bin      string
	kind     string // what bin is: seq, sched, race, par
	server   string
	labels   map[string]int64
	samples  []any
	evals    int64
	distinct map[uint64]bool
	start    time.Time
	timedOut bool
}

// fatal is an error of the check itself: no verdict.
func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "ERROR: "+format+"\n", a...)
	cleanup()
	os.Exit(2)
}

var scratchDir string

func cleanup() {
	if scratchDir != "" && strings.Contains(scratchDir, "gredis-verif-") {
		os.RemoveAll(scratchDir)
	}
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: vrun ID [quick|thorough] | vrun --replay FILE")
	}
	c := &ctx{labels: map[string]int64{}, distinct: map[uint64]bool{}, start: time.Now()}
	c.root = os.Getenv("VERIF_ROOT")
	if c.root == "" {
		c.root = "/verif"
	}
	c.repo = "/repo"
	if r := os.Getenv("VERIF_REPO"); r != "" {
		c.repo = r // development only: another tree than /repo
	}
	replay := ""
	args := os.Args[1:]
	if args[0] == "--kill" && len(args) == 3 {
	} else if args[0] == "--replay" && len(args) > 1 {
		replay = args[1]
	} else {
		c.id = args[0]
		if len(args) > 1 {
			c.tier = args[1]
		}
	}
	if c.tier == "" {
		c.tier = os.Getenv("VERIF_TIER")
	}
	if c.tier != "thorough" {
		c.tier = "quick"
	}
	c.seed = 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			fatal("VERIF_SEED: %v", err)
		}
		c.seed = uint64(n)
	}
	c.workers = runtime.NumCPU()
	if c.workers > 8 {
		c.workers = 8
	}
	if c.workers < 2 {
		c.workers = 2
	}
	var err error
	c.scratch, err = os.MkdirTemp("", "gredis-verif-")
	if err != nil {
		fatal("%v", err)
	}
	scratchDir = c.scratch
	code := 0
	if len(args) == 3 && args[0] == "--kill" {
		code = c.kill(args[1], args[2])
	} else if replay != "" {
		code = c.replay(replay)
	} else {
		p, ok := plans[c.id]
		if !ok {
			fatal("unknown property %s", c.id)
		}
		c.plan = p
		code = c.check()
	}
	cleanup()
	os.Exit(code)
}

func (c *ctx) env() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOMEMLIMIT=1500MiB")
}

func (c *ctx) run(dir string, name string, args ...string) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Env = c.env()
	out, err := cmd.CombinedOutput()
	if err != nil {
		fatal("%s %s: %v\n%s", name, strings.Join(args, " "), err, out)
	}
}

// build compiles the worker against the current working tree.
func (c *ctx) build(kind string) {
	c.bin = filepath.Join(c.scratch, "worker-"+kind)
	c.kind = kind
	if _, err := os.Stat(c.bin); err == nil {
		return
	}
	h := filepath.Join(c.root, "harness")
	mod := []string{}
	if c.repo != "/repo" {
		b, err := os.ReadFile(filepath.Join(h, "go.mod"))
		if err != nil {
			fatal("%v", err)
		}
		mf := filepath.Join(c.scratch, "alt.mod")
		os.WriteFile(mf, []byte(strings.ReplaceAll(string(b), "=> /repo", "=> "+c.repo)), 0o644)
		mod = append(mod, "-modfile", mf)
	}
	test := func(args ...string) {
		c.run(h, "go", append(append([]string{"test", "-c", "-o", c.bin}, mod...), args...)...)
	}
	switch kind {
	case "seq":
		test("./worker")
	case "sched":
		ov, err := makeOverlay(c.repo, filepath.Join(c.scratch, "ov"), h)
		if err != nil {
			fatal("overlay: %v", err)
		}
		test("-overlay", ov, "./schedw")
	case "race":
		test("-race", "./racew")
	case "par":
		test("./racew")
	}
}

func (c *ctx) buildServer() {
	if c.server == "" {
		s := filepath.Join(c.scratch, "gredis")
		cmd := exec.Command("go", "build", "-o", s, ".")
		cmd.Dir = c.repo
		cmd.Env = append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off")
		if out, err := cmd.CombinedOutput(); err != nil {
			fatal("building the server: %v\n%s", err, out)
		}
		c.server = s
	}
}

// outcome of one worker process
type outcome struct {
	code   int
	stderr string
	rep    *core.Report
	killed bool
	jidx   int64
}

var jobSeq int
var jobMu sync.Mutex

func (c *ctx) spawn(j core.Job, timeout time.Duration) outcome {
	jobMu.Lock()
	jobSeq++
	dir := filepath.Join(c.scratch, fmt.Sprintf("j%d", jobSeq))
	jobMu.Unlock()
	if err := os.MkdirAll(dir, 0o755); err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	j.Out, j.Journal, j.Scratch = filepath.Join(dir, "out.json"), filepath.Join(dir, "journal"), dir
	js, _ := json.Marshal(j)
	limit := "ulimit -v 16777216; "
	if c.kind == "race" {
		limit = ""
	}
	cmd := exec.Command("bash", "-c", limit+"exec \"$0\" -test.run TestWorker -test.timeout 0", c.bin)
	cmd.Dir = dir
	cmd.Env = append(c.env(), "VW_JOB="+string(js), "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66")
	ef, err := os.Create(filepath.Join(dir, "stderr"))
	if err != nil {
		fatal("%v", err)
	}
	of, _ := os.Create(filepath.Join(dir, "stdout"))
	cmd.Stdout, cmd.Stderr = of, ef
	if err := cmd.Start(); err != nil {
		fatal("%v", err)
	}
	var o outcome
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(timeout):
		cmd.Process.Kill()
		<-done
		o.killed = true
	}
	ef.Close()
	of.Close()
	b, _ := os.ReadFile(filepath.Join(dir, "stderr"))
	if len(b) > 60000 {
		b = append(b[:40000:40000], b[len(b)-20000:]...)
	}
	o.stderr = string(b)
	o.code = cmd.ProcessState.ExitCode()
	if b, err := os.ReadFile(j.Out); err == nil {
		r := &core.Report{}
		if json.Unmarshal(b, r) == nil {
			o.rep = r
		}
	}
	o.jidx = -1
	if b, err := os.ReadFile(j.Journal); err == nil && len(b) == 8 {
		for i := 7; i >= 0; i-- {
			o.jidx = o.jidx<<8 | int64(b[i])
		}
		if o.jidx < 0 {
			o.jidx = -1
		}
	}
	return o
}

// failure classifies an outcome: "" means no failure.
func (o *outcome) failure() (kind, msg string) {
	switch {
	case o.rep != nil && o.rep.Msg != "":
		return "mismatch", o.rep.Msg
	case strings.Contains(o.stderr, "WORKER-ENV"):
		return "env", firstLines(o.stderr, 3)
	case strings.Contains(o.stderr, "WORKER-DEADLOCK"):
		return "deadlock", "a command never completes: every server goroutine is blocked\n" + serverStacks(o.stderr)
	case strings.Contains(o.stderr, "WORKER-HANG"):
		return "hang", "a command did not complete within 30 s\n" + serverStacks(o.stderr)
	case strings.Contains(o.stderr, "WARNING: DATA RACE"):
		return "race", raceText(o.stderr)
	case strings.Contains(o.stderr, "fatal error:") || strings.Contains(o.stderr, "panic:"):
		k := "crash"
		if strings.Contains(o.stderr, "out of memory") || strings.Contains(o.stderr, "cannot allocate memory") {
			k = "oom"
		}
		return k, "the server process crashed: " + crashText(o.stderr)
	case o.killed:
		return "timeout", "worker did not finish in time"
	case o.code != 0 || o.rep == nil:
		return "env", fmt.Sprintf("worker ended with code %d\n%s", o.code, firstLines(o.stderr, 20))
	}
	return "", ""
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func crashText(s string) string {
	i := strings.Index(s, "panic:")
	if j := strings.Index(s, "fatal error:"); j >= 0 && (i < 0 || j < i) {
		i = j
	}
	return firstLines(s[i:], 25)
}

func raceText(s string) string {
	i := strings.Index(s, "WARNING: DATA RACE")
	return firstLines(s[i:], 45)
}

func serverStacks(s string) string {
	var out []string
	for _, g := range strings.Split(s, "\n\n") {
		if strings.Contains(g, "\ngRedis/") || strings.Contains(g, "gRedis/memdb") {
			out = append(out, firstLines(g, 14))
		}
		if len(out) == 3 {
			break
		}
	}
	return strings.Join(out, "\n\n")
}

// kill is a development aid for mutation testing: it runs the listed
// properties (with fractions of their quick counts, one process) until one of
// them sees a failure, and says which.
func (c *ctx) kill(props, frac string) int {
	f, _ := strconv.ParseFloat(frac, 64)
	for _, p := range strings.Split(props, ",") {
		c.id, c.plan = p, plans[p]
		c.build(c.plan.worker)
		o := c.spawn(core.Job{Prop: p, Seed: c.seed, Tier: "quick", Stride: 1, Count: int64(float64(c.plan.quick)*f) + 1, MaxSec: 100}, 200*time.Second)
		if k, m := o.failure(); k != "" {
			fmt.Printf("KILLED %s %s %s\n", p, k, firstLines(m, 1))
			return 1
		}
		if c.plan.par[0] > 0 && f > 0.1 {
			c.build("par")
			o := c.spawn(core.Job{Prop: p, Stage: "par", Seed: c.seed, Tier: "quick", Stride: 1, Count: int64(float64(c.plan.par[0])*f) + 1, MaxSec: 100}, 200*time.Second)
			if k, m := o.failure(); k != "" {
				fmt.Printf("KILLED %s %s %s\n", p, k, firstLines(m, 1))
				return 1
			}
		}
	}
	fmt.Println("SURVIVED")
	return 0
}

func (c *ctx) check() int {
	count := c.plan.quick
	maxSec := 120.0
	if c.tier == "thorough" {
		count, maxSec = c.plan.thorough, 600
	}
	if s := os.Getenv("VERIF_COUNT"); s != "" {
		count, _ = strconv.ParseInt(s, 10, 64)
	}
	if c.plan.worker != "" {
		c.build(c.plan.worker)
		if f := c.explore("", count, maxSec); f != nil {
			return c.violation(f)
		}
	}
	if c.plan.par[0] > 0 {
		count, maxSec = c.plan.par[0], 60
		if c.tier == "thorough" {
			count, maxSec = c.plan.par[1], 200
		}
		if s := os.Getenv("VERIF_PAR"); s != "" {
			count, _ = strconv.ParseInt(s, 10, 64)
		}
		c.build("par")
		if f := c.explore("par", count, maxSec); f != nil {
			return c.violation(f)
		}
	}
	if c.plan.e2e {
		c.buildServer()
		if f := c.e2eAll(); f != nil {
			return c.e2eViolation(f)
		}
	}
	c.evidence(0)
	note := ""
	if c.timedOut {
		note = " (time limit reached before all planned cases)"
	}
	fmt.Printf("OK property=%s cases=%d nontrivial=%d%s\n", c.id, c.evals, len(c.distinct), note)
	return 0
}

// explore lets the workers execute the cases of a stage and returns a
// confirmed failure.
func (c *ctx) explore(stage string, count int64, maxSec float64) *found {
	n := c.workers
	if c.kind == "race" {
		n = 6
	}
	if c.kind == "par" {
		n = 3
	}
	starts := make([]int64, n)
	for i := range starts {
		starts[i] = int64(i)
	}
	began := time.Now()
	for round := 0; ; round++ {
		left := maxSec - time.Since(began).Seconds()
		if left < 5 {
			c.timedOut = true
			return nil
		}
		f, again, env := c.round(stage, starts, int64(n), count, left)
		if f != nil {
			return f
		}
		if env != nil && (round >= 3 || env.c == nil) {
			fatal("no verdict: %s: %s\n%s", env.kind, env.msg, firstLines(env.stderr, 40))
		}
		if env == nil {
			return nil
		}
		// What made a worker give up did not come back when the case was run
		// again on its own (a machine too busy, say): the case counts as not
		// explored, and the worker goes on behind it.
		c.labels["unconfirmed"]++
		if len(again) == 0 {
			return nil
		}
		starts = again
	}
}

// round lets one worker per start execute cases. It returns a confirmed
// failure, or the places to go on from after failures that did not come back.
func (c *ctx) round(stage string, starts []int64, stride, count int64, maxSec float64) (f *found, again []int64, env *found) {
	n := len(starts)
	outs := make([]outcome, n)
	stop := filepath.Join(c.scratch, "stop")
	os.Remove(stop)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			outs[i] = c.spawn(core.Job{Prop: c.id, Stage: stage, Seed: c.seed, Tier: c.tier, Start: starts[i], Stride: stride, Count: count, MaxSec: maxSec, Stop: stop}, time.Duration(maxSec+240)*time.Second)
			if k, _ := outs[i].failure(); k != "" {
				os.WriteFile(stop, nil, 0o644)
			}
		}()
	}
	wg.Wait()
	var fails []found
	timedOut := false
	for i := range outs {
		o := &outs[i]
		if o.rep != nil {
			c.evals += o.rep.Evals
			timedOut = timedOut || o.rep.TimedOut
			for _, h := range o.rep.Hashes {
				c.distinct[h] = true
			}
			for k, v := range o.rep.Labels {
				c.labels[k] += v
			}
			if len(c.samples) < 5 {
				c.samples = append(c.samples, o.rep.Samples...)
			} else if stage == "par" && len(o.rep.Samples) > 0 {
				c.samples = append(c.samples[:5:5], o.rep.Samples[0])
			}
		}
		kind, msg := o.failure()
		if kind == "" {
			continue
		}
		f := found{kind: kind, msg: msg, stderr: o.stderr}
		switch {
		case kind == "mismatch":
			f.c = o.rep.Viol
		case o.jidx >= 0 && kind != "env":
			if stage == "par" {
				f.c = core.GeneratePar(c.id, c.seed, o.jidx, c.tier)
			} else {
				f.c = core.Generate(c.id, c.seed, o.jidx, c.tier)
			}
		}
		fails = append(fails, f)
	}
	for i := range fails {
		f := &fails[i]
		if f.c != nil && c.confirm(f) {
			return f, nil, nil
		}
		if env == nil || f.c == nil {
			env = f
		}
	}
	if len(fails) == 0 {
		c.timedOut = c.timedOut || timedOut
		return nil, nil, nil
	}
	for i := range outs {
		o := &outs[i]
		if o.jidx >= 0 && o.jidx+stride < count {
			again = append(again, o.jidx+stride)
		}
	}
	return nil, again, env
}

type found struct {
	kind, msg, stderr string
	c                 *core.Case
}

// confirm decides whether a failure is the code's: what the oracle saw is
// final; a crash, hang or memory failure has to come back on its own.
func (c *ctx) confirm(f *found) bool {
	switch f.kind {
	case "mismatch", "deadlock":
		return true
	case "race":
		if strings.Contains(f.msg, "gRedis/") {
			return true
		}
	case "crash":
		if strings.Contains(f.stderr, "gRedis/") {
			return true
		}
	}
	for i := 0; i < 3; i++ {
		kind, msg := c.try(f.c, 0, 90*time.Second)
		if kind != "" && kind != "env" && kind != "timeout" {
			f.kind, f.msg = kind, msg
			return true
		}
	}
	return false
}

// try runs one case in a process of its own.
func (c *ctx) try(k *core.Case, reps int, timeout time.Duration) (string, string) {
	b, _ := json.Marshal(k)
	jobMu.Lock()
	jobSeq++
	p := filepath.Join(c.scratch, fmt.Sprintf("case%d.json", jobSeq))
	jobMu.Unlock()
	if err := os.WriteFile(p, b, 0o644); err != nil {
		fatal("%v", err)
	}
	defer os.Remove(p)
	o := c.spawn(core.Job{Prop: k.Prop, Seed: k.Seed, Tier: c.tier, CaseFile: p, Reps: reps}, timeout)
	kind, msg := o.failure()
	if kind == "mismatch" && o.rep.Viol != nil && o.rep.Viol.OneSched > 0 {
		k.OneSched = o.rep.Viol.OneSched
	}
	return kind, msg
}

func (c *ctx) violation(f *found) int {
	best, msg := c.shrink(f.c, f.msg, f.kind)
	best.Failure = msg
	path := c.saveReplay(best)
	fmt.Printf("property %s is violated (%s):\n%s\n", c.id, f.kind, msg)
	for _, l := range best.Lines() {
		fmt.Println("  " + l)
	}
	c.evidence(1)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, path)
	return 1
}

func (c *ctx) saveReplay(k *core.Case) string {
	dir := filepath.Join(c.root, "replays")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(k, "", " ")
	p := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", c.id, k.Hash()))
	if err := os.WriteFile(p, append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	return p
}

func (c *ctx) replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	k := &core.Case{}
	if err := json.Unmarshal(b, k); err != nil {
		fatal("%v", err)
	}
	c.id = k.Prop
	c.plan = plans[k.Prop]
	if strings.HasPrefix(k.Kind, "e2e") {
		c.buildServer()
		if f := c.replayE2E(k); f != nil {
			fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", f.msg, c.id, path)
			return 1
		}
		fmt.Printf("OK property=%s: the replay passes\n", c.id)
		return 0
	}
	if k.Kind == "par" {
		c.build("par")
	} else {
		c.build(c.plan.worker)
	}
	kind, msg := "", ""
	for i := 0; i < 5 && (kind == "" || kind == "env"); i++ {
		kind, msg = c.try(k, 20, 120*time.Second)
	}
	switch kind {
	case "":
		fmt.Printf("OK property=%s: the replay passes\n", c.id)
		return 0
	case "env", "timeout":
		fatal("%s", msg)
	}
	fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", msg, c.id, path)
	return 1
}

func (c *ctx) rule() string {
	s := core.Rules[c.id]
	if c.plan.par[0] > 0 {
		s += "; of the cases of parallel clients those with at least two active clients"
	}
	if c.plan.e2e && c.id != "C26" {
		s += "; of the cases against the server process the distinct ones (histories: with at least two state changes)"
	}
	return s
}

func (c *ctx) evidence(viol int) {
	if len(c.samples) > 6 {
		c.samples = c.samples[:6]
	}
	if c.samples == nil {
		c.samples = []any{}
	}
	lab := map[string]int64{}
	cmds := map[string]int64{}
	for k, v := range c.labels {
		if strings.HasPrefix(k, "cmd:") {
			cmds[k[4:]] = v
		} else {
			lab[k] = v
		}
	}
	cov := map[string]any{
		"evaluations": c.evals, "distinct_nontrivial": len(c.distinct), "rule": c.rule(), "samples": c.samples,
		"labels": lab, "time_limited": c.timedOut,
	}
	if len(cmds) > 0 {
		cov["commands_executed"] = cmds
	}
	ev := map[string]any{"property": c.id, "tier": c.tier, "seed": c.seed, "level": "exploration", "coverage": cov,
		"assumptions": assumptions(c.plan.worker), "wall_s": time.Since(c.start).Seconds(), "violations": viol}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(c.root, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, c.id+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}

func assumptions(kind string) []string {
	switch kind {
	case "":
		return []string{"the real server binary runs as a process of its own, over the loopback network and the real clock; promptly means within 15 s"}
	case "sched":
		return []string{"the command code of package memdb runs with a scheduler-controlled copy of sync (same semantics as sync.Mutex and sync.RWMutex, writers preferred) and a scheduling point before every statement; memory is sequentially consistent (data races are property C18)", "the reference model states the documented Redis semantics"}
	case "race":
		return []string{"the Go race detector reports races on the executed paths only", "schedules are those the Go runtime produced"}
	}
	return []string{"the server code runs unchanged, with in-memory connections and the virtual clock of testing/synctest", "the reference model states the documented Redis semantics"}
}
