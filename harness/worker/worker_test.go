// Package worker executes generated cases in one long-lived synctest bubble.
package worker

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"gRedis/config"
	"gRedis/logger"
	"gRedis/memdb"

	"gredisverif/core"
	"gredisverif/engine"
)

var job core.Job
var start = time.Now()
var elapsed atomic.Int64 // ms of real time, kept by the watchdog

func TestWorker(t *testing.T) {
	js := os.Getenv("VW_JOB")
	if js == "" {
		t.Skip("no job")
	}
	if err := json.Unmarshal([]byte(js), &job); err != nil {
		die("job: " + err.Error())
	}
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err != nil {
		die(err.Error())
	}
	os.Stdout = null
	engine.LogDir = job.Scratch
	config.Conf = &config.Config{Host: "127.0.0.1", SegNum: 1, DbNum: 1, LogDir: job.Scratch, LogLevel: "error"}
	if err := logger.Init(config.Conf); err != nil && job.Prop != "C27" {
		die("logger: " + err.Error())
	}
	memdb.RegisterKeyCommands()
	memdb.RegisterStringCommands()
	memdb.RegisterHashCommands()
	memdb.RegisterListCommands()
	memdb.RegisterSetCommands()
	go watchdog()
	synctest.Test(t, func(t *testing.T) { work() })
}

// die ends the worker with an environment error (never a verdict).
func die(msg string) {
	fmt.Fprintln(os.Stderr, "WORKER-ENV: "+msg)
	os.Exit(3)
}

func finish(r *core.Report, code int) {
	b, err := json.Marshal(r)
	if err != nil {
		die(err.Error())
	}
	if err := os.WriteFile(job.Out, b, 0o644); err != nil {
		die(err.Error())
	}
	os.Exit(code)
}

func work() {
	rep := &core.Report{Labels: map[string]int64{}}
	add := func(L map[string]int) {
		for k, v := range L {
			rep.Labels[k] += int64(v)
		}
	}
	if job.CaseFile != "" {
		b, err := os.ReadFile(job.CaseFile)
		if err != nil {
			die(err.Error())
		}
		c := &core.Case{}
		if err := json.Unmarshal(b, c); err != nil {
			die(err.Error())
		}
		for i := 0; i <= job.Reps; i++ {
			res := engine.Run(c)
			rep.Evals++
			add(res.L)
			if res.Err != nil {
				fail(rep, c, res.Err)
			}
		}
		finish(rep, 0)
	}
	var jf *os.File
	if job.Journal != "" {
		f, err := os.Create(job.Journal)
		if err != nil {
			die(err.Error())
		}
		jf = f
	}
	var buf [8]byte
	for i := job.Start; i < job.Count; i += job.Stride {
		if float64(elapsed.Load()) > job.MaxSec*1000 {
			rep.TimedOut = true
			break
		}
		c := core.Generate(job.Prop, job.Seed, i, job.Tier)
		if jf != nil {
			binary.LittleEndian.PutUint64(buf[:], uint64(i))
			jf.WriteAt(buf[:], 0)
		}
		// the clock starts in 2000; the last cases run in other decades
		switch done := float64(i) / float64(job.Count); {
		case done > 0.97:
			engine.JumpTo(4102444800000) // 2100
		case done > 0.94:
			engine.JumpTo(2147483600000) // the last minute of 32-bit time
		case done > 0.9:
			engine.JumpTo(1790000000000) // 2026
		}
		epoch := time.Now().UnixMilli()
		res := engine.Run(c)
		rep.Evals++
		add(res.L)
		if res.Err != nil {
			if epoch > 1700000000000 {
				c.Epoch = epoch
			}
			fail(rep, c, res.Err)
		}
		if core.NonTrivial(c, res.L) {
			rep.Hashes = append(rep.Hashes, c.Hash())
			if len(rep.Samples) < 2 {
				rep.Samples = append(rep.Samples, c.Sample())
			}
		}
	}
	finish(rep, 0)
}

func fail(rep *core.Report, c *core.Case, err error) {
	msg := err.Error()
	if strings.HasPrefix(msg, "ENV:") {
		die(msg)
	}
	rep.Viol, rep.Msg = c, msg
	finish(rep, 1)
}

// watchdog (real time, outside the bubble) tells a deadlock or endless
// computation of the server from progress.
func watchdog() {
	last, since, blocked := int64(-1), time.Now(), 0
	for {
		time.Sleep(200 * time.Millisecond)
		elapsed.Store(time.Since(start).Milliseconds())
		if job.Stop != "" {
			if _, err := os.Stat(job.Stop); err == nil {
				elapsed.Store(1 << 60)
			}
		}
		p := engine.Progress.Load()
		if p != last {
			last, since, blocked = p, time.Now(), 0
			continue
		}
		quiet := time.Since(since)
		if quiet > 1500*time.Millisecond {
			st := stacks()
			if dead(st) {
				blocked++
				if blocked >= 5 {
					fmt.Fprintln(os.Stderr, "WORKER-DEADLOCK\n"+st)
					os.Exit(4)
				}
			} else {
				blocked = 0
			}
		}
		if quiet > 30*time.Second {
			fmt.Fprintln(os.Stderr, "WORKER-HANG\n"+stacks())
			os.Exit(5)
		}
	}
}

func stacks() string {
	buf := make([]byte, 1<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

// dead reports that every goroutine of the bubble is blocked and at least one
// of them waits for a lock in server code.
func dead(st string) bool {
	lock := false
	for _, g := range strings.Split(st, "\n\n") {
		h := g
		if i := strings.IndexByte(g, '\n'); i >= 0 {
			h = g[:i]
		}
		if !strings.Contains(h, "synctest bubble") {
			continue
		}
		switch {
		case strings.Contains(h, "runnable"), strings.Contains(h, "[running"), strings.Contains(h, "syscall"), strings.Contains(h, "GC"), strings.Contains(h, "[sleep"), strings.Contains(h, "preempted"), strings.Contains(h, "copystack"):
			return false
		}
		if (strings.Contains(h, "sync.Mutex.Lock") || strings.Contains(h, "sync.RWMutex") || strings.Contains(h, "semacquire")) && strings.Contains(g, "gRedis/") {
			lock = true
		}
	}
	return lock
}
