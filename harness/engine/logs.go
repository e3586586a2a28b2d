package engine

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"gRedis/config"
	"gRedis/logger"

	"gredisverif/core"
)

var logN atomic.Int64
var same = regexp.MustCompile(`^\[([a-z]+)\][^<>#]*(<same\d>)\]?$`)
var token = regexp.MustCompile(`#(\d+)#`)

var lines [5]int // where the calls of the five levels are

// next is the line after the caller's.
func next() int {
	_, _, l, _ := runtime.Caller(1)
	return l + 1
}

// write makes one call of the logger. All calls come from this function.
func write(level string, parts []any) {
	at := 0
	switch level {
	case "debug":
		at = next()
		logger.Debug(parts...)
	case "info":
		at = next()
		logger.Info(parts...)
	case "warning":
		at = next()
		logger.Warning(parts...)
	case "panic":
		at = next()
		logger.Panic(parts...)
	case "error":
		at = next()
		logger.Error(parts...)
	}
	linesMu.Lock()
	lines[core.LogRank(level)] = at
	linesMu.Unlock()
}

var linesMu sync.Mutex

// runLog: the logger is started, used by several goroutines at once, and
// started again on the same directory.
func runLog(c *core.Case, L map[string]int) (err error) {
	dir := filepath.Join(LogDir, fmt.Sprintf("log%d", logN.Add(1)))
	logdir := dir
	if err := os.Mkdir(dir, 0o755); err != nil {
		return fmt.Errorf("ENV: %v", err)
	}
	defer os.RemoveAll(dir)
	if c.Fault == "new-dir" {
		logdir = filepath.Join(dir, "sub")
	}
	saved := os.Stdout
	defer func() {
		os.Stdout = saved
		logger.Init(&config.Config{LogDir: LogDir, LogLevel: "error"})
	}()
	had := ""
	if c.Fault == "old-file" {
		had = strings.Repeat("an older record\n", 1+c.N/16)
		if err := os.WriteFile(filepath.Join(dir, "redis.log"), []byte(had), 0o644); err != nil {
			return fmt.Errorf("ENV: %v", err)
		}
	}
	file := filepath.Join(logdir, "redis.log")
	for at := 0; at < len(c.Ops); {
		if c.Ops[at].K != "i" {
			at++
			continue
		}
		level := string(c.Ops[at].Args[0])
		end := at + 1
		for end < len(c.Ops) && c.Ops[end].K == "l" {
			end++
		}
		out := filepath.Join(dir, fmt.Sprintf("out%d", at))
		f, err := os.Create(out)
		if err != nil {
			return fmt.Errorf("ENV: %v", err)
		}
		os.Stdout = f
		if err := logger.Init(&config.Config{LogDir: logdir, LogLevel: level}); err != nil {
			return fmt.Errorf("the logger does not start with level %s: %v", level, err)
		}
		by := map[int][]int{}
		for i := at + 1; i < end; i++ {
			by[c.Ops[i].Conn] = append(by[c.Ops[i].Conn], i)
		}
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for _, l := range by {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				for _, i := range l {
					parts := []any{fmt.Sprintf("#%d#", i)}
					if c.Ops[i].N == 1 {
						parts = nil
					}
					for _, p := range c.Ops[i].Args[1:] {
						parts = append(parts, string(p))
					}
					write(string(c.Ops[i].Args[0]), parts)
				}
			}()
		}
		close(gate)
		wg.Wait()
		Progress.Add(1)
		f.Close()
		ob, err := os.ReadFile(out)
		if err != nil {
			return fmt.Errorf("ENV: %v", err)
		}
		fb, err := os.ReadFile(file)
		if err != nil {
			return fmt.Errorf("no log file after the logger was used: %v", err)
		}
		if !strings.HasPrefix(string(fb), had) {
			return fmt.Errorf("session %d (level %s): what the log file held before is gone: it held %q, now %q", at, level, short(had), short(string(fb)))
		}
		for _, s := range []struct{ where, text string }{{"log file", string(fb[len(had):])}, {"standard output", string(ob)}} {
			if err := checkLog(c, at, end, level, s.where, s.text, by, L); err != nil {
				return fmt.Errorf("session %d (level %s): %s: %w", at, level, s.where, err)
			}
		}
		had = string(fb)
		L["log-sessions"]++
		if len(by) > 1 {
			L["log-parallel"]++
		}
		at = end
	}
	return nil
}

func short(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func checkLog(c *core.Case, at, end int, level, where, text string, by map[int][]int, L map[string]int) error {
	min := core.LogRank(level)
	want := map[int]bool{}
	again := map[string]int{}
	for i := at + 1; i < end; i++ {
		if o := c.Ops[i]; core.LogRank(string(o.Args[0])) >= min {
			if o.N == 1 {
				again[string(o.Args[0]+o.Args[1])]++
			} else {
				want[i] = true
			}
		} else {
			L["log-suppressed"]++
		}
	}
	last := map[int]int{} // per goroutine
	if text != "" && !strings.HasSuffix(text, "\n") {
		return fmt.Errorf("the last record has no end of line: %q", short(text))
	}
	for _, line := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		if text == "" {
			break
		}
		if m := same.FindStringSubmatch(line); m != nil {
			k := m[1] + m[2]
			if again[k]--; again[k] < 0 {
				return fmt.Errorf("a record that was not written or not that often: %q", short(line))
			}
			L["log-records"]++
			continue
		}
		m := token.FindAllStringSubmatch(line, -1)
		if len(m) != 1 {
			return fmt.Errorf("a line that is not one whole record: %q", short(line))
		}
		var i int
		fmt.Sscan(m[0][1], &i)
		if !want[i] {
			return fmt.Errorf("a record that should not be there (again): %q", short(line))
		}
		delete(want, i)
		o := c.Ops[i]
		if !strings.HasPrefix(line, "["+string(o.Args[0])+"]") {
			return fmt.Errorf("a record of level %s under the wrong level: %q", string(o.Args[0]), short(line))
		}
		if place := fmt.Sprintf("logs.go:%d", lines[core.LogRank(string(o.Args[0]))]); !strings.Contains(line, place) {
			return fmt.Errorf("a record that does not name the place it comes from (%s): %q", place, short(line))
		}
		rest := line
		for _, p := range append([]core.B{core.B(m[0][0])}, o.Args[1:]...) {
			j := strings.Index(rest, string(p))
			if j < 0 {
				return fmt.Errorf("a record whose text is not complete: %q, want %q in it", short(line), string(p))
			}
			rest = rest[j+len(p):]
		}
		if i < last[o.Conn] {
			return fmt.Errorf("the records of one goroutine are out of order: %q", short(line))
		}
		last[o.Conn] = i
		L["log-records"]++
	}
	for k, n := range again {
		if n > 0 {
			return fmt.Errorf("%d records of %q are missing", n, k)
		}
	}
	if len(want) > 0 {
		for i := range want {
			return fmt.Errorf("%d records are missing, for instance op %d %v", len(want), i, c.Ops[i].Strs())
		}
	}
	return nil
}
