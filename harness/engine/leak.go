package engine

import (
	"fmt"
	"runtime"
	"strings"

	"gredisverif/core"
)

func liveObjects() int64 {
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return int64(m.Mallocs - m.Frees)
}

// runLeak: connections come and go, all in the same way; what the server holds
// afterwards must not grow with their number.
func runLeak(c *core.Case, L map[string]int) error {
	startClock(0)
	s := NewSrv(c.Seg, 1)
	defer s.End()
	v := &victim{s: s}
	if err := v.act(); err != nil {
		return err
	}
	big := strings.Repeat("x", 20000)
	if err := v.ask("+OK", "set", "bigvalue", big); err != nil {
		return err
	}
	keep := len(s.conns)
	id := 0
	o := c.Ops[0]
	batch := func(n int) error {
		for i := 0; i < n; i++ {
			k := s.Open()
			id++
			k.id = id
			switch o.Fault {
			case "writeerr":
				k.failWrite = int(o.Ms)
			case "shortwrite":
				k.failWrite, k.short = int(o.Ms), true
			case "stall":
				k.stallAt = int(o.Ms)
			case "closefail":
				k.closeErr = true
			}
			if len(o.Data) > 0 {
				k.push([]byte(o.Data))
			}
			if err := s.Settle(); err != nil {
				return err
			}
			switch o.Fault {
			case "eof", "closefail":
				k.setEOF()
			case "readerr":
				k.peerGone(errReset)
			default:
				k.peerGone(nil)
			}
			if err := s.Settle(); err != nil {
				return err
			}
			k.mu.Lock()
			closed, ret := k.closed, k.returned
			k.mu.Unlock()
			if !closed || !ret {
				return fmt.Errorf("a connection (%s) ended but the server did not let go of it (closed %v, handler returned %v)", o.Fault, closed, ret)
			}
			L["ended"]++
			s.conns = s.conns[:keep]
		}
		for i := keep; i < cap(s.conns); i++ {
			s.conns[:cap(s.conns)][i] = nil
		}
		return nil
	}
	if err := batch(100); err != nil {
		return err
	}
	// what is kept for every connection shows in each of the windows; a cache
	// that fills up to a limit does not
	n0 := liveObjects()
	for _, n := range []int{400, 700, 1100} {
		if err := batch(n); err != nil {
			return err
		}
		n1 := liveObjects()
		if n1-n0 < int64(n) {
			L["leak-free"]++
			return v.act()
		}
		if n == 1100 {
			return fmt.Errorf("the server keeps memory for every connection that has ended (%s %q): %d more objects after %d more connections", o.Fault, string(o.Data), n1-n0, n)
		}
		n0 = n1
	}
	return nil
}
