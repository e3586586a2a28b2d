// Package core defines generated cases (serialisable, shrinkable, replayable)
// and the generators that make them. A case is a pure function of
// (property, seed, index).
package core

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"strings"
	"unicode/utf8"

	"gredisverif/wire"
)

// B is a byte string that survives JSON (bytes are written as Latin-1 runes).
type B string

func (b B) MarshalJSON() ([]byte, error) {
	var sb strings.Builder
	for i := 0; i < len(b); i++ {
		sb.WriteRune(rune(b[i]))
	}
	return json.Marshal(sb.String())
}

func (b *B) UnmarshalJSON(d []byte) error {
	var s string
	if err := json.Unmarshal(d, &s); err != nil {
		return err
	}
	out := make([]byte, 0, utf8.RuneCountInString(s))
	for _, r := range s {
		if r > 255 {
			return fmt.Errorf("rune %q out of range", r)
		}
		out = append(out, byte(r))
	}
	*b = B(out)
	return nil
}

// Op is one step of a case.
type Op struct {
	// K: "c" command, "z" sleep, "x" client closes, "d" dump, "p" pipelined
	// batch, "r" raw bytes, "f" faulty connection, "e" half-close (EOF), "v"
	// victim activity, "n" connections that come and go, "q" choice frequency
	K    string `json:"k"`
	Conn int    `json:"conn,omitempty"`
	Args []B    `json:"args,omitempty"`
	Cuts []int  `json:"cuts,omitempty"` // byte positions where the request is split
	Slow bool   `json:"slow,omitempty"` // deliver the parts one by one
	Ms   int64  `json:"ms,omitempty"`

	// absolute time argument: Args[At] = now+Off in seconds ('s') or milliseconds ('m')
	At   int    `json:"at,omitempty"`
	Off  int64  `json:"off,omitempty"`
	Unit string `json:"unit,omitempty"`

	Batch [][]B  `json:"batch,omitempty"`
	Data  B      `json:"data,omitempty"`
	Hold  bool   `json:"hold,omitempty"` // batch: the client reads nothing until all is sent
	Tail  int    `json:"tail,omitempty"` // batch: bytes of the last request withheld at first
	Fault string `json:"fault,omitempty"`
	N     int    `json:"n,omitempty"`
	Setup bool   `json:"setup,omitempty"` // sched: executed before the clients start
}

func (o Op) Strs() []string { return Strs(o.Args) }

func Strs(b []B) []string {
	r := make([]string, len(b))
	for i, a := range b {
		r[i] = string(a)
	}
	return r
}

func Bs(s []string) []B {
	r := make([]B, len(s))
	for i, a := range s {
		r[i] = B(a)
	}
	return r
}

func (o Op) String() string {
	switch o.K {
	case "c":
		s := fmt.Sprintf("[%d] %s", o.Conn, wire.CmdString(o.Strs()))
		if o.Unit != "" {
			s += fmt.Sprintf(" (arg %d = now%+dms)", o.At, o.Off)
		}
		return s
	case "o":
		return fmt.Sprintf("option %s = %q (%s)", string(o.Args[0]), string(o.Args[1]), string(o.Args[2]))
	case "z":
		return fmt.Sprintf("sleep %dms", o.Ms)
	case "x":
		return fmt.Sprintf("[%d] close", o.Conn)
	case "e":
		return fmt.Sprintf("[%d] half-close", o.Conn)
	case "d":
		return "dump"
	case "r":
		d := string(o.Data)
		if len(d) > 120 {
			return fmt.Sprintf("[%d] raw %q..(%d bytes)", o.Conn, d[:80], len(d))
		}
		return fmt.Sprintf("[%d] raw %q", o.Conn, d)
	case "i":
		return fmt.Sprintf("logger starts with level %s", string(o.Args[0]))
	case "l":
		return fmt.Sprintf("[%d] log %s", o.Conn, wire.CmdString(o.Strs()))
	case "a":
		return fmt.Sprintf("%d clients: %s %q", o.N, o.Fault, string(o.Data))
	case "t":
		return "another server is started on the same address"
	case "h":
		return "clients use up all descriptors and leave"
	case "s":
		return "signal " + o.Fault
	case "R":
		return "the server is started again on the same address"
	case "b":
		return fmt.Sprintf("%d connections sending %q, ending by %s, all at once=%v", o.N, string(o.Data), o.Fault, o.Slow)
	case "f":
		return fmt.Sprintf("[%d] fault %s %d", o.Conn, o.Fault, o.N)
	case "p":
		var p []string
		for i, c := range o.Batch {
			if i == 6 {
				p = append(p, fmt.Sprintf("... %d requests", len(o.Batch)))
				break
			}
			p = append(p, wire.CmdString(Strs(c)))
		}
		return fmt.Sprintf("[%d] pipeline{%s} cuts=%d slow=%v tail=%d hold=%v", o.Conn, strings.Join(p, "; "), len(o.Cuts), o.Slow, o.Tail, o.Hold)
	}
	return o.K
}

// Case is one generated test case.
type Case struct {
	Prop  string `json:"prop"`
	Seed  uint64 `json:"seed"`
	Index int64  `json:"index"`
	Kind  string `json:"kind"`
	Seg   int    `json:"seg,omitempty"`
	Dbs   int    `json:"dbs,omitempty"`
	Phase int64  `json:"phase,omitempty"` // ms after the whole second at which the case starts
	Epoch int64  `json:"epoch,omitempty"` // ms: the virtual clock is at least here at the start
	Each  bool   `json:"each,omitempty"`  // dump after every command
	Segs  []int  `json:"segs,omitempty"`  // C23
	Keys  []B    `json:"keys,omitempty"`
	Ops   []Op   `json:"ops"`

	// sched
	Scheds    int64  `json:"scheds,omitempty"` // schedules tried per program
	SchedSeed uint64 `json:"sched_seed,omitempty"`
	OneSched  int64  `json:"one_sched,omitempty"` // 1+index of the failing schedule

	File  B      `json:"file,omitempty"`  // C24
	Fault string `json:"fault,omitempty"` // race: transport
	N     int    `json:"n,omitempty"`

	Failure string `json:"failure,omitempty"`
}

// Sample renders a case for the evidence file.
func (c *Case) Sample() any {
	var l []string
	for i, o := range c.Ops {
		if i == 40 {
			l = append(l, fmt.Sprintf("... %d ops in all", len(c.Ops)))
			break
		}
		s := o.String()
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		if o.Setup {
			s = "setup " + s
		}
		l = append(l, s)
	}
	m := map[string]any{"index": c.Index, "kind": c.Kind, "ops": l}
	if c.Seg > 0 {
		m["segnum"] = c.Seg
	}
	if len(c.Segs) > 0 {
		m["segnums"] = c.Segs
	}
	if c.Dbs > 0 {
		m["dbnum"] = c.Dbs
	}
	if c.Kind == "config" {
		m["file"] = fmt.Sprintf("%q", string(c.File))
	}
	if c.Scheds > 0 {
		m["schedules"] = c.Scheds
	}
	return m
}

// Hash identifies the content of a case (without its index).
func (c *Case) Hash() uint64 {
	d := *c
	d.Index, d.Seed, d.Failure = 0, 0, ""
	b, _ := json.Marshal(&d)
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// Rand returns the generator of a case.
func Rand(prop string, seed uint64, index int64) *rand.Rand {
	h := fnv.New64a()
	h.Write([]byte(prop))
	return rand.New(rand.NewPCG(seed*0x9E3779B97F4A7C15+h.Sum64(), uint64(index)*0xBF58476D1CE4E5B9+1))
}

// Lines renders a case for people.
func (c *Case) Lines() []string {
	l := []string{fmt.Sprintf("%s case %d of seed %d: segnum=%d segnums=%v dbnum=%d phase=%dms dump-after-each=%v", c.Kind, c.Index, c.Seed, c.Seg, c.Segs, c.Dbs, c.Phase, c.Each)}
	if c.Kind == "config" {
		l = append(l, fmt.Sprintf("file %q", string(c.File)))
	}
	for i, o := range c.Ops {
		s := o.String()
		if o.Setup {
			s = "setup " + s
		}
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		l = append(l, s)
		if i == 60 {
			l = append(l, "...")
			break
		}
	}
	return l
}
