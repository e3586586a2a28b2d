// Package wire is an independent, strict RESP2 codec used by the checks.
package wire

import (
	"bytes"
	"errors"
	"fmt"
	"strconv"
	"strings"
)

// Reply is one decoded RESP2 value.
type Reply struct {
	K    byte // '+', '-', ':', '$', '*'
	S    string
	N    int64
	Null bool
	A    []Reply
}

// ErrIncomplete means that more bytes are needed.
var ErrIncomplete = errors.New("incomplete reply")

func line(b []byte) (string, []byte, error) {
	i := bytes.Index(b, []byte("\r\n"))
	if i < 0 {
		if j := bytes.IndexByte(b, '\n'); j >= 0 {
			return "", nil, fmt.Errorf("bare LF in reply line %q", trunc(b))
		}
		return "", nil, ErrIncomplete
	}
	l := string(b[:i])
	if strings.ContainsAny(l, "\r\n") {
		return "", nil, fmt.Errorf("CR or LF inside reply line %q", l)
	}
	return l, b[i+2:], nil
}

func trunc(b []byte) []byte {
	if len(b) > 80 {
		return b[:80]
	}
	return b
}

func canonInt(s string) (int64, error) {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil || strconv.FormatInt(n, 10) != s {
		return 0, fmt.Errorf("not a canonical integer: %q", s)
	}
	return n, nil
}

// Decode reads exactly one value from the front of b, strictly.
func Decode(b []byte) (Reply, []byte, error) { return decode(b, 0) }

func decode(b []byte, depth int) (Reply, []byte, error) {
	if len(b) == 0 {
		return Reply{}, nil, ErrIncomplete
	}
	k := b[0]
	switch k {
	case '+', '-', ':', '$', '*':
	default:
		return Reply{}, nil, fmt.Errorf("bad reply type byte %q in %q", k, trunc(b))
	}
	if depth > 4 {
		return Reply{}, nil, errors.New("reply nested too deeply")
	}
	l, rest, err := line(b[1:])
	if err != nil {
		return Reply{}, nil, err
	}
	switch k {
	case '+', '-':
		return Reply{K: k, S: l}, rest, nil
	case ':':
		n, err := canonInt(l)
		return Reply{K: k, N: n}, rest, err
	case '$':
		n, err := canonInt(l)
		if err != nil {
			return Reply{}, nil, err
		}
		if n == -1 {
			return Reply{K: k, Null: true}, rest, nil
		}
		if n < 0 {
			return Reply{}, nil, fmt.Errorf("bad bulk length %d", n)
		}
		if int64(len(rest)) < n+2 {
			return Reply{}, nil, ErrIncomplete
		}
		if rest[n] != '\r' || rest[n+1] != '\n' {
			return Reply{}, nil, fmt.Errorf("bulk of length %d not followed by CRLF", n)
		}
		return Reply{K: k, S: string(rest[:n])}, rest[n+2:], nil
	default:
		n, err := canonInt(l)
		if err != nil {
			return Reply{}, nil, err
		}
		if n == -1 {
			return Reply{K: k, Null: true}, rest, nil
		}
		if n < 0 {
			return Reply{}, nil, fmt.Errorf("bad array length %d", n)
		}
		r := Reply{K: k, A: []Reply{}}
		for i := int64(0); i < n; i++ {
			var e Reply
			e, rest, err = decode(rest, depth+1)
			if err != nil {
				return Reply{}, nil, err
			}
			r.A = append(r.A, e)
		}
		return r, rest, nil
	}
}

// Encode renders a request as a RESP array of bulk strings.
func Encode(args []string) []byte {
	var b bytes.Buffer
	b.WriteByte('*')
	b.WriteString(strconv.Itoa(len(args)))
	b.WriteString("\r\n")
	for _, a := range args {
		b.WriteByte('$')
		b.WriteString(strconv.Itoa(len(a)))
		b.WriteString("\r\n")
		b.WriteString(a)
		b.WriteString("\r\n")
	}
	return b.Bytes()
}

func short(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%q..(%d bytes)", s[:40], len(s))
	}
	return strconv.Quote(s)
}

// String renders a reply for reports.
func (r Reply) String() string {
	switch r.K {
	case '+':
		return "+" + r.S
	case '-':
		return "-" + r.S
	case ':':
		return ":" + strconv.FormatInt(r.N, 10)
	case '$':
		if r.Null {
			return "(nil)"
		}
		return short(r.S)
	case '*':
		if r.Null {
			return "(nil array)"
		}
		var p []string
		for i, e := range r.A {
			if i == 20 {
				p = append(p, fmt.Sprintf("... %d in all", len(r.A)))
				break
			}
			p = append(p, e.String())
		}
		return "[" + strings.Join(p, " ") + "]"
	}
	return "?"
}

// CmdString renders a command for reports.
func CmdString(args []string) string {
	var p []string
	for i, a := range args {
		if i == 14 {
			p = append(p, fmt.Sprintf("... %d args", len(args)))
			break
		}
		p = append(p, short(a))
	}
	return strings.Join(p, " ")
}

// IsErr reports whether r is an error reply.
func (r Reply) IsErr() bool { return r.K == '-' }

// Equal compares two replies exactly.
func (r Reply) Equal(o Reply) bool {
	if r.K != o.K || r.S != o.S || r.N != o.N || r.Null != o.Null || len(r.A) != len(o.A) {
		return false
	}
	for i := range r.A {
		if !r.A[i].Equal(o.A[i]) {
			return false
		}
	}
	return true
}

// Scanner tells cheaply, as bytes arrive, when Decode has what it needs.
type Scanner struct{ pos, done int }

// Ready tells whether b, which only grows between calls, holds a whole value
// at its front or something that is none.
func (s *Scanner) Ready(b []byte) bool {
	for s.done < 1 {
		if s.pos >= len(b) {
			return false
		}
		i := bytes.IndexByte(b[s.pos:], '\n')
		if i < 0 {
			return false
		}
		l := b[s.pos : s.pos+i+1]
		next := s.pos + i + 1
		if len(l) < 3 || l[len(l)-2] != '\r' {
			return true
		}
		switch l[0] {
		case '$', '*':
			n, err := strconv.Atoi(string(l[1 : len(l)-2]))
			if err != nil || n < -1 {
				return true
			}
			if l[0] == '*' && n > 0 {
				s.done -= n
			} else if l[0] == '$' && n >= 0 {
				next += n + 2
				if next > len(b) {
					return false
				}
			}
		}
		s.done++
		s.pos = next
	}
	return true
}
