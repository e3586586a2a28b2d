package core

// Rules states, per property, how cases are made and what makes one
// non-trivial; NonTrivial is the same rule as code, over the labels the run of
// the case produced.
// The cases against the server process (kinds e2e-...) count when they are
// distinct and, for histories, changed the state at least twice; those of
// parallel clients when at least two clients were active.
var Rules = map[string]string{
	"C01": "random histories of all data commands over binary, empty, CR/LF/NUL, near-equal and buffer-sized keys and values, checked reply by reply and by full dumps against the reference model; non-trivial: some reply returned a stored byte string that is empty, has a byte outside printable ASCII or is at least 4096 bytes, and at least one value was written",
	"C02": "pipelined batches of random requests, split at random byte positions and delivered at once or part by part, with withheld tails and half-closes; non-trivial: a batch of two or more requests or a request split across reads, with at least one state change",
	"C03": "raw byte streams (garbage, RESP-shaped with odd lengths, mutated request streams, random argument lists) on up to three connections next to a victim client; non-trivial: at least three raw deliveries with the victim active",
	"C04": "random histories with nasty names, options and values, every reply decoded strictly; non-trivial: at least one error reply and one binary or array reply",
	"C05": "random string-command histories against the reference model, final and intermediate dumps; non-trivial: at least two state changes and one command on an existing key",
	"C06": "random list-command histories against the reference model; non-trivial: at least two state changes and one command on an existing key",
	"C07": "random hash-command histories against the reference model; non-trivial: at least two state changes and one command on an existing key",
	"C08": "random set-command histories against the reference model; non-trivial: at least two state changes and one command naming two existing sets or removing a key",
	"C09": "random histories of all types, weighted to DEL, EXISTS, KEYS, TYPE and RENAME; non-trivial: keys were created and removed and at least two key-space commands hit existing keys",
	"C10": "random histories with expiry-setting commands and virtual-time sleeps aimed at deadlines, few dumps so that expired keys meet the commands untouched; non-trivial: a command named a key after its time had passed, or a sleep ended within a few seconds of a live key's deadline",
	"C11": "random histories with times to live and a full dump (values and TTL) after each command; non-trivial: at least two state changes, one dump after a command on an existing key, and at least one expiry-setting command",
	"C12": "random histories where about half of the commands are invalid or hit the wrong type, full dump after each; non-trivial: at least one error reply on an existing key",
	"C13": "random histories on one-key-per-type tiny collections, full dump after each; non-trivial: at least one key disappeared by a command",
	"C14": "key sets over small alphabets and patterns from the documented grammar, derived from keys, malformed, and backtracking-hostile; non-trivial: at least one KEYS returned a non-empty array",
	"C15": "random histories on up to four connections with SELECT (valid and invalid) and reconnects over 1-300 databases; non-trivial: at least one SELECT and one state change",
	"C16": "random programs of 2-4 concurrent clients executed under many seeded schedules of the real command code; non-trivial: two commands of different clients named a common key and at least one was a write",
	"C17": "random programs of 2-4 concurrent clients with overlapping, repeated and reversed multi-key commands over few segments, under many seeded schedules; non-trivial: two commands of different clients needed the same internal lock (or named a common key)",
	"C18": "parallel clients against the server under the race detector with per-client private keys and shared counters, logs and values; non-trivial: at least two clients completed commands on shared keys",
	"C19": "random programs with KEYS running against writers under many seeded schedules; non-trivial: a KEYS overlapped a write by another client",
	"C20": "connections ended by close, half-close, read error, write error, short write, stalled write, close failure and protocol errors at random points; non-trivial: at least one connection with a fault ended after sending a request",
	"C21": "random numeric histories over 64-bit edge values and junk against the reference model; non-trivial: at least one numeric command changed a value",
	"C22": "random histories of SPOP, SRANDMEMBER and HRANDFIELD against the reference model, plus frequency cases over small and larger collections (up to 100 members); non-trivial: at least one random choice from an existing set or hash",
	"C23": "the same random history executed on 3-5 segment counts and several databases, each against the model and against each other; non-trivial: at least two configurations ran at least two state changes",
	"C24": "random configuration files (valid, invalid, any layout) parsed by the real parser against an independent reading; non-trivial: the file names at least one option (accepted with more than one line, or rejected)",
	"C25": "random histories weighted to copying commands and in-place writes, full dump of all keys after each; non-trivial: at least two keys existed and one command changed something",
	"C26": "the real server process is started (on a free address, on one in use or not local, with a usable or unusable log directory), used by generated clients (idle, in the middle of a request, with unread replies, half-closed, many at once), deprived of descriptors for a while, and ended by SIGTERM or SIGINT and started again; non-trivial: clients were connected when the signal came, or a start that must fail was tried, or descriptors ran out",
	"C27": "generated log calls of all levels from up to 8 goroutines, in one or more sessions on the same or a new directory, with the log file and the standard output read back record by record; non-trivial: at least two records were due and a call was below the level, or several goroutines wrote at once, or there was more than one session",
}

func NonTrivial(c *Case, L map[string]int) bool {
	if c.Kind == "par" {
		return L["active-clients"] > 1
	}
	switch c.Prop {
	case "C01":
		return L["binary-read"] > 0 && L["mutations"] > 0
	case "C02":
		return L["mutations"] > 0 && (L["pipelined-requests"] > 1 || L["splits"] > 1)
	case "C03":
		return L["raw"] >= 3
	case "C04":
		return L["errors"] > 0 && (L["binary-read"] > 0 || L["arrays"] > 0)
	case "C05", "C06", "C07":
		return L["mutations"] >= 2 && L["hits"] > 0
	case "C08":
		return L["mutations"] >= 2 && (L["multi"] > 0 || L["removed"] > 0)
	case "C09":
		return L["created"] > 0 && L["removed"] > 0 && L["cmd:del"]+L["cmd:exists"]+L["cmd:keys"]+L["cmd:type"]+L["cmd:rename"] >= 2
	case "C10":
		return L["expired-named"] > 0 || L["deadline-sleeps"] > 0
	case "C11":
		return L["mutations"] >= 2 && L["hits"] > 0 && L["cmd:expire"]+L["cmd:setex"]+L["cmd:set"] > 0
	case "C12":
		return L["errors-on-live-keys"] > 0
	case "C13":
		return L["removed"] > 0
	case "C14":
		return L["arrays"] > 0
	case "C15":
		return L["selects"] > 0 && L["mutations"] > 0
	case "C16":
		return L["conflicts"] > 0
	case "C17":
		return L["conflicts"] > 0 || L["shared-locks"] > 0
	case "C18":
		return L["shared"] > 1
	case "C19":
		return L["keys-overlaps"] > 0
	case "C20":
		return L["ended"] > 0
	case "C21":
		return L["mutations"] > 0 && L["cmd:incr"]+L["cmd:incrby"]+L["cmd:decr"]+L["cmd:decrby"]+L["cmd:incrbyfloat"]+L["cmd:hincrby"]+L["cmd:hincrbyfloat"] > 0
	case "C22":
		return L["random-calls"] > 0 || (L["hits"] > 0 && L["cmd:spop"]+L["cmd:srandmember"]+L["cmd:hrandfield"] > 0)
	case "C23":
		return L["configurations"] >= 2 && L["mutations"] >= 4
	case "C24":
		return L["rejected"] > 0 || L["multiline"] > 0
	case "C25":
		return L["mutations"] >= 2 && L["created"] >= 2
	case "C27":
		return L["log-records"] >= 2 && (L["log-suppressed"] > 0 || L["log-parallel"] > 0 || L["log-sessions"] > 1)
	}
	return false
}

// Job is what the parent asks a worker to do.
type Job struct {
	Prop     string
	Stage    string // "": the main cases; "par": the parallel ones
	Seed     uint64
	Tier     string
	Start    int64
	Stride   int64
	Count    int64 // cases in all (over all workers)
	MaxSec   float64
	CaseFile string // replay this case instead
	Reps     int
	Out      string
	Journal  string
	Scratch  string
	Stop     string // end early when this file exists
}

// Report is what a worker answers.
type Report struct {
	Evals    int64
	Hashes   []uint64
	Labels   map[string]int64
	Samples  []any
	Viol     *Case
	Msg      string
	Env      string // environment trouble: no verdict
	TimedOut bool
}
