#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in (state or [])],
            mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=observe, hook_needed=None)))

WIRE = ["bytes a client sends and receives on its connection"]
p("C01","Stored bytes come back unchanged",
  "Any byte string a client sends as a key, string value, hash field, hash value, list element or set member - empty, containing CR, LF, NUL or non-UTF-8 bytes, or larger than any internal buffer - is returned byte for byte by every command that reads it back. Two different byte strings are never treated as the same key, field, element or member.",
  ["inputs","histories"],"for every byte string of every length up to megabytes, in every position of every storing and reading command",
  "Existing tests store a handful of short ASCII words by calling executors directly; no test sends binary, empty or long data over the wire.",
  ["resp/parser.go","resp/data.go","memdb/strings.go","memdb/list_struct.go","memdb/hash_struct.go","memdb/set_struct.go","memdb/concurrentMap.go"],
  [("length-prefixed bulk parsing","resp/parser.go readline/parseBulkString"),("bulk encoding","resp/data.go BulkString.ToRedisFormat")],WIRE)
p("C02","One reply per request, in order, however the bytes are packetised",
  "For every sequence of well-formed requests on a connection, the server sends exactly one reply per request, in request order, and the replies are the same whether the requests arrive one at a time, pipelined together, or split across reads at arbitrary byte positions. A request whose bytes are incomplete has no effect and gets no reply.",
  ["inputs","histories","schedules"],"for every request sequence and every way of cutting its byte stream into reads, including truncation at any byte",
  "The parser tests feed whole in-memory messages; fragmentation, pipelining and truncation positions are unbounded and untested.",
  ["resp/parser.go","server/handler.go"],
  [("streaming parser state","resp/parser.go parse/readBuffer"),("request loop","server/handler.go Handle")],WIRE)
p("C03","No client input can crash the server or harm other clients",
  "Whatever bytes a client sends - malformed protocol, absurd lengths, truncated data, any command with any arguments in any number - the server process keeps running, keeps accepting and serving every other connection, and other clients' data is untouched unless the bytes contained a well-formed command naming it.",
  ["inputs","histories","fault_sequences"],"for every byte stream and every argument vector of every command, in any server state",
  "No test sends malformed input; a single unrecovered panic in a connection goroutine ends the process, and the space of inputs is unbounded.",
  ["resp/parser.go","server/handler.go","server/server.go","memdb/strings.go","memdb/list.go","memdb/set.go","memdb/hash.go","memdb/keys.go","util/util.go"],
  [("protocol errors end only their connection","server/handler.go Handle"),("argument validation","executors in memdb/*.go")],WIRE)
p("C04","Every reply is exactly one well-formed RESP value of the right kind",
  "Every reply the server sends decodes as exactly one complete RESP2 value with nothing left over, whatever bytes appear in the command name, arguments or stored data. Failures are reported as error replies and only failures are, so no client-supplied text can forge, split or desynchronise replies.",
  ["inputs","histories"],"for every command, argument bytes and stored data",
  "Tests look at a few fixed replies; they never decode a reply strictly nor put protocol bytes into names, options or values.",
  ["resp/data.go","server/handler.go","memdb/keys.go","memdb/strings.go"],
  [("ToRedisFormat encoders","resp/data.go")],WIRE)
p("C05","String commands agree with Redis semantics over any history",
  "Over any sequence of SET (with NX, XX, GET, KEEPTTL and expiry options), GET, GETRANGE, SETRANGE, MGET, MSET, SETEX, SETNX, STRLEN, APPEND and the increment commands, every reply and the resulting value are those of the documented Redis command, including negative and out-of-range indices, zero padding, missing keys and repeated keys.",
  ["inputs","histories"],"for every command sequence and argument values",
  "Tests run ten fixed scripts; index arithmetic, option combinations and history effects are not enumerated.",
  ["memdb/strings.go"],[("string executors","memdb/strings.go")],WIRE)
p("C06","List commands agree with Redis semantics over any history",
  "Over any sequence of LPUSH, RPUSH, LPUSHX, RPUSHX, LPOP, RPOP (with and without count), LINDEX, LINSERT, LLEN, LMOVE, LPOS (RANK, COUNT, MAXLEN), LRANGE, LREM, LSET and LTRIM, every reply and the resulting element order are those of the documented Redis command, for negative and out-of-range indices, duplicate elements and lists of any length.",
  ["inputs","histories"],"for every command sequence, list length and argument values",
  "Two fixed lists are tested for LPOS and LREM; linked-list surgery depends on position, duplicates and prior operations.",
  ["memdb/list.go","memdb/list_struct.go"],[("doubly linked list with sentinels and length","memdb/list_struct.go"),("list executors","memdb/list.go")],WIRE,
  [("List.Len","number of linked nodes","memdb/list_struct.go")])
p("C07","Hash commands agree with Redis semantics over any history",
  "Over any sequence of HSET, HMSET, HSETNX, HDEL, HINCRBY, HINCRBYFLOAT, HGET, HMGET, HGETALL, HKEYS, HVALS, HLEN, HEXISTS, HSTRLEN and HRANDFIELD, every reply and the resulting field-value mapping are those of the documented Redis command, with fields and values staying paired and every field reported exactly once.",
  ["inputs","histories"],"for every command sequence, hash size and argument values",
  "There is no hash test at all.",
  ["memdb/hash.go","memdb/hash_struct.go"],[("hash executors","memdb/hash.go"),("map-backed hash","memdb/hash_struct.go")],WIRE)
p("C08","Set commands agree with set algebra over any history",
  "Over any sequence of SADD, SREM, SISMEMBER, SCARD, SMEMBERS, SMOVE, SPOP, SRANDMEMBER, SINTER, SUNION, SDIFF and their STORE forms, every reply and the resulting membership are those of mathematical sets as documented for Redis: missing keys count as empty sets, STORE replaces the destination, and sources are never modified.",
  ["inputs","histories"],"for every command sequence, any number of operand keys (repeated, missing, equal to the destination) and set contents",
  "Two difference tests on fixed sets; no executor is tested.",
  ["memdb/set.go","memdb/set_struct.go"],[("set executors","memdb/set.go"),("map-backed set algebra","memdb/set_struct.go")],WIRE)
p("C09","Key-space commands reflect exactly the keys that exist",
  "After any history of commands of all types, EXISTS, TYPE, KEYS and DEL agree with each other and with what was written: a key exists exactly from the command that created it to the one that removed it, its type is that of its current value, DEL and EXISTS count keys correctly including repeats, and RENAME moves the whole value to the new name, replacing what was there.",
  ["inputs","histories"],"for every history over keys of all types",
  "Tests use one or two keys injected straight into the dictionary; histories that create, retype, rename and remove keys are not explored.",
  ["memdb/keys.go","memdb/concurrentMap.go","memdb/memdb.go"],[("key executors","memdb/keys.go"),("segmented dictionary","memdb/concurrentMap.go")],WIRE,
  [("MemDb.dict","all live keys","memdb/memdb.go")])
p("C10","Expiring keys live their full time and then are gone for every command",
  "A key given a time to live (EXPIRE with its options, SETEX, SET EX/PX/EXAT/PXAT) is fully visible until that time has elapsed, and from the end of the clock second in which it elapses it behaves for every command as if it did not exist, as source, destination or operand. TTL reports the remaining seconds to within one second, -1 for a key without expiry and -2 for a missing key.",
  ["inputs","histories","schedules"],"for every history of commands and every placement of clock advances between them",
  "Tests never let time pass; the lazy check is repeated by hand in every executor, so each command and argument position is a separate chance to miss it.",
  ["memdb/memdb.go","memdb/keys.go","memdb/strings.go","memdb/set.go","memdb/list.go","memdb/hash.go"],
  [("lazy deletion","memdb/memdb.go CheckExpire/DeleteExpiredKey"),("expiry table","memdb/memdb.go expires")],WIRE,
  [("MemDb.expires","absolute expiry second per volatile key","memdb/memdb.go")])
p("C11","Expiry is kept, cleared or moved exactly as documented",
  "Commands that modify a value in place keep the key's time to live, commands that replace it (SET without KEEPTTL, MSET, SETEX, the set STORE commands) clear or reset it, DEL and emptying a collection drop it so a recreated key starts without one, RENAME carries it to the new name, PERSIST removes it and reports whether there was one, and a command that does not take effect leaves it alone.",
  ["inputs","histories"],"for every history mixing writes with TTL changes on the same keys",
  "Only EXPIRE, TTL and PERSIST on one key are tested; the interplay of each write command with an existing TTL is not.",
  ["memdb/keys.go","memdb/strings.go","memdb/set.go","memdb/list.go","memdb/hash.go","memdb/memdb.go"],
  [("DeleteExpire/SetExpire calls in executors","memdb/*.go")],WIRE,
  [("MemDb.expires","absolute expiry second per volatile key","memdb/memdb.go")])
p("C12","A command that fails changes nothing",
  "A command that is answered with an error - wrong type, wrong number of arguments, bad number, bad option, overflow, unknown command - leaves every key, value and time to live exactly as it was, creates no key, and does not stop later commands on the same keys from working. A command applied to a key of another type is always answered with an error, except for the documented overwriting commands and MGET, which treat it as described by Redis.",
  ["inputs","histories"],"for every command, every invalid argument vector and every prior state",
  "No test issues a failing command, so partial effects before an error return are invisible.",
  ["memdb/strings.go","memdb/list.go","memdb/hash.go","memdb/set.go","memdb/keys.go","server/handler.go"],
  [("validation before mutation","executors in memdb/*.go")],WIRE)
p("C13","A collection that becomes empty ceases to exist",
  "There is never an empty list, hash or set: whichever command removes the last element, field or member - or would produce an empty result - also removes the key, so EXISTS, TYPE, KEYS and TTL no longer see it and the name can be reused for any type; and no read or failed write ever brings an empty collection into existence.",
  ["inputs","histories"],"for every history that drains collections by any command",
  "No test empties a collection and then looks at the key.",
  ["memdb/list.go","memdb/hash.go","memdb/set.go"],[("delete-if-empty defers","memdb/list.go, memdb/hash.go, memdb/set.go")],WIRE)
p("C14","KEYS matches exactly the documented glob patterns",
  "KEYS returns precisely the existing keys that match the pattern, each once: a literal byte matches itself, ? any one byte, * any run of bytes including none, [abc] and ranges like [a-c] one listed byte, [^...] one byte not listed - in any combination and position. Malformed patterns never crash or hang the server.",
  ["inputs"],"for every pattern and every key",
  "A dozen pattern/key pairs are tested; combinations such as * before ? or a class are not.",
  ["util/util.go","memdb/keys.go"],[("recursive matcher","util/util.go PattenMatch")],WIRE)
p("C15","Databases are isolated and SELECT affects only its own connection",
  "Each connection starts in database 0 and works in the database it last selected successfully; SELECT on one connection never changes another's database, and no command in one database reads or changes keys of another. SELECT accepts exactly the configured indices and answers anything else with an error, leaving the selection as it was.",
  ["inputs","histories","schedules","configurations"],"for every interleaving of commands of several connections and every database count",
  "There is no server test; the defect needs two connections.",
  ["server/handler.go"],[("per-connection selected database","server/handler.go Handle/Select")],WIRE,
  [("selected database","database used by a connection","server/handler.go")])
p("C16","Concurrent commands are atomic",
  "When several clients issue commands at the same time, every command - including the multi-key ones MSET, MGET, DEL, EXISTS, RENAME, LMOVE, SMOVE and the set operations and their STORE forms - takes effect as if at one instant between its request and its reply: the replies and the final state are always explainable by some one-at-a-time order. KEYS alone is exempt.",
  ["schedules","histories"],"for every interleaving of the commands of concurrent clients, with or without expired keys present",
  "All tests are single-threaded; atomicity violations need a particular preemption between two statements.",
  ["memdb/locks.go","memdb/memdb.go","memdb/concurrentMap.go","memdb/strings.go","memdb/list.go","memdb/hash.go","memdb/set.go","memdb/keys.go"],
  [("striped per-key locks held across each command","memdb/locks.go"),("sorted multi-lock","memdb/locks.go getSortedLocks")],
  ["replies of concurrent clients and the state read afterwards"],
  [("LocksManager.locks","striped key locks","memdb/locks.go")])
p("C17","Every command completes: no deadlock, no lock left behind",
  "Under any mix of concurrent commands - including multi-key commands naming the same keys in different orders, repeated keys, and keys that share internal locks or segments - every command eventually gets its reply. After any command, successful or failed, later commands on the same keys still complete.",
  ["schedules","histories","configurations"],"for every interleaving, key choice and number of internal lock stripes",
  "Tests are single-threaded and never reuse a key after a failing command; lock-order cycles need a specific interleaving and key collision.",
  ["memdb/locks.go","memdb/concurrentMap.go","memdb/list.go","memdb/set.go","memdb/strings.go","memdb/keys.go"],
  [("locks taken in sorted, de-duplicated order","memdb/locks.go getSortedLocks/MLock"),("deferred unlocks","executors in memdb/*.go")],
  ["replies of concurrent clients"],
  [("LocksManager.locks","striped key locks","memdb/locks.go")])
p("C18","Parallel clients never race, crash or corrupt the server",
  "With many clients working in parallel on shared and private keys, the server has no data races: it never crashes, no client's private data is disturbed, and no update to shared data is lost or torn - including values being read while another client rewrites them.",
  ["schedules"],"for every truly parallel execution of client commands",
  "No test runs two goroutines; unsynchronised access is invisible in sequential runs.",
  ["memdb/concurrentMap.go","memdb/memdb.go","memdb/strings.go","server/handler.go","logger/logger.go"],
  [("segment and key locks","memdb/concurrentMap.go, memdb/locks.go"),("values replaced rather than edited in place","memdb/strings.go")],
  ["race detector reports, replies, process liveness"])
p("C19","KEYS stays exact for untouched keys while others change",
  "A KEYS running while other clients create, delete, rename and expire keys returns every matching key that exists throughout the call exactly once, and never returns an invented, duplicated or non-matching key.",
  ["schedules","histories"],"for every interleaving of KEYS with key creation and removal",
  "KEYS is only tested alone, on three keys.",
  ["memdb/concurrentMap.go","memdb/keys.go"],[("segment-by-segment listing","memdb/concurrentMap.go Keys")],["KEYS replies under concurrent writers"],
  [("ConcurrentMap.count","number of keys","memdb/concurrentMap.go")])
p("C20","A finished connection leaves nothing behind",
  "When a connection ends - closed by the client at any point, even inside a request, broken by a read or write failure, or terminated for a protocol error - the server closes its side, ends all work for it and keeps no goroutine or other resource, completed commands stay in effect, and other connections are unaffected.",
  ["fault_sequences","inputs","histories"],"for every request stream cut at any byte, any failure position, any protocol error",
  "No test handles a connection.",
  ["server/handler.go","resp/parser.go","server/server.go"],[("parser goroutine ends with its stream","resp/parser.go parse"),("deferred close","server/handler.go Handle")],
  ["goroutines alive and connection state after the client has gone"])
p("C21","Numeric commands are exact",
  "INCR, INCRBY, DECR, DECRBY and HINCRBY compute exactly over the whole signed 64-bit range, treat a missing key or field as 0, and answer with an error leaving the value unchanged when the operand is not an integer or the result would overflow. INCRBYFLOAT and HINCRBYFLOAT return and store the decimal sum without exponent notation, and reject non-numeric operands and non-finite results.",
  ["inputs","histories"],"for every pair of stored value and operand, especially at the limits of the range",
  "Four fixed increments are tested, none near a limit and none on a missing key.",
  ["memdb/strings.go","memdb/hash_struct.go","memdb/hash.go"],[("64-bit parse/add/format","memdb/strings.go, memdb/hash_struct.go")],WIRE)
p("C22","Random-choice commands return only valid choices",
  "SPOP, SRANDMEMBER and HRANDFIELD return only current members or fields (with the matching value for WITHVALUES): without count a single one, with positive count that many distinct ones or all if fewer, with negative count exactly that many possibly repeated. SPOP removes exactly what it returns and the others remove nothing, and over repeated calls every member or field can be chosen.",
  ["inputs","histories"],"for every set or hash content, including the empty-string member, and every count",
  "No test covers these commands; their output is random so a fixed expectation cannot.",
  ["memdb/set.go","memdb/set_struct.go","memdb/hash.go","memdb/hash_struct.go"],[("map-order sampling","memdb/set_struct.go, memdb/hash_struct.go")],WIRE)
p("C23","Internal sharding is invisible",
  "The same sequence of commands produces the same replies and the same final contents whatever number of segments the server is configured with, whatever the keys' names hash to, and whichever of the configured databases is used.",
  ["configurations","histories","inputs"],"for every segment count, key naming and command history",
  "Tests always use 100 segments; collisions of keys in one segment or lock stripe are never forced.",
  ["memdb/concurrentMap.go","memdb/locks.go","util/util.go","memdb/memdb.go"],[("key to segment mapping","memdb/concurrentMap.go getKeyPos"),("key to lock mapping","memdb/locks.go GetKeyPos")],WIRE)
p("C24","Configuration is honoured or rejected",
  "A configuration file sets exactly the options it names (host, port, logdir, loglevel, segnum, dbnum; any letter case of the option name, any order, blank lines, any surrounding blanks, with or without a final newline) and leaves the others as they were; a file with an unparsable number, invalid host, missing value or that cannot be read is reported as an error, and reading always finishes. A server started with given flags or file listens where told with that many databases and logs where told at that level; what the file sets prevails over the flags.",
  ["inputs","configurations"],"for every configuration text and flag combination",
  "One fixed file is tested (and its test does not pass); endings, blank lines, missing values and bad values are not.",
  ["config/config.go","main.go","server/server.go"],[("line parser","config/config.go ParseConfFile"),("flags","config/config.go initFlag/Init")],
  ["parsed configuration, start-up outcome, listening address, SELECT range"])
p("C25","A command affects only the keys it names",
  "Executing a command never changes the value, type, existence or time to live of any key it does not name, now or later: copies made by RENAME, LMOVE, SMOVE and the STORE commands share nothing with their sources, read results are snapshots, and a later write to one key never shows through another.",
  ["histories","inputs"],"for every history, comparing all other keys before and after each command",
  "Tests look only at the key they just wrote.",
  ["memdb/set.go","memdb/list.go","memdb/strings.go","memdb/keys.go","memdb/hash.go"],[("fresh containers for results","memdb/set.go, memdb/set_struct.go"),("no sharing of buffers between keys","memdb/strings.go")],WIRE)
p("C26","The server starts, serves, stops and restarts cleanly",
  "A server given an address it can bind serves every client that connects until it gets SIGINT or SIGTERM; then, whatever its clients are doing (idle, inside a request, not reading their replies, pipelining, connecting), the process ends promptly with status 0 and the address is free again, so a new server on it starts empty and serves. A server whose address is in use or not local, or whose log directory cannot be used, ends with a non-zero status instead of crashing or serving. A failed second start or a temporary shortage of file descriptors does not stop a running server from accepting later connections.",
  ["fault_sequences","histories","configurations"],"for every set of client activities at the time of the signal, every failing start and every shortage of descriptors",
  "No test starts the server.",
  ["server/server.go","main.go","logger/logger.go"],[("signal handling and shutdown","server/server.go Start"),("accept loop","server/server.go Start"),("start-up errors","main.go main")],
  ["process exit status and time, connections and replies over TCP"])
p("C27","Every log record at or above the level is written once and whole",
  "A log call at or above the configured level (debug < info < warning < panic < error) appends exactly one record, carrying its level, the place of the call and the whole message, to the log file and to standard output; a call below the level writes nothing. Records of one goroutine stay in order and records of different goroutines never mix or get lost. The log directory is created if missing, and what the log file held before a restart is kept.",
  ["inputs","schedules","histories"],"for every sequence of calls, level, number of goroutines and number of restarts",
  "No test reads the log.",
  ["logger/logger.go","main.go"],[("level filter","logger/logger.go Debug/Info/Warning/Panic/Error"),("log file set-up","logger/logger.go Init")],
  ["contents of the log file and of standard output"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x["title"])<=80, x["title"]
print(len(P))
