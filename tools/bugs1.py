G = '''package memdb

import (
	"gRedis/config"
	"gRedis/resp"
	"strings"
	"sync"
	"testing"
	"time"
)

func demoDb(segs int) *MemDb {
	config.Conf = &config.Config{SegNum: segs}
	RegisterKeyCommands()
	RegisterStringCommands()
	RegisterHashCommands()
	RegisterListCommands()
	RegisterSetCommands()
	return NewMemDb()
}

func demoRun(db *MemDb, line string) string {
	var cmd [][]byte
	for _, w := range strings.Fields(line) {
		cmd = append(cmd, []byte(w))
	}
	return string(CmdTable[strings.ToLower(string(cmd[0]))].Executor(db, cmd).ToRedisFormat())
}

var _ = resp.CRLF
var _ sync.Mutex
var _ = time.Second
'''

BUGS = [
dict(id="c01-zero-copy", prop="C01",
  edits=[("resp/parser.go", "readline", '''		msg = make([]byte, buf.stringLen+2)
		_, err = io.ReadFull(reader, msg)
''', '''		need := int(buf.stringLen + 2)
		if need > 1024 && need <= reader.Size() {
			// a medium sized string fits in the read buffer: take it from there
			msg, err = reader.Peek(need)
			reader.Discard(need)
		} else {
			msg = make([]byte, need)
			_, err = io.ReadFull(reader, msg)
		}
''')],
  needs="a string value of 1 to 4 KB is stored and later traffic on the same connection reuses the connection's read buffer",
  what="the stored value aliases the read buffer, so bytes of later requests show up in it",
  demo='''
def f(s):
    c = s.conn()
    v = bytes(range(65, 90)) * 80
    eq(c.cmd("SET", "k", v), "OK")
    for i in range(5):
        eq(c.cmd("SET", "o%d" % i, b"x" * 3000), "OK")
    eq(c.cmd("GET", "k"), v)
run(f)
'''),
dict(id="c01-empty-field", prop="C01",
  edits=[("memdb/hash_struct.go", "Get", "	return h.table[key]", '''	if v := h.table[key]; len(v) > 0 {
		return v
	}
	return nil''')],
  needs="a hash field whose value is the empty string",
  what="HGET and HMGET answer nil for a field holding an empty value",
  demo='''
def f(s):
    c = s.conn()
    eq(c.cmd("HSET", "h", "f", ""), 1)
    eq(c.cmd("HGET", "h", "f"), b"")
    eq(c.cmd("HMGET", "h", "f", "g"), [b"", None])
run(f)
'''),
dict(id="c02-short-read", prop="C02",
  edits=[("resp/parser.go", "readline", "_, err = io.ReadFull(reader, msg)", '''var n, m int
		n, err = reader.Read(msg)
		if err == nil && n < len(msg) {
			// the rest is in the next packet
			m, err = reader.Read(msg[n:])
			_ = m
		}''')],
  needs="a bulk string whose bytes arrive in three or more reads",
  what="the request is taken as malformed and the connection dropped, depending on how the bytes were split",
  demo='''
import time
def f(s):
    c = s.conn()
    b = b"*3\\r\\n$3\\r\\nSET\\r\\n$1\\r\\nk\\r\\n$9\\r\\nabcdefghi\\r\\n"
    for i in range(len(b)):
        c.raw(b[i:i+1]); time.sleep(0.01)
    eq(c.read(), "OK")
    eq(c.cmd("GET", "k"), b"abcdefghi")
run(f)
'''),
dict(id="c02-null-tail", prop="C02",
  edits=[("resp/parser.go", "parse", '''							if len(buf.arrayData.data) == buf.arrayLen {
								ch <- &RedisResp{Data: buf.arrayData}
								buf.inArray = false
								buf.arrayLen = 0
								buf.arrayData = nil
							}
						} else {''', '''							if len(buf.arrayData.data) == buf.arrayLen {
								ch <- &RedisResp{Data: buf.arrayData}
								buf.inArray = false
								buf.arrayData = nil
							}
						} else {''',),
         ("resp/parser.go", "parse", '''		if buf.inArray { // send array data
			buf.arrayData.data = append(buf.arrayData.data, data)
			if len(buf.arrayData.data) == buf.arrayLen {''', '''		if buf.arrayLen > 0 { // send array data
			if !buf.inArray {
				buf.inArray, buf.arrayData = true, NewArray([]RedisData{})
			}
			buf.arrayData.data = append(buf.arrayData.data, data)
			if len(buf.arrayData.data) == buf.arrayLen {''')],
  needs="a request whose last element is a null bulk string, followed on the same connection by a value outside an array",
  what="the parser keeps the length of the finished array and swallows what follows into a new one",
  demo='''
def f(s):
    c = s.conn()
    c.raw(b"*2\\r\\n$4\\r\\nPING\\r\\n$-1\\r\\n")
    assert isinstance(c.read(), Err)
    c.raw(b"+hello\\r\\n+PING\\r\\n")       # not a request: ignored
    eq(c.cmd("PING"), "PONG")
    eq(c.cmd("SET", "a", "1"), "OK")
    eq(c.cmd("GET", "a"), b"1")
run(f)
'''),
dict(id="c03-lpos-odd", prop="C03",
  edits=[("memdb/list.go", "lPosList", "len(cmd) < 3 || len(cmd)&1 != 1", "len(cmd) < 3 || len(cmd) > 9")],
  needs="LPOS with an option name but no value",
  what="the handler indexes past the arguments; the panic takes the whole server down",
  demo='''
import time
def f(s):
    c = s.conn()
    eq(c.cmd("RPUSH", "l", "a"), 1)
    c.send("LPOS", "l", "a", "RANK")
    try: c.read()
    except Exception: pass
    time.sleep(0.3)
    assert s.alive(), "server died"
    eq(s.conn().cmd("PING"), "PONG")
run(f)
'''),
dict(id="c03-range-cap", prop="C03",
  edits=[("memdb/list_struct.go", "Range", '''	if start > end || start >= l.Len || end < 0 {
		return nil
	}

''', '''	if start >= l.Len || end < 0 {
		return nil
	}

'''), ("memdb/list_struct.go", "Range", "res := make([][]byte, 0, end-start+1)", "res := make([][]byte, 0, l.Len)"),
  ("memdb/list_struct.go", "Trim", "if start > end || start >= l.Len || end < 0 {", "if start >= l.Len || end < 0 {")],
  needs="LTRIM with a start behind the end, both inside the list",
  what="the trimmed list has no start node and the server crashes",
  demo='''
import time
def f(s):
    c = s.conn()
    eq(c.cmd("RPUSH", "l", "a", "b", "c", "d"), 4)
    c.send("LTRIM", "l", "3", "1")
    try: c.read()
    except Exception: pass
    time.sleep(0.3)
    assert s.alive(), "server died"
    d = s.conn()
    eq(d.cmd("EXISTS", "l"), 0)
run(f)
'''),
dict(id="c04-rune-length", prop="C04",
  edits=[("resp/data.go", "", '''	return []byte("$" + strconv.Itoa(len(bs.data)) + CRLF''', '''	return []byte("$" + strconv.Itoa(len([]rune(string(bs.data)))) + CRLF''')],
  needs="a stored value with bytes above 0x7f that form valid UTF-8",
  what="the announced length counts characters, so the reply stream goes out of step",
  demo='''
def f(s):
    c = s.conn()
    eq(c.cmd("SET", "k", b"h\\xc3\\xa9llo"), "OK")
    eq(c.cmd("GET", "k"), b"h\\xc3\\xa9llo")
    eq(c.cmd("PING"), "PONG")
run(f)
'''),
dict(id="c04-ping-kind", prop="C04",
  edits=[("memdb/keys.go", "pingKeys", "return resp.NewBulkString(cmd[1])", "return resp.NewSimpleString(string(cmd[1]))")],
  needs="PING with an argument holding CR or LF (or a client that checks the kind of reply)",
  what="the argument comes back as a status reply with its line breaks replaced",
  demo='''
def f(s):
    c = s.conn()
    eq(c.cmd("PING", b"a\\r\\nb"), b"a\\r\\nb")
run(f)
'''),
dict(id="c04-not-performed", prop="C04",
  edits=[("memdb/list.go", "lSetList", '''	if !l.Set(val, index) {
		return resp.NewSimpleError("index out of range")
	}
''', '''	if !l.Set(val, index) {
		return resp.NewSimpleString("index out of range")
	}
''')],
  needs="LSET with an index outside the list",
  what="a failed command is answered with a status reply instead of an error",
  demo='''
def f(s):
    c = s.conn()
    eq(c.cmd("RPUSH", "l", "a"), 1)
    r = c.cmd("LSET", "l", "5", "x")
    assert isinstance(r, Err), r
run(f)
'''),
dict(id="c05-mset-order", prop="C05",
  edits=[("memdb/strings.go", "mSetString", "for i := 0; i < len(keys); i++ {", "for i := len(keys) - 1; i >= 0; i-- {")],
  needs="MSET naming the same key twice",
  what="the first value wins instead of the last",
  demo='''
def f(s):
    c = s.conn()
    eq(c.cmd("MSET", "a", "1", "b", "2", "a", "3"), "OK")
    eq(c.cmd("MGET", "a", "b"), [b"3", b"2"])
run(f)
'''),
dict(id="c05-getrange-negative", prop="C05",
  edits=[("memdb/strings.go", "getRangeString", "	if start > end || start >= len(v) || end < 0 {", "	if start > end || start >= len(v) || end <= 0 && start < 0 {")],
  needs="GETRANGE whose start lies before the beginning and whose end is exactly the first byte",
  what="an empty string instead of the first byte",
  demo='''
def f(s):
    c = s.conn()
    eq(c.cmd("SET", "k", "hello"), "OK")
    eq(c.cmd("GETRANGE", "k", "-100", "0"), b"h")
    eq(c.cmd("GETRANGE", "k", "-100", "-5"), b"h")
    eq(c.cmd("GETRANGE", "k", "-100", "-6"), b"")
run(f)
'''),
dict(id="c06-trim-link", prop="C06",
  edits=[("memdb/list_struct.go", "Trim", '''	l.Head.Next = startNode
	startNode.Prev = l.Head
	l.Tail.Prev = endNode''', '''	l.Head.Next = startNode
	l.Tail.Prev = endNode''')],
  needs="LTRIM that cuts the front of a list, then LREM with a negative count for an element that was cut off",
  what="the walk from the tail runs into the nodes that were trimmed away and reports removing them",
  demo='''
def f(s):
    c = s.conn()
    eq(c.cmd("RPUSH", "l", "a", "b", "c", "d"), 4)
    eq(c.cmd("LTRIM", "l", "1", "-1"), "OK")
    eq(c.cmd("LREM", "l", "-1", "a"), 0)
    eq(c.cmd("LLEN", "l"), 3)
run(f)
'''),
dict(id="c06-insert-back-link", prop="C06",
  edits=[("memdb/list_struct.go", "InsertAfter", '''			cur.Next = node
			node.Next.Prev = node
''', '''			cur.Next = node
''')],
  needs="LINSERT AFTER, then an operation that walks or pops from the tail",
  what="the inserted element is missing when the list is read from the tail",
  demo='''
def f(s):
    c = s.conn()
    eq(c.cmd("RPUSH", "l", "a", "c"), 2)
    eq(c.cmd("LINSERT", "l", "AFTER", "a", "b"), 3)
    eq(c.cmd("LRANGE", "l", "0", "-1"), [b"a", b"b", b"c"])
    eq(c.cmd("LINDEX", "l", "-2"), b"b")
run(f)
'''),
dict(id="c06-lrem-all", prop="C06",
  edits=[("memdb/list_struct.go", "Remove", '''	if count == 0 {
		count = l.Len
	}

	removed := 0
	if count > 0 {
		for cur := l.Head.Next; cur != l.Tail && removed < count; {''', '''	removed := 0
	if count >= 0 {
		for cur := l.Head.Next; cur != l.Tail && (removed < count || count == 0 && removed <= l.Len); {''')],
  needs="LREM with count 0 of an element that makes up more than half of the list",
  what="some occurrences stay because the bound shrinks while elements are removed",
  demo='''
def f(s):
    c = s.conn()
    eq(c.cmd("RPUSH", "l", "a", "a", "a", "a", "b"), 5)
    eq(c.cmd("LREM", "l", "0", "a"), 4)
    eq(c.cmd("LRANGE", "l", "0", "-1"), [b"b"])
run(f)
'''),
dict(id="c06-lpos-maxlen", prop="C06",
  edits=[("memdb/list.go", "lPosList", '''			for cur = l.Tail.Prev; cur != l.Head; cur = cur.Prev {
				pos--
				if bytes.Equal(element, cur.Val) {
					rankVal++
				}
				if maxLen {''', '''			for cur = l.Tail.Prev; cur != l.Head; cur = cur.Prev {
				pos--
				if bytes.Equal(element, cur.Val) {
					rankVal++
				}
				if maxLen && rankVal != 0 {''')],
  needs="LPOS with a negative RANK, COUNT and MAXLEN together, where a further match lies just outside MAXLEN",
  what="one comparison too many is made",
  demo='''
def f(s):
    c = s.conn()
    eq(c.cmd("RPUSH", "l", "a", "a", "b"), 3)
    eq(c.cmd("LPOS", "l", "a", "RANK", "-1", "COUNT", "0", "MAXLEN", "2"), [1])
run(f)
'''),
dict(id="c07-hset-new", prop="C07",
  edits=[("memdb/hash_struct.go", "Set", "if !h.Exist(key) {", "if len(h.table[key]) == 0 {")],
  needs="HSET of a field whose current value is empty",
  what="an existing field is counted as new",
  demo='''
def f(s):
    c = s.conn()
    eq(c.cmd("HSET", "h", "f", ""), 1)
    eq(c.cmd("HSET", "h", "f", "x", "g", "y"), 1)
run(f)
'''),
dict(id="c07-incr-empty", prop="C07",
  edits=[("memdb/hash_struct.go", "IncrByFloat", "	if v == nil {", "	if len(v) == 0 {")],
  needs="HINCRBYFLOAT on a field holding the empty string",
  what="the empty value counts as 0 instead of being refused",
  demo='''
def f(s):
    c = s.conn()
    eq(c.cmd("HSET", "h", "f", ""), 1)
    assert isinstance(c.cmd("HINCRBYFLOAT", "h", "f", "1.5"), Err)
    eq(c.cmd("HGET", "h", "f"), b"")
run(f)
'''),
dict(id="c08-smove-self", prop="C08",
  edits=[("memdb/set_struct.go", "Move", '''	s.Remove(key)
	set.Add(key)
''', '''	set.Add(key)
	s.Remove(key)
''')],
  needs="SMOVE with the same key as source and destination",
  what="the member disappears",
  demo='''
def f(s):
    c = s.conn()
    eq(c.cmd("SADD", "a", "x", "y"), 2)
    eq(c.cmd("SMOVE", "a", "a", "x"), 1)
    eq(sorted(c.cmd("SMEMBERS", "a")), [b"x", b"y"])
run(f)
'''),
dict(id="c08-diff-self", prop="C08",
  edits=[("memdb/set_struct.go", "Difference", '''	for _, set := range sets {
		for key := range set.table {
			res.Remove(key)
		}
	}''', '''	for i := 0; i < len(sets) && res.Len() > 0; i++ {
		if sets[i].Len() > s.Len() {
			// fewer look-ups the other way round
			for key := range s.table {
				if sets[i].Has(key) {
					res.Remove(key)
				}
			}
			break
		}
		for key := range sets[i].table {
			res.Remove(key)
		}
	}''')],
  needs="SDIFF of three or more sets, one of the middle ones bigger than the first, and a later one holding more members to remove",
  what="sets after the big one are not subtracted",
  demo='''
def f(s):
    c = s.conn()
    c.cmd("SADD", "a", "1", "2", "3"); c.cmd("SADD", "b", "3", "4", "5", "6"); c.cmd("SADD", "c", "1")
    eq(c.cmd("SDIFF", "a", "b", "c"), [b"2"])
    eq(c.cmd("SDIFFSTORE", "d", "a", "b", "c"), 1)
run(f)
'''),
dict(id="c09-rename-type", prop="C09",
  edits=[("memdb/keys.go", "renameKey", "	db.dict.Set(newKey, oldValue)", '''	if v, isStr := oldValue.([]byte); isStr && len(v) == 0 {
		// nothing to move
		db.dict.Delete(newKey)
	} else {
		db.dict.Set(newKey, oldValue)
	}''')],
  needs="RENAME of a key holding the empty string",
  what="the key vanishes instead of being renamed",
  demo='''
def f(s):
    c = s.conn()
    eq(c.cmd("SET", "a", ""), "OK")
    eq(c.cmd("RENAME", "a", "b"), "OK")
    eq(c.cmd("EXISTS", "a", "b"), 1)
    eq(c.cmd("TYPE", "b"), "string")
run(f)
'''),
dict(id="c10-early", prop="C10",
  edits=[("memdb/memdb.go", "CheckExpire", "return now > expireTime", "return now >= expireTime")],
  needs="a key with a time to live set late in a clock second",
  what="the key disappears before its time has elapsed (up to one second early)",
  demo='''
import time
def f(s):
    c = s.conn()
    while time.time() % 1 < 0.7: time.sleep(0.01)
    eq(c.cmd("SET", "k", "v", "EX", "1"), "OK")
    time.sleep(0.5)
    eq(c.cmd("GET", "k"), b"v")
run(f)
'''),
dict(id="c10-lmove-dest", prop="C10",
  edits=[("memdb/list.go", "lMoveList", '''	des := string(cmd[2])
	db.DeleteExpiredKey(des)
''', '''	des := string(cmd[2])
''')],
  needs="LMOVE onto a list whose time to live has elapsed and that no command has touched since",
  what="the moved element is appended to the dead list and lost",
  demo='''
import time
def f(s):
    c = s.conn()
    eq(c.cmd("RPUSH", "d", "old"), 1)
    eq(c.cmd("EXPIRE", "d", "1"), 1)
    eq(c.cmd("RPUSH", "s", "x"), 1)
    time.sleep(2.5)
    eq(c.cmd("LMOVE", "s", "d", "LEFT", "RIGHT"), b"x")
    eq(c.cmd("LRANGE", "d", "0", "-1"), [b"x"])
run(f)
'''),
dict(id="c11-lpop-ttl", prop="C11",
  edits=[("memdb/list.go", "lRemList", '''			db.dict.Delete(key)
			db.DeleteExpire(key)
''', '''			db.dict.Delete(key)
''')],
  needs="a list with a time to live is emptied by LREM and the name is used again",
  what="the new key inherits the old time to live and dies",
  demo='''
def f(s):
    c = s.conn()
    eq(c.cmd("RPUSH", "l", "a"), 1)
    eq(c.cmd("EXPIRE", "l", "100"), 1)
    eq(c.cmd("LREM", "l", "0", "a"), 1)
    eq(c.cmd("RPUSH", "l", "b"), 1)
    eq(c.cmd("TTL", "l"), -1)
run(f)
'''),
dict(id="c11-rename-ttl", prop="C11",
  edits=[("memdb/keys.go", "renameKey", '''	if ok {
		db.SetExpire(newKey, oldTTL.(int64))
	}''', '''	if ok && oldTTL.(int64) > time.Now().Unix() {
		db.SetExpire(newKey, oldTTL.(int64))
	}''')],
  needs="RENAME in the last clock second of a key's life",
  what="the renamed key lives for ever",
  demo='''
import time
def f(s):
    c = s.conn()
    while not 0.05 < time.time() % 1 < 0.3: time.sleep(0.01)
    eq(c.cmd("SET", "a", "v", "EX", "1"), "OK")
    while not 0.02 < time.time() % 1: time.sleep(0.01)
    time.sleep(1.1)
    r = c.cmd("RENAME", "a", "b")
    if r == "OK":
        t = c.cmd("TTL", "b")
        assert t in (0, 1), t
run(f)
'''),
dict(id="c12-smove-type", prop="C12",
  edits=[("memdb/set.go", "sMoveSet", '''	desSet, ok := desVal.(*Set)
	if !ok {
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}

	res := srcSet.Move(desSet, member)
''', '''	res := srcSet.Remove(member)
	desSet, ok := desVal.(*Set)
	if !ok {
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}
	if res == 1 {
		desSet.Add(member)
	}
''')],
  needs="SMOVE to a destination of another type",
  what="the command fails but the member is gone from the source",
  demo='''
def f(s):
    c = s.conn()
    c.cmd("SADD", "a", "x", "y"); c.cmd("SET", "b", "str")
    assert isinstance(c.cmd("SMOVE", "a", "b", "x"), Err)
    eq(sorted(c.cmd("SMEMBERS", "a")), [b"x", b"y"])
run(f)
'''),
dict(id="c12-sdiffstore-type", prop="C12",
  edits=[("memdb/set.go", "sDiffStoreSet", '''	if !ok {
		// if primary doesn't existed, treat it as a empty set
		v = NewSet()
	}
''', '''	if db.DeleteExpire(dest); !ok {
		// if primary doesn't existed, treat it as a empty set
		v = NewSet()
	}
''')],
  needs="SDIFFSTORE that fails because a source has the wrong type, onto a destination with a time to live",
  what="the failed command drops the destination's time to live",
  demo='''
def f(s):
    c = s.conn()
    c.cmd("SADD", "d", "x"); c.cmd("EXPIRE", "d", "100"); c.cmd("SET", "str", "v")
    assert isinstance(c.cmd("SDIFFSTORE", "d", "str"), Err)
    assert c.cmd("TTL", "d") in (99, 100)
run(f)
'''),
dict(id="c13-spop-count", prop="C13",
  edits=[("memdb/set.go", "sPopSet", '''	defer func() {
		if s.Len() == 0 {
			db.dict.Delete(key)
			db.DeleteExpire(key)
		}
	}()
''', '''	if s.Len() <= countVal && !count {
		defer func() {
			db.dict.Delete(key)
			db.DeleteExpire(key)
		}()
	} else if count && s.Len() == countVal {
		defer func() {
			db.dict.Delete(key)
			db.DeleteExpire(key)
		}()
	}
''')],
  needs="SPOP with a count larger than the set",
  what="an empty set stays behind",
  demo='''
def f(s):
    c = s.conn()
    c.cmd("SADD", "a", "x", "y")
    eq(len(c.cmd("SPOP", "a", "5")), 2)
    eq(c.cmd("EXISTS", "a"), 0)
run(f)
'''),
dict(id="c13-hdel-last", prop="C13",
  edits=[("memdb/hash.go", "hDelHash", "		if h.IsEmpty() {", "		if h.IsEmpty() && len(cmd) == 3 {")],
  needs="the last fields of a hash removed by an HDEL naming more than one field",
  what="an empty hash stays behind",
  demo='''
def f(s):
    c = s.conn()
    c.cmd("HSET", "h", "f", "1", "g", "2")
    eq(c.cmd("HDEL", "h", "f", "g"), 2)
    eq(c.cmd("EXISTS", "h"), 0)
    eq(c.cmd("TYPE", "h"), "none")
run(f)
'''),
dict(id="c15-select-base", prop="C15",
  edits=[("server/handler.go", "Select", "dbIdx, err := strconv.Atoi(string(cmd[1]))", '''idx, err := strconv.ParseInt(string(cmd[1]), 0, 32)
	dbIdx := int(idx)''')],
  needs="SELECT with an index written with a leading zero or a base prefix",
  what="SELECT 010 goes to database 8, SELECT 0x1 is accepted",
  demo='''
def f(s):
    c = s.conn()
    assert isinstance(c.cmd("SELECT", "0x1"), Err)
    r = c.cmd("SELECT", "010")
    if r == "OK":
        eq(c.cmd("SET", "k", "ten"), "OK")
        d = s.conn(); eq(d.cmd("SELECT", "8"), "OK")
        eq(d.cmd("GET", "k"), None)
run(f)
'''),
dict(id="c15-shared-dbs", prop="C15",
  edits=[("server/handler.go", "NewManager", '''	for i := 0; i < len(dbs); i++ {
		dbs[i] = memdb.NewMemDb()
	}''', '''	for i := range dbs {
		// the high ones are rarely used, so they share their tables
		if i > 16 {
			dbs[i] = dbs[i-1]
		} else {
			dbs[i] = memdb.NewMemDb()
		}
	}''')],
  needs="more than 17 configured databases, and use of the high ones",
  what="databases 16 and above are one and the same",
  demo='''
def f(s):
    c = s.conn()
    eq(c.cmd("SELECT", "17"), "OK"); eq(c.cmd("SET", "k", "v"), "OK")
    eq(c.cmd("SELECT", "18"), "OK"); eq(c.cmd("GET", "k"), None)
run(f, "-dbnum", "20")
'''),
dict(id="c16-setrange-rlock", prop="C16",
  edits=[("memdb/strings.go", "incrByString", '''	db.locks.Lock(key)
	defer db.locks.UnLock(key)
''', '''	db.locks.RLock(key)
	defer db.locks.RUnLock(key)
''')],
  needs="two INCRBY on the same key at the same time",
  what="both read the same value and one increment is lost",
  demo=G + '''
func TestDemo(t *testing.T) {
	db := demoDb(10)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 50000; i++ {
				demoRun(db, "incrby k 1")
			}
		}()
	}
	wg.Wait()
	if got := demoRun(db, "get k"); got != "$6\\r\\n400000\\r\\n" {
		t.Fatal("lost updates: ", got)
	}
}
'''),
dict(id="c16-sunion-split", prop="C16",
  edits=[("memdb/set.go", "sUnionSet", '''	db.locks.MRLock(keys)
	defer db.locks.MRUnLock(keys)

	v, ok := db.dict.Get(keys[0])
''', '''	db.locks.RLock(keys[0])
	v, ok := db.dict.Get(keys[0])
	if set, isSet := v.(*Set); isSet {
		v = set.Union()
	}
	db.locks.RUnLock(keys[0])

	db.locks.MRLock(keys[1:])
	defer db.locks.MRUnLock(keys[1:])

''')],
  needs="another client moves a member from the second set to the first between the two look-ups of SUNION",
  what="SUNION sees neither copy of a member that was in one of the sets at every instant",
  demo=G + '''
func TestDemo(t *testing.T) {
	db := demoDb(50)
	demoRun(db, "sadd a x")
	stop := make(chan bool)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			default:
			}
			demoRun(db, "smove a b x")
			demoRun(db, "smove b a x")
		}
	}()
	bad := ""
	end := time.Now().Add(20 * time.Second)
	for n := 0; n < 2000000 && bad == "" && time.Now().Before(end); n++ {
		if got := demoRun(db, "sunion a b"); got != "*1\\r\\n$1\\r\\nx\\r\\n" {
			bad = got
		}
	}
	close(stop)
	wg.Wait()
	if bad != "" {
		t.Fatalf("torn union %q", bad)
	}
}
'''),
dict(id="c17-unsorted", prop="C17",
  edits=[("memdb/locks.go", "getSortedLocks", '''	sort.Ints(order)
	return order''', '''	if len(order) > 2 {
		sort.Ints(order)
	}
	return order'''),],
  needs="two clients run two-key commands on the same keys at the same time",
  what="the locks are taken in opposite orders and both clients hang for ever",
  demo=G + '''
func TestDemo(t *testing.T) {
	db := demoDb(100)
	done := make(chan bool)
	go func() {
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 20000; i++ {
					demoRun(db, "mset a 1 b 2")
				}
			}()
		}
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Fatal("deadlock")
	}
}
'''),
dict(id="c17-same-slot", prop="C17",
  edits=[("memdb/locks.go", "getSortedLocks", '''	set := make(map[int]struct{})
	for i := range keys {
		pos := m.GetKeyPos(keys[i])
		set[pos] = struct{}{}
	}

	order := make([]int, len(set))
	i := 0
	for pos := range set {
		order[i] = pos
		i++
	}
''', '''	set := make(map[string]struct{})
	for i := range keys {
		set[keys[i]] = struct{}{}
	}

	order := make([]int, 0, len(set))
	for key := range set {
		order = append(order, m.GetKeyPos(key))
	}
''')],
  needs="a multi-key write naming two different keys that hash to the same lock",
  what="the command waits for a lock it already holds",
  demo=G + '''
func TestDemo(t *testing.T) {
	db := demoDb(2)
	done := make(chan bool)
	go func() {
		demoRun(db, "mset a 1 b 2 c 3 d 4 e 5 f 6")
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("deadlock")
	}
}
'''),
dict(id="c17-leaked-lock", prop="C17",
  edits=[("memdb/list.go", "lInsertList", '''	db.locks.Lock(key)
	defer db.locks.UnLock(key)

	// key not existed
	v, ok := db.dict.Get(key)
	if !ok {
		return resp.NewInteger(0)
	}

	// wrong type
	l, ok := v.(*List)
	if !ok {
		return resp''', '''	db.locks.Lock(key)

	// key not existed
	v, ok := db.dict.Get(key)
	if !ok {
		db.locks.UnLock(key)
		return resp.NewInteger(0)
	}

	// wrong type
	l, ok := v.(*List)
	if !ok {
		return resp'''), ("memdb/list.go", "lInsertList", '''	if before {
		if !l.Insert''', '''	defer db.locks.UnLock(key)
	if before {
		if !l.Insert''')],
  needs="LINSERT on a key of another type, then any command on that key",
  what="the failed command keeps the lock and every later command on the key hangs",
  demo=G + '''
func TestDemo(t *testing.T) {
	db := demoDb(10)
	done := make(chan bool)
	go func() {
		demoRun(db, "set k v")
		demoRun(db, "linsert k before a b")
		demoRun(db, "get k")
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("deadlock")
	}
}
'''),
dict(id="c18-keys-unlocked", prop="C18",
  edits=[("memdb/hash.go", "hGetAllHash", '''	db.locks.RLock(key)
	defer db.locks.RUnLock(key)

	// key not existed
	v, ok := db.dict.Get(key)
''', '''	db.locks.RLock(key)
	v, ok := db.dict.Get(key)
	db.locks.RUnLock(key)

	// key not existed
''')],
  needs="HGETALL while another client changes the same hash",
  what="the map is read while it is written: a fatal error that takes the server down",
  demo="// use -race\n" + G + '''
func TestDemo(t *testing.T) {
	db := demoDb(10)
	demoRun(db, "hset h f 0")
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(2)
		go func() { defer wg.Done(); for i := 0; i < 5000; i++ { demoRun(db, "hgetall h") } }()
		go func() { defer wg.Done(); for i := 0; i < 5000; i++ { demoRun(db, "hincrby h f 1") } }()
	}
	wg.Wait()
}
'''),
dict(id="c18-segment-read", prop="C18",
  edits=[("memdb/concurrentMap.go", "Get", '''	segment.rwMu.RLock()
	defer segment.rwMu.RUnlock()

	value, ok := segment.ht[key]
	return value, ok
''', '''	if len(segment.ht) == 0 {
		return nil, false
	}
	segment.rwMu.RLock()
	value, ok := segment.ht[key]
	segment.rwMu.RUnlock()

	return value, ok
''')],
  needs="a look-up while another client adds a key to the same segment",
  what="the table's size is read without the lock: a data race",
  demo="// use -race\n" + G + '''
func TestDemo(t *testing.T) {
	db := demoDb(1)
	var wg sync.WaitGroup
	for _, k := range []string{"a", "b", "c", "d", "e", "f"} {
		wg.Add(1)
		k := k
		go func() { defer wg.Done(); for i := 0; i < 2000; i++ { demoRun(db, "set "+k+" 1"); demoRun(db, "del "+k) } }()
	}
	wg.Wait()
}
'''),
dict(id="c19-keys-bound", prop="C19",
  edits=[("memdb/concurrentMap.go", "Keys", '''	for i := range m.table {
		m.table[i].rwMu.Lock()
''', '''	for i := 0; i < len(m.table) && (len(keys) < cap(keys) || cap(keys) == 0); i++ {
		m.table[i].rwMu.Lock()
''')],
  needs="KEYS while other clients add keys to segments it has already reached",
  what="it stops once it has as many keys as there were at the start, so keys that existed throughout are left out",
  demo=G.replace('"strings"', '"strings"\n\t"fmt"') + '''
func TestDemo(t *testing.T) {
	db := demoDb(200)
	for i := 0; i < 300; i++ {
		demoRun(db, fmt.Sprint("set stay", i, " v"))
	}
	stop := make(chan bool)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		g := g
		go func() {
			defer wg.Done()
			for i := 0; ; i = (i + 1) % 500 {
				select {
				case <-stop:
					return
				default:
				}
				demoRun(db, fmt.Sprint("set new", g, "-", i, " v"))
				if i%3 == 0 {
					demoRun(db, fmt.Sprint("del new", g, "-", i, " new", g, "-", i-1, " new", g, "-", i-2))
				}
			}
		}()
	}
	bad := ""
	for n := 0; n < 4000 && bad == ""; n++ {
		if got := demoRun(db, "keys stay*"); !strings.HasPrefix(got, "*300\\r\\n") {
			bad = got[:8]
		}
	}
	close(stop)
	wg.Wait()
	if bad != "" {
		t.Fatal("keys missing: ", bad)
	}
}
'''),
dict(id="c20-close-eof", prop="C20",
  edits=[("server/handler.go", "Handle", '''	defer func() {
		err := conn.Close()
		if err != nil {
			logger.Error(err)
		}
''', '''	polite := false
	defer func() {
		if polite { // otherwise the other side is gone already
			conn.Close()
		}
'''), ("server/handler.go", "Handle", '''				logger.Info("Close connection: ", conn.RemoteAddr().String())
			}
			return''', '''				logger.Info("Close connection: ", conn.RemoteAddr().String())
				polite = true
			}
			return''')],
  needs="a client that sends malformed bytes and keeps its side open",
  what="the server never closes its side, so the socket leaks and the client waits for ever",
  demo='''
import socket
def f(s):
    c = s.conn()
    c.raw(b"*1\\r\\n$x\\r\\n")
    c.s.settimeout(5)
    try:
        d = c.s.recv(1000)
        while d: d = c.s.recv(1000)
    except socket.timeout:
        raise AssertionError("the server keeps the connection open")
    except OSError: pass
run(f)
'''),
dict(id="c21-decrby-float", prop="C21",
  edits=[("memdb/strings.go", "decrByString", "		nV -= decrement\n", "		nV = int64(float64(nV) - float64(decrement))\n")],
  needs="DECRBY on a value beyond 2^53",
  what="the result is rounded",
  demo='''
def f(s):
    c = s.conn()
    c.cmd("SET", "k", "9007199254740993")
    eq(c.cmd("DECRBY", "k", "2"), 9007199254740991)
    c.cmd("SET", "k", "9007199254740995")
    eq(c.cmd("DECRBY", "k", "0"), 9007199254740995)
run(f)
'''),
dict(id="c21-float-exp", prop="C21",
  edits=[("memdb/hash.go", "hIncrByFloatHash", "strconv.FormatFloat(val, 'f', -1, 64)", "strconv.FormatFloat(val, 'g', -1, 64)")],
  needs="HINCRBYFLOAT whose sum is very large or very small",
  what="the reply uses exponent notation",
  demo='''
def f(s):
    c = s.conn()
    eq(c.cmd("HINCRBYFLOAT", "h", "f", "1e22"), b"10000000000000000000000")
    eq(c.cmd("HINCRBYFLOAT", "h", "g", "0.00000001"), b"0.00000001")
run(f)
'''),
dict(id="c22-negative-capped", prop="C22",
  edits=[("memdb/hash_struct.go", "RandomWithValue", '''		for {
			for key, val := range h.table {
				// If called with a negative count, the behavior changes and the command is allowed to return the same field multiple times.
				if len(keys) >= -count {
					return keys, vals
				}
				keys = append(keys, key)
				vals = append(vals, val)
				break
''', '''		for len(keys) < -count {
			for key, val := range h.table {
				keys = append(keys, key)
				vals = append(vals, val)
				if len(keys) < -count && len(vals) == h.Len() {
					// every field has had its turn
					return keys, vals
				}
				break
''')],
  needs="HRANDFIELD with WITHVALUES and a negative count beyond the number of fields",
  what="fewer fields than asked for are returned",
  demo='''
def f(s):
    c = s.conn()
    c.cmd("HSET", "h", "f", "1", "g", "2")
    eq(len(c.cmd("HRANDFIELD", "h", "-6", "WITHVALUES")), 12)
run(f)
'''),
dict(id="c22-first-member", prop="C22",
  edits=[("memdb/set_struct.go", "Random", '''		if count > s.Len() {
			count = s.Len()
		}

		res = make([]string, 0, count)
''', '''		if count >= s.Len() {
			return s.Members()
		}

		res = make([]string, 0, count)
		if count == 1 {
			// any one will do
			for key := range s.table {
				if len(res) == 0 || key < res[0] {
					res = append(res[:0], key)
				}
			}
			return res
		}
''')],
  needs="many SRANDMEMBER calls on the same set",
  what="always the same member is chosen",
  demo='''
def f(s):
    c = s.conn()
    c.cmd("SADD", "a", "x", "y", "z")
    got = {c.cmd("SRANDMEMBER", "a") for i in range(300)}
    eq(len(got), 3)
run(f)
'''),
dict(id="c23-few-locks", prop="C23",
  edits=[("memdb/memdb.go", "NewMemDb", "NewLocksManager(2 * config.Conf.SegNum)", "NewLocksManager(config.Conf.SegNum / 2)")],
  needs="a server configured with one segment",
  what="there is no lock at all and the first command crashes the server",
  demo='''
import time
def f(s):
    c = s.conn()
    eq(c.cmd("SET", "a", "1"), "OK")
    eq(c.cmd("GET", "a"), b"1")
run(f, "-segnum", "1")
'''),
dict(id="c23-clear-last", prop="C23",
  edits=[("memdb/concurrentMap.go", "Keys", '''	for i := range m.table {
''', '''	for i := 0; i < len(m.table) || i == 0; i += 1 + i/1000 {
''')],
  needs="more than 1000 segments and a key hashed behind the first 1000",
  what="KEYS skips segments",
  demo='''
def f(s):
    c = s.conn()
    for i in range(2000): c.cmd("SET", "key%d" % i, "v")
    eq(len(c.cmd("KEYS", "*")), 2000)
run(f, "-segnum", "4000", "-dbnum", "1")
'''),
dict(id="c24-tabs", prop="C24",
  edits=[("config/config.go", "ParseConfFile", "argvs := strings.Fields(line)", '''argvs := strings.FieldsFunc(strings.TrimSpace(line), func(r rune) bool { return r == ' ' })''')],
  needs="a configuration file that separates an option from its value with a tab",
  what="the option is silently ignored",
  demo='''
import os, tempfile
def f(s):
    p = os.path.join(s.dir, "x.conf")
    open(p, "w").write("dbnum\\t3\\nsegnum 5\\n")
    t = Server("-config", p)
    try:
        c = t.conn()
        eq(c.cmd("SELECT", "2"), "OK")
        assert isinstance(c.cmd("SELECT", "3"), Err)
    finally:
        t.stop()
run(f)
'''),
dict(id="c24-last-line", prop="C24",
  edits=[("config/config.go", "ParseConfFile", '''		line, ioErr := fileReader.ReadString('\\n')
		if ioErr != nil && ioErr != io.EOF {''', '''		line, ioErr := fileReader.ReadString('\\n')
		if ioErr == io.EOF && !strings.Contains(strings.TrimSpace(line), " ") {
			break
		} else if ioErr != nil && ioErr != io.EOF {''')],
  needs="a configuration file whose last line has no newline and either lacks its value or separates it with something other than a space",
  what="the broken last line is accepted silently",
  demo='''
import os, subprocess
def f(s):
    p = os.path.join(s.dir, "x.conf")
    open(p, "w").write("segnum 5\\ndbnum")
    q = subprocess.Popen([os.path.join(s.dir, "gredis"), "-config", p, "-port", "0", "-logdir", s.dir], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        rc = q.wait(timeout=3)
        assert rc != 0
    except subprocess.TimeoutExpired:
        raise AssertionError("a file with a missing value was accepted")
    finally:
        if q.poll() is None: q.kill(); q.wait()
run(f)
'''),
dict(id="c25-store-alias", prop="C25",
  edits=[("memdb/set.go", "sInterStoreSet", '''		members := s.Members()
		for _, mem := range members {
			destSet.Add(mem)
		}
''', '''		destSet = s
''')],
  needs="SINTERSTORE with a single source, then a write to either of the two keys",
  what="source and destination share one set: a change to one shows in the other",
  demo='''
def f(s):
    c = s.conn()
    c.cmd("SADD", "a", "x")
    eq(c.cmd("SINTERSTORE", "d", "a"), 1)
    c.cmd("SADD", "d", "y")
    eq(c.cmd("SMEMBERS", "a"), [b"x"])
run(f)
'''),
dict(id="c25-append-alias", prop="C25",
  edits=[("resp/parser.go", "parseBulkString", '''	data := NewBulkString(msgData)

	return data, nil
''', '''	if len(msgData) == 1 {
		// single bytes are so common that they share their storage
		return NewBulkString(smallStrings[msgData[0]]), nil
	}
	return NewBulkString(msgData), nil
'''), ("resp/parser.go", "", "type RedisResp struct {", '''var smallStrings [256][]byte

func init() {
	for i := range smallStrings {
		smallStrings[i] = make([]byte, 1, 16)
		smallStrings[i][0] = byte(i)
	}
}

type RedisResp struct {''')],
  needs="two keys set to the same one-byte value, then APPEND to both",
  what="both values grow into the same spare storage, so the second APPEND rewrites the first key's value",
  demo='''
def f(s):
    c = s.conn()
    c.cmd("SET", "a", "1"); c.cmd("SET", "b", "1")
    eq(c.cmd("APPEND", "a", "xx"), 3)
    eq(c.cmd("APPEND", "b", "yy"), 3)
    eq(c.cmd("GET", "a"), b"1xx")
run(f)
'''),
]
BUGS = [b for b in BUGS if b["demo"]]
