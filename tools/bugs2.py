exec(open("/verif/tools/bugs1.py").read().split("BUGS = [")[0])

BUGS = [
dict(id="c02-shared-buffer", prop="C02",
  edits=[("server/handler.go", "Handle", '''			_, err := conn.Write(redisData.ToRedisFormat())
			if err != nil {
				logger.Error("write response to ", conn.RemoteAddr().String(), " error: ", err.Error())
				return
			}
		} else {''', '''			out := m.encode(redisData)
			_, err := conn.Write(out)
			if err != nil {
				logger.Error("write response to ", conn.RemoteAddr().String(), " error: ", err.Error())
				return
			}
		} else {'''),
   ("server/handler.go", "", '''type Manager struct {
	db  *memdb.MemDb
	dbs []*memdb.MemDb
}
''', '''type Manager struct {
	db  *memdb.MemDb
	dbs []*memdb.MemDb

	mu  sync.Mutex
	out []byte // reused for encoding replies
}

// encode a reply without allocating for every one of them
func (m *Manager) encode(data resp.RedisData) []byte {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.out = append(m.out[:0], data.ToRedisFormat()...)
	return m.out
}
'''),
   ("server/handler.go", "", '''	"strings"
)''', '''	"strings"
	"sync"
)'''),
  ],
  needs="two clients get their replies at the same moment: one encodes between the other's encoding and its write",
  what="a client receives the bytes of another client's reply instead of its own",
  demo='''
import threading, sys
def f(s):
    bad = []
    def work(i):
        c = s.conn()
        v = b"%d" % i * 2000
        c.cmd("SET", "k%d" % i, v)
        for n in range(6000):
            if bad:
                return
            try:
                r = c.cmd("GET", "k%d" % i)
            except Exception as e:
                bad.append(repr(e)); return
            if r != v:
                bad.append(r[:20]); return
    t = [threading.Thread(target=work, args=(i,)) for i in range(1, 9)]
    for x in t: x.start()
    for x in t: x.join()
    eq(bad, [])
run(f)
'''),
dict(id="c02-inflight-limit", prop="C02",
  edits=[("resp/parser.go", "ParseStream", "	ch := make(chan *RedisResp) // 双向通道，但是对外是只读通道\n", "	ch := make(chan *RedisResp, 1024) // 双向通道，但是对外是只读通道\n"),
   ("resp/parser.go", "parse", '''			buf.arrayData.data = append(buf.arrayData.data, data)
			if len(buf.arrayData.data) == buf.arrayLen {
				ch <- &RedisResp{Data: buf.arrayData}
				buf.inArray = false
				buf.arrayLen = 0
				buf.arrayData = nil
			}
		} else { // send single data''', '''			buf.arrayData.data = append(buf.arrayData.data, data)
			if len(buf.arrayData.data) == buf.arrayLen {
				// never stall the reader behind a slow client
				select {
				case ch <- &RedisResp{Data: buf.arrayData}:
				default:
					logger.Warning("too many requests in flight")
				}
				buf.inArray = false
				buf.arrayLen = 0
				buf.arrayData = nil
			}
		} else { // send single data'''),
  ],
  needs="one client has more than 1024 pipelined requests waiting (it sends a burst without reading replies)",
  what="requests beyond the 1024 waiting ones are dropped without effect or reply",
  demo='''
import threading
def f(s):
    c = s.conn()
    n = 60000
    blob = b"*2\\r\\n$4\\r\\nPING\\r\\n$64\\r\\n" + b"x" * 64 + b"\\r\\n"
    t = threading.Thread(target=lambda: c.raw(blob * n), daemon=True)
    t.start()
    time.sleep(2)
    c.s.settimeout(10)
    for i in range(n):
        eq(c.read(), b"x" * 64)
run(f)
'''),
dict(id="c03-bad-conn-slots", prop="C03",
  edits=[("server/server.go", "Start", '''			go mgr.Handle(conn)
''', '''			slots <- struct{}{}
			go func() {
				mgr.Handle(conn)
				if !mgr.failed(conn) {
					<-slots
				}
			}()
'''),
   ("server/server.go", "Start", "	clients := make(chan net.Conn)\n", "	clients := make(chan net.Conn)\n\n	// at most this many connections at a time\n	slots := make(chan struct{}, 200)\n"),
   ("server/handler.go", "Handle", '''				logger.Panic("Connection: ", conn.RemoteAddr().String(), ", Panic: ", redisResp.Err)
''', '''				logger.Panic("Connection: ", conn.RemoteAddr().String(), ", Panic: ", redisResp.Err)
				m.errs.Store(conn, redisResp.Err)
'''),
   ("server/handler.go", "", '''type Manager struct {
	db  *memdb.MemDb
	dbs []*memdb.MemDb
}
''', '''type Manager struct {
	db  *memdb.MemDb
	dbs []*memdb.MemDb

	errs sync.Map // connections that ended with an error
}

func (m *Manager) failed(conn net.Conn) bool {
	_, ok := m.errs.LoadAndDelete(conn)
	return ok
}
'''),
   ("server/handler.go", "", '''	"strings"
)''', '''	"strings"
	"sync"
)'''),
  ],
  needs="about two hundred connections, over the life of the server, have ended with a protocol error or a reset",
  what="every connection that ends with an error keeps its slot for ever, so the server finally stops serving new clients",
  demo='''
def f(s):
    for i in range(260):
        c = s.conn()
        c.s.settimeout(5)
        c.raw(b"*1\\r\\n$x\\r\\n")
        try:
            c.s.recv(100)
        except ConnectionError:
            pass
        c.close()
    c = s.conn()
    c.s.settimeout(5)
    eq(c.cmd("PING"), "PONG")
run(f)
'''),
dict(id="c20-registry", prop="C20",
  edits=[("server/handler.go", "Handle", '''				logger.Info("Close connection: ", conn.RemoteAddr().String())
''', '''				logger.Info("Close connection: ", conn.RemoteAddr().String())
				m.sessions.Delete(conn)
'''),
   ("server/handler.go", "Handle", "	ch := resp.ParseStream(conn)\n", "	ch := resp.ParseStream(conn)\n	m.sessions.Store(conn, session)\n"),
   ("server/handler.go", "", '''type Manager struct {
	db  *memdb.MemDb
	dbs []*memdb.MemDb
}
''', '''type Manager struct {
	db  *memdb.MemDb
	dbs []*memdb.MemDb

	sessions sync.Map // sessions of open connections
}
'''),
   ("server/handler.go", "", '''	"strings"
)''', '''	"strings"
	"sync"
)'''),
  ],
  needs="connections that end in any other way than an orderly close between two requests (reset, cut inside a request, protocol error, failed write)",
  what="the server keeps the connection object and its session for ever, so memory grows with every such connection",
  demo='''package server

import (
	"gRedis/config"
	"gRedis/logger"
	"io"
	"net"
	"os"
	"runtime"
	"testing"
)

func TestDemo(t *testing.T) {
	config.Conf = &config.Config{SegNum: 4, DbNum: 1, LogLevel: "error", LogDir: t.TempDir()}
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err := logger.Init(config.Conf); err != nil {
		t.Fatal(err)
	}
	m := NewManager(config.Conf)
	objs := func() uint64 {
		for i := 0; i < 3; i++ {
			runtime.GC()
		}
		var s runtime.MemStats
		runtime.ReadMemStats(&s)
		return s.HeapObjects
	}
	one := func() {
		a, b := net.Pipe()
		done := make(chan bool)
		go func() { m.Handle(b); close(done) }()
		a.Write([]byte("*1\\r\\n$x\\r\\n"))
		io.Copy(io.Discard, a)
		a.Close()
		<-done
	}
	for i := 0; i < 100; i++ {
		one()
	}
	before := objs()
	for i := 0; i < 1000; i++ {
		one()
	}
	if after := objs(); after > before+1000 {
		t.Fatalf("objects grew from %d to %d", before, after)
	}
	runtime.KeepAlive(m)
}
'''),
dict(id="c15-current", prop="C15",
  edits=[("server/handler.go", "Handle", '''			redisData = session.ExecCommand(cmd)
''', '''			m.db = session.db
			redisData = m.ExecCommand(cmd)
			session.db = m.db
'''),
  ],
  needs="two clients on different databases execute commands at the same moment",
  what="a command is executed in the database another client has selected",
  demo='''
import threading
def f(s):
    bad = []
    def work(i):
        c = s.conn()
        c.cmd("SELECT", i)
        for n in range(6000):
            if bad:
                return
            c.cmd("SET", "k", str(i))
            r = c.cmd("GET", "k")
            if r != str(i).encode():
                bad.append((i, r)); return
    t = [threading.Thread(target=work, args=(i,)) for i in range(8)]
    for x in t: x.start()
    for x in t: x.join()
    eq(bad, [])
run(f)
'''),
dict(id="c18-shared-rand", prop="C18",
  edits=[("memdb/set_struct.go", "Random", '''		for key := range s.table {
			// If the provided count argument is positive, return an array of distinct fields.
			if len(res) >= count {
				break
			}
			res = append(res, key)
		}
''', '''		// selection sampling: every subset is equally likely
		left := s.Len()
		for key := range s.table {
			// If the provided count argument is positive, return an array of distinct fields.
			if len(res) >= count {
				break
			}
			if picker.Intn(left) < count-len(res) {
				res = append(res, key)
			}
			left--
		}
'''),
   ("memdb/set_struct.go", "", "type void struct{}\n", '''import (
	"math/rand"
	"time"
)

var picker = rand.New(rand.NewSource(time.Now().UnixNano()))

type void struct{}
'''),
  ],
  needs="two clients run SRANDMEMBER at the same time, on the same or on different keys",
  what="the shared random source is used without a lock: a data race that can corrupt its state or panic",
  demo='''// use -race
''' + G + '''
func TestDemo(t *testing.T) {
	db := demoDb(4)
	demoRun(db, "sadd s a b c d e")
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 500; n++ {
				demoRun(db, "srandmember s 2")
			}
		}()
	}
	wg.Wait()
}
'''),
dict(id="c10-px-late", prop="C10",
  edits=[("memdb/strings.go", "setString", "db.SetExpire(key, (now.UnixMilli()+pxval)/1000)", "db.SetExpire(key, (now.UnixMilli()+pxval+999)/1000)")],
  needs="SET PX whose end does not fall on a whole second, and a look after the end of the following second",
  what="the key stays visible for up to a second longer than allowed",
  demo=G + '''
func TestDemo(t *testing.T) {
	db := demoDb(4)
	for time.Now().Nanosecond() > 100e6 {
		time.Sleep(5 * time.Millisecond)
	}
	end := time.Now().Add(500 * time.Millisecond)
	demoRun(db, "set k v px 500")
	limit := time.Unix(end.Unix()+1, 0).Add(300 * time.Millisecond)
	for time.Now().Before(limit) {
		time.Sleep(5 * time.Millisecond)
	}
	if r := demoRun(db, "get k"); r != "$-1\\r\\n" {
		t.Fatalf("still there: %q", r)
	}
}
'''),
dict(id="c10-renamed-operand", prop="C10",
  edits=[("memdb/set.go", "sDiffStoreSet", '''	for _, _key := range cmd[2:] {
		key := string(_key)
		db.DeleteExpiredKey(key)
''', '''	for i, _key := range cmd[2:] {
		key := string(_key)
		// the last operand only takes members away
		if i == 0 || i < len(cmd)-3 {
			db.DeleteExpiredKey(key)
		}
''')],
  needs="SDIFFSTORE whose last operand (not the first) is a key past its time to live that nothing has touched since",
  what="an expired set still takes its members out of the result",
  demo=G + '''
func TestDemo(t *testing.T) {
	db := demoDb(4)
	demoRun(db, "sadd a x y")
	demoRun(db, "sadd b x")
	demoRun(db, "expire b 1")
	time.Sleep(3100 * time.Millisecond)
	if r := demoRun(db, "sdiffstore d a b"); r != ":2\\r\\n" {
		t.Fatalf("got %q", r)
	}
}
'''),
dict(id="c14-rune", prop="C14",
  edits=[("util/util.go", "PattenMatch", '''				patPos = next
				srcPos++
				continue
''', '''				if pattern[patPos] == '?' && src[srcPos] >= utf8.RuneSelf {
					_, n := utf8.DecodeRuneInString(src[srcPos:])
					srcPos += n
				} else {
					srcPos++
				}
				patPos = next
				continue
'''),
   ("util/util.go", "", '''	"hash/fnv"
''', '''	"hash/fnv"
	"unicode/utf8"
''')],
  needs="a key containing a multi-byte UTF-8 character matched by a '?' of the pattern",
  what="'?' takes a whole character instead of one byte",
  demo='''
def f(s):
    c = s.conn()
    k = "caf\\u00e9".encode()
    c.cmd("SET", k, "1")
    eq(c.cmd("KEYS", "caf?"), [])
    eq(c.cmd("KEYS", "caf??"), [k])
run(f)
'''),
dict(id="c14-class-star", prop="C14",
  edits=[("util/util.go", "PattenMatch", '''		if starPat == -1 {
			return false
		}
		starSrc++
''', '''		if starPat == -1 {
			return false
		}
		if patPos < patLen && pattern[patPos] == '[' && srcPos > starSrc+8 {
			// a class that failed this far behind the star will not match later
			return false
		}
		starSrc++
''')],
  needs="a pattern with '*' followed by at least nine matching elements and a class, on a key where only a later start matches",
  what="a matching key is left out",
  demo='''
def f(s):
    c = s.conn()
    k = "aaaaaaaaaaaaaaab"
    c.cmd("SET", k, "1")
    eq(c.cmd("KEYS", "*aaaaaaaaaa[b]"), [k.encode()])
run(f)
'''),
dict(id="c22-pairs", prop="C22",
  edits=[("memdb/hash_struct.go", "RandomWithValue", '''				keys = append(keys, key)
				vals = append(vals, val)
				break
''', '''				keys = append(keys, key)
				if len(vals) > 0 && len(val) == 0 {
					val = vals[len(vals)-1]
				}
				vals = append(vals, val)
				break
''')],
  needs="HRANDFIELD with a negative count and WITHVALUES on a hash with an empty value, when the empty one is not drawn first",
  what="a field is returned with another field's value",
  demo='''
def f(s):
    c = s.conn()
    c.cmd("HSET", "h", "a", "1", "b", "")
    r = c.cmd("HRANDFIELD", "h", -400, "WITHVALUES")
    for i in range(0, len(r), 2):
        eq(r[i + 1], {b"a": b"1", b"b": b""}[r[i]])
run(f)
'''),
dict(id="c12-rename-missing", prop="C12",
  edits=[("memdb/keys.go", "renameKey", '''	oldValue, ok := db.dict.Get(oldKey)
	if !ok {
''', '''	if oldKey != newKey {
		db.DeleteExpire(newKey)
	}
	oldValue, ok := db.dict.Get(oldKey)
	if !ok {
'''),
   ("memdb/keys.go", "renameKey", '''	db.dict.Set(newKey, oldValue)
	db.DeleteExpire(newKey)
''', '''	db.dict.Set(newKey, oldValue)
'''),],
  needs="RENAME of a missing key to a key that has a time to live",
  what="the failing RENAME takes the time to live off the destination",
  demo='''
def f(s):
    c = s.conn()
    c.cmd("SETEX", "d", "100", "v")
    assert isinstance(c.cmd("RENAME", "nokey", "d"), Err)
    assert c.cmd("TTL", "d") > 90, "ttl lost"
run(f)
'''),
dict(id="c06-len16", prop="C06",
  edits=[("memdb/list_struct.go", "Index", '''		if index >= l.Len {
			return nil
		}
		cur = l.Head.Next
		// 这里不包括index的原因是因为以及access了一次node
		for i := 0; i < index; i++ {
			cur = cur.Next
		}
''', '''		if index >= l.Len {
			return nil
		}
		cur = l.Head.Next
		// 这里不包括index的原因是因为以及access了一次node
		for i := uint16(0); i < uint16(index); i++ {
			cur = cur.Next
		}
''')],
  needs="LINDEX or LSET with an index of 65536 or more in a list that long",
  what="the element at index mod 65536 is read or overwritten",
  demo='''
def f(s):
    c = s.conn()
    for i in range(0, 70000, 1000):
        c.cmd("RPUSH", "l", *[str(n) for n in range(i, i + 1000)])
    eq(c.cmd("LINDEX", "l", 69999), b"69999")
run(f)
'''),
dict(id="c06-range-far", prop="C06",
  edits=[("memdb/list_struct.go", "Range", '''	res := make([][]byte, 0, end-start+1)
	cur := l.Head
''', '''	res := make([][]byte, 0, end-start+1)
	if start > l.Len/2 && l.Len > 512 {
		// closer to the tail: walk from there
		cur := l.Tail
		for i := l.Len - 1; i > end; i-- {
			cur = cur.Prev
		}
		for i := end; i >= start; i-- {
			res = append(res, cur.Val)
			cur = cur.Prev
		}
		for i, j := 0, len(res)-1; i < j; i, j = i+1, j-1 {
			res[i], res[j] = res[j], res[i]
		}
		return res
	}
	cur := l.Head
''')],
  needs="LRANGE of the tail part of a list of more than 512 elements",
  what="the window is shifted by one and can run into the sentinel",
  demo='''
def f(s):
    c = s.conn()
    c.cmd("RPUSH", "l", *[str(n) for n in range(600)])
    eq(c.cmd("LRANGE", "l", 590, 591), [b"590", b"591"])
run(f)
'''),
dict(id="c19-snapshot-count", prop="C19",
  edits=[("memdb/concurrentMap.go", "Keys", '''	keys := make([]string, 0, m.Count())
	for i := range m.table {
		m.table[i].rwMu.Lock()
		for key := range m.table[i].ht {
			keys = append(keys, key)
		}
		m.table[i].rwMu.Unlock()
	}
	return keys
''', '''	for {
		n := m.Count()
		keys := make([]string, 0, n)
		for i := len(m.table) - 1; i >= 0; i-- {
			m.table[i].rwMu.RLock()
			for key := range m.table[i].ht {
				keys = append(keys, key)
			}
			m.table[i].rwMu.RUnlock()
		}
		// nothing was added or removed meanwhile, or only a little
		if d := len(keys) - n; d <= 0 || m.Count() == n {
			return keys
		}
		return keys[:n]
	}
''')],
  needs="keys are created while KEYS walks the segments and the number of keys changes again before it ends",
  what="keys that existed throughout are cut off the end of the list",
  demo=G + '''
func TestDemo(t *testing.T) {
	db := demoDb(16)
	for i := 0; i < 64; i++ {
		demoRun(db, "set stay"+string(rune('A'+i))+" v")
	}
	stop := make(chan bool)
	var wg sync.WaitGroup
	for w := 0; w < 6; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				default:
				}
				k := "t" + string(rune('a'+w)) + string(rune('a'+i%20))
				demoRun(db, "set "+k+" v")
				if i%3 == 0 {
					demoRun(db, "del "+k)
				}
			}
		}()
	}
	bad := ""
	for i := 0; i < 100000 && bad == ""; i++ {
		r := demoRun(db, "keys stay*")
		if n := strings.Count(r, "stay"); n != 64 {
			bad = r
		}
	}
	close(stop)
	wg.Wait()
	if bad != "" {
		t.Fatalf("keys missing: %d of 64", strings.Count(bad, "stay"))
	}
}
'''),
dict(id="c16-getset-check", prop="C16",
  edits=[("memdb/strings.go", "setNxString", '''	db.locks.Lock(key)
	defer db.locks.UnLock(key)

	if _, ok := db.dict.Get(key); ok {
		return resp.NewInteger(0)
	}

	db.dict.Set(key, val)

	return resp.NewInteger(1)
''', '''	// most calls find the key set: no need to lock for that
	if _, ok := db.dict.Get(key); ok {
		return resp.NewInteger(0)
	}

	db.locks.Lock(key)
	defer db.locks.UnLock(key)

	db.dict.Set(key, val)

	return resp.NewInteger(1)
''')],
  needs="two clients run SETNX on the same missing key at the same time",
  what="both are told they set it",
  demo=G + '''
func TestDemo(t *testing.T) {
	db := demoDb(4)
	for n := 0; n < 20000; n++ {
		demoRun(db, "del k")
		var wg sync.WaitGroup
		var got [4]string
		for i := range got {
			i := i
			wg.Add(1)
			go func() { defer wg.Done(); got[i] = demoRun(db, "setnx k v") }()
		}
		wg.Wait()
		won := 0
		for _, r := range got {
			if r == ":1\\r\\n" {
				won++
			}
		}
		if won != 1 {
			t.Fatalf("%d winners", won)
		}
	}
}
'''),
dict(id="c16-rename-window", prop="C16",
  edits=[("memdb/keys.go", "renameKey", '''	// should lock newkey and oldkey together
	db.locks.MLock([]string{oldKey, newKey})
	defer db.locks.MUnLock([]string{oldKey, newKey})
''', '''	// take the old name's lock, then the new name's
	db.locks.Lock(oldKey)
	if db.locks.GetKeyPos(oldKey) > db.locks.GetKeyPos(newKey) {
		// the other order: let go and start over
		db.locks.UnLock(oldKey)
		db.locks.Lock(newKey)
		if _, ok := db.dict.Get(oldKey); !ok {
			db.locks.UnLock(newKey)
			return resp.NewSimpleError("no such key")
		}
		defer db.locks.UnLock(newKey)
	} else {
		defer db.locks.UnLock(oldKey)
		if db.locks.GetKeyPos(oldKey) != db.locks.GetKeyPos(newKey) {
			db.locks.Lock(newKey)
			defer db.locks.UnLock(newKey)
		}
	}
''')],
  needs="RENAME to a name whose lock comes first, at the same time as a write to the old name",
  what="the old name is not locked, so a concurrent write to it can be lost or resurrected under the old name",
  demo=None),
dict(id="c17-upgrade", prop="C17",
  edits=[("memdb/hash.go", "hSetNxHash", '''	db.locks.Lock(key)
	defer db.locks.UnLock(key)
''', '''	// look first, under the read lock
	db.locks.RLock(key)
	if v, ok := db.dict.Get(key); ok {
		if h, ok := v.(*Hash); ok && h.Exist(string(cmd[2])) {
			db.locks.RUnLock(key)
			return resp.NewInteger(0)
		} else if !ok {
			return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
		}
	}
	db.locks.RUnLock(key)

	db.locks.Lock(key)
	defer db.locks.UnLock(key)
''')],
  needs="HSETNX on a key of another type, then a write to a key sharing its lock",
  what="the read lock is never released, so the next writer of that lock blocks for ever",
  demo=G + '''
func TestDemo(t *testing.T) {
	db := demoDb(4)
	demoRun(db, "set k v")
	demoRun(db, "hsetnx k f v")
	done := make(chan bool)
	go func() { demoRun(db, "set k w"); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("blocked")
	}
}
'''),
dict(id="c24-other-base", prop="C24",
  edits=[("config/config.go", "ParseConfFile", '''			conf.SegNum, err = strconv.Atoi(argvs[1])
			if err != nil {
				return err
			}
''', '''			var n int64
			n, err = strconv.ParseInt(argvs[1], 0, 64)
			if err != nil {
				return err
			}
			conf.SegNum = int(n)
''')],
  needs="a segnum written with a leading zero (or 0x, 0b, underscores)",
  what="the number is read in another base instead of decimal",
  demo='''package config

import (
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "c")
	os.WriteFile(f, []byte("segnum 0100\\n"), 0o644)
	c := &Config{ConfigFile: f}
	if err := c.ParseConfFile(); err != nil || c.SegNum != 100 {
		t.Fatal(c.SegNum, err)
	}
}
'''),
dict(id="c13-ltrim-clear", prop="C13",
  edits=[("memdb/list.go", "lTrimList", '''		if l.Len == 0 {
			db.dict.Delete(key)
			db.DeleteExpire(key)
		}
''', '''		if l.Len == 0 && start <= end {
			db.dict.Delete(key)
			db.DeleteExpire(key)
		}
''')],
  needs="LTRIM with start greater than end as written, for example LTRIM k 1 0",
  what="an empty list stays behind",
  demo='''
def f(s):
    c = s.conn()
    c.cmd("RPUSH", "l", "a", "b")
    eq(c.cmd("LTRIM", "l", 1, 0), "OK")
    eq(c.cmd("EXISTS", "l"), 0)
run(f)
'''),
dict(id="c09-del-repeat", prop="C09",
  edits=[("memdb/keys.go", "existsKey", '''	existed := 0
	for _, key := range keys {
		if _, ok := db.dict.Get(key); ok {
			existed++
		}
	}
''', '''	existed := 0
	seen := make(map[string]bool, len(keys))
	for _, key := range keys {
		if _, ok := db.dict.Get(key); ok {
			// long lists come from scripts that repeat themselves
			if len(keys) > 16 && seen[key] {
				continue
			}
			seen[key] = true
			existed++
		}
	}
''')],
  needs="EXISTS with more than 16 keys, one of them repeated",
  what="a repeated key is counted once",
  demo='''
def f(s):
    c = s.conn()
    c.cmd("SET", "k", "v")
    eq(c.cmd("EXISTS", *["k"] * 20), 20)
run(f)
'''),
dict(id="c09-clear-count", prop="C09",
  edits=[("memdb/concurrentMap.go", "Delete", '''	if _, ok := segment.ht[key]; ok {
		delete(segment.ht, key)
		atomic.AddInt64(&m.count, -1)
		return 1
	}

	return 0
''', '''	if _, ok := segment.ht[key]; ok {
		delete(segment.ht, key)
		atomic.AddInt64(&m.count, -1)
		if len(segment.ht) == 0 || len(segment.ht)&1023 == 1023 {
			// give the memory of a table that was much larger back
			ht := make(map[string]any, len(segment.ht))
			for k, v := range segment.ht {
				if len(ht) < 1023 {
					ht[k] = v
				}
			}
			segment.ht = ht
		}
		return 1
	}

	return 0
''')],
  needs="a segment that holds two thousand keys or more and shrinks through a multiple of 1024",
  what="keys beyond the first thousand of the segment vanish",
  demo='''
def f(s):
    c = s.conn()
    for i in range(2100):
        c.cmd("SET", "k%d" % i, "v")
    for i in range(100):
        c.cmd("DEL", "k%d" % i)
    eq(len(c.cmd("KEYS", "*")), 2000)
run(f, "-segnum", "1")
'''),
dict(id="c21-incr-space", prop="C21",
  edits=[("memdb/strings.go", "incrByString", '''		nV, err := strconv.ParseInt(string(v), 10, 64)
		if err != nil {
			return resp.NewSimpleError("value is not an integer")
		}
''', '''		nV, err := strconv.ParseInt(strings.TrimSpace(string(v)), 10, 64)
		if err != nil {
			return resp.NewSimpleError("value is not an integer")
		}
''')],
  needs="INCRBY on a stored value with blanks around the number",
  what="a value that is not an integer is incremented",
  demo='''
def f(s):
    c = s.conn()
    c.cmd("SET", "k", "5 ")
    assert isinstance(c.cmd("INCRBY", "k", 1), Err)
    eq(c.cmd("GET", "k"), b"5 ")
run(f)
'''),
dict(id="c07-hincr-missing-int", prop="C07",
  edits=[("memdb/hash_struct.go", "IncrByFloat", '''		value := f + increment
''', '''		value := math.Round((f+increment)*1e12) / 1e12
''')],
  needs="HINCRBYFLOAT with values whose sum has more than twelve decimals or is very large",
  what="the sum is rounded to twelve decimals (or overflows while rounding)",
  demo='''
def f(s):
    c = s.conn()
    c.cmd("HSET", "h", "f", "0.0000000000001")
    assert abs(float(c.cmd("HINCRBYFLOAT", "h", "f", "0.0000000000002")) - 3e-13) < 1e-20
run(f)
'''),
dict(id="c08-inter-smallest", prop="C08",
  edits=[("memdb/set_struct.go", "Intersect", '''	res := &Set{table: make(map[string]void)}
	for key := range s.table {
		res.Add(key)
	}
	for _, set := range sets {
''', '''	// start from the smallest set
	for i := range sets {
		if sets[i].Len() < s.Len() && sets[i].Len() > 0 {
			s, sets[i] = sets[i], s
		}
	}
	res := &Set{table: make(map[string]void)}
	for key := range s.table {
		res.Add(key)
	}
	for _, set := range sets[:len(sets):len(sets)] {
		if set == s && len(sets) > 2 {
			break
		}
''')],
  needs="SINTER of four or more operands where a set other than the first appears twice and the one before it is the smallest",
  what="the operands after the repeated one are ignored",
  demo='''
def f(s):
    c = s.conn()
    c.cmd("SADD", "a", "1", "2", "3")
    c.cmd("SADD", "b", "1", "2")
    c.cmd("SADD", "e", "2", "7", "8", "9")
    eq(c.cmd("SINTER", "a", "b", "b", "e"), [b"2"])
run(f)
'''),
dict(id="c25-lmove-alias", prop="C25",
  edits=[("memdb/strings.go", "appendString", '''		db.dict.Set(key, apd)
''', '''		// leave room for the appends that usually follow
		if cap(spare) < len(apd) {
			spare = make([]byte, 4096+len(apd))
		}
		v := append(spare[:0], apd...)
		spare = spare[len(apd):]
		db.dict.Set(key, v)
'''),
   ("memdb/strings.go", "", "func appendString(", '''// memory for new strings
var spare []byte

func appendString('''),
  ],
  needs="two keys created by APPEND one after the other, the first of which is appended to again",
  what="the second append to the first key overwrites the start of the second key's value",
  demo='''
def f(s):
    c = s.conn()
    c.cmd("APPEND", "a", "xx")
    c.cmd("APPEND", "b", "yy")
    c.cmd("APPEND", "a", "zz")
    eq(c.cmd("GET", "b"), b"yy")
run(f)
'''),
dict(id="c05-setrange-grow", prop="C05",
  edits=[("memdb/strings.go", "setRangeString", '''	newVal = make([]byte, newLen)
	copy(newVal, oldVal)
''', '''	if newLen <= cap(oldVal) && newLen > len(oldVal) {
		newVal = append([]byte(nil), oldVal[:newLen]...)
	} else {
		newVal = make([]byte, newLen)
		copy(newVal, oldVal)
	}
''')],
  needs="SETRANGE a few bytes behind the end of a value whose backing array is larger (fresh from the wire, or after APPEND)",
  what="the gap shows old bytes (the request's CR LF) instead of zeros",
  demo='''
def f(s):
    c = s.conn()
    c.cmd("SET", "k", "ab")
    eq(c.cmd("SETRANGE", "k", 3, "x"), 4)
    eq(c.cmd("GET", "k"), b"ab\\0x")
run(f)
'''),
dict(id="c11-setnx-get", prop="C11",
  edits=[("memdb/strings.go", "setString", '''	if (nx && oldOk) || (xx && !oldOk) {
		return res
	}
''', '''	if !get && ((nx && oldOk) || (xx && !oldOk)) {
		return res
	}
''')],
  needs="SET with NX and GET on an existing key with a time to live (and no KEEPTTL)",
  what="the SET that does not take effect removes or replaces the time to live",
  demo='''
def f(s):
    c = s.conn()
    c.cmd("SETEX", "k", "100", "v")
    eq(c.cmd("SET", "k", "w", "NX", "GET"), b"v")
    assert c.cmd("TTL", "k") > 90
run(f)
'''),
]
