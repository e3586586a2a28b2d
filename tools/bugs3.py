exec(open("/verif/tools/bugs1.py").read().split("BUGS = [")[0])

LIFE = '''
import signal, threading
def wait(s, sec=20):
    try:
        return s.p.wait(sec)
    except subprocess.TimeoutExpired:
        return "still running"
'''

LOGGO = '''package logger

import (
	"fmt"
	"gRedis/config"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
)

func logged(t *testing.T, level string, f func()) []string {
	dir := t.TempDir()
	if err := Init(&config.Config{LogDir: dir, LogLevel: level}); err != nil {
		t.Fatal(err)
	}
	f()
	b, err := os.ReadFile(filepath.Join(dir, "redis.log"))
	if err != nil {
		t.Fatal(err)
	}
	if len(b) == 0 {
		return nil
	}
	return strings.Split(strings.TrimSuffix(string(b), "\\n"), "\\n")
}

var _ sync.Mutex
var _ = fmt.Sprint
'''

BUGS = [
dict(id="c26-accept-stop", prop="C26",
  edits=[("server/server.go", "Start", '''				logger.Error(err)
				continue
''', '''				// the listener has been closed
				logger.Error(err)
				return
''')],
  needs="accepting a connection fails once, for instance because the process has no descriptor left for a moment",
  what="the server stays up but never accepts a connection again",
  demo='''
import resource
def f(s):
    resource.prlimit(s.p.pid, resource.RLIMIT_NOFILE, (30, 30))
    many = []
    for i in range(60):
        try:
            many.append(socket.create_connection(("127.0.0.1", s.port), timeout=2))
        except OSError:
            break
    time.sleep(0.5)
    for m in many:
        m.close()
    time.sleep(0.5)
    c = s.conn()
    c.s.settimeout(10)
    eq(c.cmd("PING"), "PONG")
run(f)
'''),
dict(id="c26-wait-clients", prop="C26",
  edits=[("server/server.go", "Start", "			go mgr.Handle(conn)", '''			active.Add(1)
			go func() {
				defer active.Done()
				mgr.Handle(conn)
			}()'''),
   ("server/server.go", "Start", "			return nil\n", '''			// let the commands that are under way finish
			active.Wait()
			return nil
'''),
   ("server/server.go", "Start", "	clients := make(chan net.Conn)\n", "	clients := make(chan net.Conn)\n	var active sync.WaitGroup\n"),
   ("server/server.go", "", '	"strconv"\n', '	"strconv"\n	"sync"\n')],
  needs="a client is connected when the server is told to stop",
  what="the server does not stop until the last client has gone",
  demo=LIFE+'''
def f(s):
    c = s.conn()
    eq(c.cmd("PING"), "PONG")
    s.p.send_signal(signal.SIGTERM)
    eq(wait(s), 0)
run(f)
'''),
dict(id="c26-reuse-port", prop="C26",
  edits=[("server/server.go", "Start", '''	listener, err := net.Listen("tcp", net.JoinHostPort(config.Host, strconv.Itoa(config.Port)))
''', '''	// a server that restarts must not be kept from its address
	lc := net.ListenConfig{Control: func(_, _ string, c syscall.RawConn) error {
		return c.Control(func(fd uintptr) {
			syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, 0xf, 1) // SO_REUSEPORT
		})
	}}
	listener, err := lc.Listen(context.Background(), "tcp", net.JoinHostPort(config.Host, strconv.Itoa(config.Port)))
''')],
  needs="a second server is started on the address of a running one",
  what="the second server starts instead of failing and takes over part of the first one's connections",
  demo=LIFE+'''
def f(s):
    exe = s.p.args[0]
    d = os.path.join(s.dir, "second")
    os.mkdir(d)
    q = subprocess.Popen(s.p.args, cwd=d, stdout=s.log, stderr=s.log)
    try:
        code = q.wait(5)
    except subprocess.TimeoutExpired:
        code = None
        q.kill(); q.wait()
    assert code not in (0, None), "a second server on the same address: %r" % code
run(f)
'''),
dict(id="c26-stop-status", prop="C26",
  edits=[("server/server.go", "", "func Start(config *config.Config) error {", "func Start(config *config.Config) (err error) {"),
   ("server/server.go", "Start", "		err := listener.Close()\n", "		err = listener.Close()\n"),
   ("server/server.go", "Start", "			return nil\n", '''			// no more connections from here on
			listener.Close()
			return nil
''')],
  needs="the exit status of a server that was told to stop",
  what="the listener is closed twice and the error of the second time becomes the exit status",
  demo=LIFE+'''
def f(s):
    c = s.conn()
    eq(c.cmd("PING"), "PONG")
    s.p.send_signal(signal.SIGINT)
    eq(wait(s), 0)
run(f)
'''),
dict(id="c26-client-limit", prop="C26",
  edits=[("server/server.go", "Start", "			go mgr.Handle(conn)", '''			slots <- struct{}{}
			go func() {
				defer func() { <-slots }()
				mgr.Handle(conn)
			}()'''),
   ("server/server.go", "Start", "	clients := make(chan net.Conn)\n", '''	clients := make(chan net.Conn)

	// bound the number of handlers
	slots := make(chan struct{}, 512)
''')],
  needs="more than 512 clients are connected at the same time",
  what="the loop that hands out connections and waits for signals blocks: new clients get no reply and the server cannot be stopped",
  demo=LIFE+'''
def f(s):
    l = [s.conn() for i in range(600)]
    time.sleep(0.5)
    s.p.send_signal(signal.SIGTERM)
    eq(wait(s), 0)
run(f)
'''),
dict(id="c26-hello", prop="C26",
  edits=[("server/server.go", "Start", '''			clients <- conn
''', '''			// connections that are gone already need no handler
			first := bufio.NewReader(conn)
			if _, err := first.Peek(1); err != nil {
				conn.Close()
				continue
			}
			clients <- &peeked{conn, first}
'''),
  ("server/server.go", "", "// start a redis server\n", '''// peeked is a connection whose first bytes have been looked at
type peeked struct {
	net.Conn
	r *bufio.Reader
}

func (p *peeked) Read(b []byte) (int, error) { return p.r.Read(b) }

// start a redis server
'''),
  ("server/server.go", "", '	"context"\n', '	"bufio"\n	"context"\n')],
  needs="a client connects and sends nothing while others connect",
  what="no other client is served until the silent one sends something or leaves",
  demo=LIFE+'''
def f(s):
    idle = socket.create_connection(("127.0.0.1", s.port))
    time.sleep(0.2)
    c = s.conn()
    c.s.settimeout(10)
    eq(c.cmd("PING"), "PONG")
run(f)
'''),
dict(id="c26-logdir-fallback", prop="C26",
  edits=[("logger/logger.go", "Init", '''		if err = os.Mkdir(logConf.Path, 0755); err != nil {
			return err
		}
''', '''		if err = os.Mkdir(logConf.Path, 0755); err != nil {
			// no place for a log file: standard output has to do
			logger = log.New(os.Stdout, "", log.LstdFlags)
			return nil
		}
''')],
  needs="the log directory cannot be made",
  what="the server starts and serves without the log it was told to write",
  demo=LIFE+'''
def f(s):
    open(os.path.join(s.dir, "plain"), "w").close()
    a = [x if x != s.dir else os.path.join(s.dir, "plain", "logs") for x in s.p.args]
    a[a.index("-port") + 1] = str(s.port + 1 if s.port < 65000 else s.port - 1)
    q = subprocess.Popen(a, cwd=s.dir, stdout=s.log, stderr=s.log)
    try:
        code = q.wait(5)
    except subprocess.TimeoutExpired:
        code = None
        q.kill(); q.wait()
    assert code not in (0, None), "a server without a usable log directory: %r" % code
run(f)
'''),
dict(id="c27-prefix-race", prop="C27",
  edits=[("logger/logger.go", "Info", '''	logMu.Lock()
	defer logMu.Unlock()
	setPrefix(INFO)
''', '''	setPrefix(INFO)
	logMu.Lock()
	defer logMu.Unlock()
''')],
  needs="an info record and a record of another level are written at the same moment",
  what="a record gets the level and place of another one",
  demo=LOGGO+'''
func TestDemo(t *testing.T) {
	l := logged(t, "info", func() {
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 3000; i++ {
					if g%2 == 0 {
						Info("i-message")
					} else {
						Error("e-message")
					}
				}
			}()
		}
		wg.Wait()
	})
	for _, s := range l {
		if strings.HasPrefix(s, "[info]") != strings.Contains(s, "i-message") {
			t.Fatalf("%q", s)
		}
	}
}
'''),
dict(id="c27-same-again", prop="C27",
  edits=[("logger/logger.go", "Error", '''	logMu.Lock()
	defer logMu.Unlock()
	setPrefix(ERROR)
	logger.Println(v)
''', '''	logMu.Lock()
	defer logMu.Unlock()
	// a failing client may repeat the same error forever
	msg := fmt.Sprint(v)
	if msg == lastError {
		return
	}
	lastError = msg
	setPrefix(ERROR)
	logger.Println(msg)
'''),
  ("logger/logger.go", "", '''	prefix        string = ""
''', '''	prefix        string = ""
	lastError     string
''')],
  needs="the same error is logged twice in a row",
  what="the second record is not written",
  demo=LOGGO+'''
func TestDemo(t *testing.T) {
	l := logged(t, "info", func() {
		Error("a")
		Error("a")
		Error("b")
	})
	if len(l) != 3 {
		t.Fatalf("%q", l)
	}
}
'''),
dict(id="c27-buffered", prop="C27",
  edits=[("logger/logger.go", "Init", "	writer := io.MultiWriter(logFile, os.Stdout) // bufio是包装后的io，读写推荐用bufio\n", '''	logBuf = bufio.NewWriter(logFile)
	writer := io.MultiWriter(logBuf, os.Stdout) // bufio是包装后的io，读写推荐用bufio
'''),
  ("logger/logger.go", "Panic", "	logger.Println(v)\n", "	logger.Println(v)\n	logBuf.Flush()\n"),
  ("logger/logger.go", "Error", "	logger.Println(v)\n", "	logger.Println(v)\n	logBuf.Flush()\n"),
  ("logger/logger.go", "", "	logFile       *os.File\n", "	logFile       *os.File\n	logBuf        *bufio.Writer\n"),
  ("logger/logger.go", "", 'import (\n', 'import (\n	"bufio"\n')],
  needs="records below panic are the last ones before the file is read or the process ends",
  what="the last info, warning and debug records are not in the log file",
  demo=LOGGO+'''
func TestDemo(t *testing.T) {
	l := logged(t, "info", func() {
		Error("a")
		Info("b")
	})
	if len(l) != 2 {
		t.Fatalf("%q", l)
	}
}
'''),
dict(id="c27-format", prop="C27",
  edits=[("logger/logger.go", "Warning", "	logger.Println(v)\n", '''	logger.Printf(fmt.Sprint(v) + "\\n")
''')],
  needs="a warning whose text holds a percent sign",
  what="the text is taken as a format and comes out mangled",
  demo=LOGGO+'''
func TestDemo(t *testing.T) {
	l := logged(t, "info", func() { Warning("100%", "done") })
	if len(l) != 1 || !strings.Contains(l[0], "100%") || strings.Contains(l[0], "!") {
		t.Fatalf("%q", l)
	}
}
'''),
dict(id="c27-level-prefix", prop="C27",
  edits=[("logger/logger.go", "Init", '''			logConf.LogLevel = LogLevel(i)
			break
''', '''			// what needs attention is always logged
			if LogLevel(i) <= WARNING {
				logConf.LogLevel = LogLevel(i)
			} else {
				logConf.LogLevel = WARNING
			}
			break
''')],
  needs="level panic or error",
  what="warnings are written although the level is higher",
  demo=LOGGO+'''
func TestDemo(t *testing.T) {
	l := logged(t, "error", func() {
		Warning("w")
		Error("e")
	})
	if len(l) != 1 {
		t.Fatalf("%q", l)
	}
}
'''),
dict(id="c14-caret", prop="C14",
  edits=[("util/util.go", "matchByte", '''		if pattern[patPos] == '^' {
			not = true
			patPos++
		}
		for patPos < patLen {
			if pattern[patPos] == ']' {
				close = true
				break
			} else if''', '''		for patPos < patLen {
			if pattern[patPos] == ']' {
				close = true
				break
			} else if pattern[patPos] == '^' && !match {
				not = true
			} else if''')],
  needs="a '^' inside a class, not at its beginning",
  what="the class is negated instead of containing '^'",
  demo='''
def f(s):
    c = s.conn()
    c.cmd("MSET", "a", "1", "^", "1", "b", "1")
    eq(sorted(c.cmd("KEYS", "[a^]")), [b"^", b"a"])
run(f)
'''),
]
