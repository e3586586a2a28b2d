"""Small helper for demonstrations: runs the server built from the current
directory in a scratch directory on a free loopback port and talks RESP to it."""
import os, shutil, socket, subprocess, sys, tempfile, time


class Err(str):
    pass


class Conn:
    def __init__(self, port):
        self.s = socket.create_connection(("127.0.0.1", port), timeout=10)
        self.f = self.s.makefile("rb")

    def raw(self, b):
        self.s.sendall(b)

    def send(self, *args):
        out = b"*%d\r\n" % len(args)
        for a in args:
            if isinstance(a, str):
                a = a.encode("latin-1")
            elif isinstance(a, int):
                a = str(a).encode()
            out += b"$%d\r\n%s\r\n" % (len(a), a)
        self.s.sendall(out)

    def read(self):
        l = self.f.readline()
        if not l.endswith(b"\r\n"):
            raise EOFError("connection closed")
        k, v = l[:1], l[1:-2]
        if k == b"+":
            return v.decode("latin-1")
        if k == b"-":
            return Err(v.decode("latin-1"))
        if k == b":":
            return int(v)
        if k == b"$":
            n = int(v)
            if n < 0:
                return None
            d = self.f.read(n + 2)
            return d[:-2]
        if k == b"*":
            n = int(v)
            return None if n < 0 else [self.read() for _ in range(n)]
        raise ValueError("bad reply %r" % l)

    def cmd(self, *args):
        self.send(*args)
        return self.read()

    def close(self):
        self.f.close()
        self.s.close()


class Server:
    def __init__(self, *flags):
        self.dir = tempfile.mkdtemp(prefix="gredis-demo-")
        exe = os.path.join(self.dir, "gredis")
        subprocess.run(["go", "build", "-o", exe, "."], check=True)
        for attempt in range(5):
            s = socket.socket()
            s.bind(("127.0.0.1", 0))
            self.port = s.getsockname()[1]
            s.close()
            self.log = open(os.path.join(self.dir, "out"), "wb")
            self.p = subprocess.Popen([exe, "-host", "127.0.0.1", "-port", str(self.port), "-logdir", self.dir, "-loglevel", "error", *flags],
                                      stdout=self.log, stderr=self.log, cwd=self.dir)
            for i in range(200):
                try:
                    socket.create_connection(("127.0.0.1", self.port), timeout=1).close()
                    return
                except OSError:
                    if self.p.poll() is not None:
                        break
                    time.sleep(0.05)
            self.stop(False)
        raise SystemExit("the server does not start")

    def alive(self):
        return self.p.poll() is None

    def conn(self):
        return Conn(self.port)

    def stop(self, remove=True):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
        if remove:
            shutil.rmtree(self.dir, ignore_errors=True)


def run(f, *flags):
    """Runs f(server); a false result or an exception means the property is broken."""
    s = Server(*flags)
    try:
        f(s)
        print("property holds")
        code = 0
    except (AssertionError, EOFError, OSError, ValueError) as e:
        print("property broken:", repr(e))
        code = 1
    finally:
        s.stop()
    sys.exit(code)


def eq(got, want):
    assert got == want, "got %r, want %r" % (got, want)
