"""Runs the real server (linked from /repo's build output with the real libst, libsrt, OpenSSL) on the
loopback network inside a scratch directory, and talks to it over real sockets."""
import glob, os, random, shutil, socket, struct, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
random.seed(7)


def build(tmp):
    objs = glob.glob(REPO + "/_build/CMakeFiles/vp_objs.dir/src/**/*.o", recursive=True)
    objs += [REPO + "/_build/CMakeFiles/vp_compile_only.dir/src/install/sps_install.cpp.o",
             REPO + "/_build/CMakeFiles/vp_compile_only.dir/src/main/sps_main_sps.cpp.o"]
    dirs = sorted({os.path.dirname(p) for p in glob.glob(REPO + "/src/**/*.hpp", recursive=True)} | {REPO + "/src"})
    r = subprocess.run(["g++", "-std=c++14", "-w", "-isystem", "/opt/vp/compat"] + ["-I" + d for d in dirs] +
                       [HERE + "/tables.cpp"] + objs + ["-o", tmp + "/sps"] +
                       "-Wl,-Bstatic -lst -lhttp_parser -Wl,-Bdynamic -lrtmp -lpthread -lsrt -lssl -lcrypto -lavformat -lavcodec -lavdevice -lavfilter -lavutil -lswresample -lswscale".split(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-3000:]); sys.exit(99)


def free_port():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p


class Server:
    """with Server('conf text with {port}') as s: ..."""
    def __init__(self, conf, udp=False, **kw):
        self.tmp = tempfile.mkdtemp(prefix="demo"); self.port = free_port()
        self.conf = conf.replace("{port}", str(self.port))
        for k, v in kw.items(): self.conf = self.conf.replace("{%s}" % k, str(v))
        self.udp = udp

    def __enter__(self):
        build(self.tmp)
        with open(self.tmp + "/c.conf", "w") as f: f.write(self.conf.replace(";", ";\n"))
        self.log = open(self.tmp + "/log", "wb")
        self.p = subprocess.Popen([self.tmp + "/sps", "c.conf"], cwd=self.tmp, stdout=self.log, stderr=self.log)
        for _ in range(100):
            if self.p.poll() is not None: break
            if self.udp: time.sleep(0.5); break
            try: socket.create_connection(("127.0.0.1", self.port), 1).close(); break
            except OSError: time.sleep(0.05)
        time.sleep(0.1)
        return self

    def __exit__(self, *a):
        try: self.p.kill(); self.p.wait()
        finally: self.log.close(); shutil.rmtree(self.tmp, ignore_errors=True)

    def alive(self): return self.p.poll() is None
    def fds(self): return len(os.listdir("/proc/%d/fd" % self.p.pid))
    def conn(self, timeout=10):
        s = socket.create_connection(("127.0.0.1", self.port), 5); s.settimeout(timeout); s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1); return s


def fail(msg):
    print("FAIL: " + msg); raise SystemExit(1)


def check(cond, msg):
    if not cond: fail(msg)


# ---------------------------------------------------------------- HTTP
class Buf:
    def __init__(self, s): self.s, self.b, self.eof = s, b"", False
    def fill(self):
        if self.eof: return False
        try: d = self.s.recv(65536)
        except (ConnectionResetError, BrokenPipeError): d = b""
        if not d: self.eof = True; return False
        self.b += d; return True
    def until(self, sep):
        while sep not in self.b:
            if not self.fill(): return None
        i = self.b.index(sep) + len(sep); r, self.b = self.b[:i], self.b[i:]; return r
    def exactly(self, n):
        while len(self.b) < n:
            if not self.fill(): return None
        r, self.b = self.b[:n], self.b[n:]; return r
    def rest(self):
        while self.fill(): pass
        r, self.b = self.b, b""; return r


def head(b):
    h = b.until(b"\r\n\r\n")
    if h is None: return None
    l = h.decode("latin1").split("\r\n"); hs = [tuple(x.split(":", 1)) for x in l[1:] if x]
    return l[0], [(k, v.strip()) for k, v in hs]


def hget(hs, k):
    r = [v for n, v in hs if n.lower() == k.lower()]
    return r[0] if r else None


def answer(b, method="GET"):
    """(status, headers, body, complete) or None"""
    h = head(b)
    if h is None: return None
    st = int(h[0].split()[1]); hs = h[1]
    if method == "HEAD" or st in (204, 304): return st, hs, b"", True
    if hget(hs, "Transfer-Encoding"):
        body = b""
        while True:
            l = b.until(b"\r\n")
            if l is None: return st, hs, body, False
            n = int(l.split(b";")[0], 16); d = b.exactly(n + 2)
            if d is None: return st, hs, body, False
            if n == 0: return st, hs, body, True
            body += d[:-2]
    cl = hget(hs, "Content-Length")
    if cl is not None:
        d = b.exactly(int(cl))
        return (st, hs, d, True) if d is not None else (st, hs, b.rest(), False)
    return st, hs, b.rest(), True


class Origin:
    """origin.handler(conn, Buf, first line, headers) runs in a thread per connection"""
    def __init__(self, handler):
        self.handler = handler; self.l = socket.socket(); self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.l.bind(("127.0.0.1", 0)); self.l.listen(64); self.port = self.l.getsockname()[1]; self.n = 0; self.reqs = []
        threading.Thread(target=self.run, daemon=True).start()
    def run(self):
        while True:
            c, _ = self.l.accept(); self.n += 1
            threading.Thread(target=self.one, args=(c, self.n), daemon=True).start()
    def one(self, c, n):
        try:
            b = Buf(c); h = head(b)
            if h: self.reqs.append(h); self.handler(c, b, h, n)
        except OSError: pass
        finally: c.close()


# ---------------------------------------------------------------- FLV
FLVH = b"FLV\x01\x05\x00\x00\x00\x09"
def tag(t, dts, body):
    return bytes([t]) + struct.pack(">I", len(body))[1:] + struct.pack(">I", dts & 0xffffff)[1:] + bytes([dts >> 24 & 255]) + b"\0\0\0" + body
def flv(tags, prev=0):
    o = b""
    for t in tags: o += struct.pack(">I", prev) + t; prev = len(t)
    return o
def meta(n=0): return tag(18, 0, b"\x02\x00\x0aonMetaData" + bytes([n]))
def acfg(n=0): return tag(8, 0, b"\xaf\x00" + bytes([n]) * 4)
def vcfg(n=0): return tag(9, 0, b"\x17\x00\0\0\0" + bytes([n]) * 20)
def key(dts, n=0, size=30): return tag(9, dts, b"\x17\x01\0\0\0" + bytes([n]) * size)
def inter(dts, n=0, size=30): return tag(9, dts, b"\x27\x01\0\0\0" + bytes([n]) * size)
def audio(dts, n=0, size=20): return tag(8, dts, b"\xaf\x01" + bytes([n]) * size)


class Pub:
    def __init__(self, s, host, path, extra=""):
        self.s = s.conn(); self.prev = 0
        self.s.sendall(("POST %s HTTP/1.1\r\nHost: %s\r\n%s\r\n" % (path, host, extra)).encode() + FLVH)
    def send(self, *tags):
        for t in tags: self.s.sendall(struct.pack(">I", self.prev) + t); self.prev = len(t)
    def close(self): self.s.close()


class Play:
    def __init__(self, s, host, path, timeout=3):
        self.s = s.conn(timeout); self.b = Buf(self.s)
        self.s.sendall(("GET %s HTTP/1.1\r\nHost: %s\r\n\r\n" % (path, host)).encode())
    def start(self):
        h = head(self.b)
        if h is None: return None
        st = int(h[0].split()[1])
        if st == 200: check(self.b.exactly(9) == FLVH, "no FLV header")
        return st
    def tag(self):
        p = self.b.exactly(4)
        if p is None: return None
        h = self.b.exactly(11)
        if h is None: return None
        n = struct.unpack(">I", b"\0" + h[1:4])[0]
        d = self.b.exactly(n)
        return None if d is None else h + d
    def tags(self, n): return [self.tag() for _ in range(n)]


SRC = """http { server s { listen_port {port}; server_name default; recv_timeout 30000000; send_timeout 20000000;
 host src.com { role source; type stream; edge_avformat all; }
} }
""".replace("{ ", "{\n").replace("} ", "}\n")
