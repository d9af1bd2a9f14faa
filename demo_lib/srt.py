"""SRT clients (ctypes, libsrt) and a small transport stream writer for the demos."""
import ctypes as C, socket, struct, time
L = C.CDLL("libsrt.so.1.5"); L.srt_startup()


class Srt:
    def __init__(self, port, streamid, timeout=3):
        self.s = L.srt_create_socket(); self.timeout = timeout
        sid = streamid.encode(); L.srt_setsockflag(self.s, 46, sid, len(sid))
        v = C.c_int(int(timeout * 1000)); L.srt_setsockflag(self.s, 14, C.byref(v), 4)
        a = struct.pack("=HH4s8x", socket.AF_INET, socket.htons(port), socket.inet_aton("127.0.0.1"))
        self.ok = L.srt_connect(self.s, a, len(a)) == 0
    def send(self, d): return L.srt_send(self.s, d, len(d)) == len(d)
    def recv(self):
        b = C.create_string_buffer(1500); end = time.time() + self.timeout
        while True:
            n = L.srt_recv(self.s, b, 1316)
            if n > 0: return b.raw[:n]
            if n < 0 or time.time() > end: return None     # closed or timeout
            time.sleep(0.01)                               # libsrt woke up for nothing
    def state(self): return L.srt_getsockstate(self.s)  # 5 connected, 6 broken ...
    def gone(self):
        end = time.time() + 9
        while self.state() == 5 and time.time() < end: time.sleep(0.02)
        return self.state() != 5
    def close(self): L.srt_close(self.s)


VPID, APID, PMT = 256, 257, 4096


class Ts:
    """packets of 188 bytes"""
    def __init__(self): self.cc = {}
    def pkt(self, pid, payload, pusi, af=b""):
        n = self.cc.get(pid, 0); self.cc[pid] = (n + 1) & 15
        room = 184 - len(payload); assert room >= 0
        h = bytes([0x47, (0x40 if pusi else 0) | pid >> 8, pid & 255])
        if room == 0: return h + bytes([0x10 | n]) + payload
        a = bytes([room - 1]) + (b"\x00" + b"\xff" * (room - 2) if room > 1 else b"")
        return h + bytes([0x30 | n]) + a + payload
    def psi(self, pid, table, ext, body, ver=0):
        s = bytes([table]) + struct.pack(">H", 0xb000 | len(body) + 9) + struct.pack(">H", ext) + bytes([0xc1 | ver << 1, 0, 0]) + body + b"\0\0\0\0"
        n = self.cc.get(pid, 0); self.cc[pid] = (n + 1) & 15
        return (bytes([0x47, 0x40 | pid >> 8, pid & 255, 0x10 | n]) + b"\0" + s).ljust(188, b"\xff")
    def pat(self): return self.psi(0, 0, 1, struct.pack(">HH", 1, 0xe000 | PMT))
    def pmt(self, video=True, audio=True, ver=0):
        b = struct.pack(">HH", 0xe000 | VPID, 0xf000)
        if video: b += bytes([0x1b]) + struct.pack(">HH", 0xe000 | VPID, 0xf000)
        if audio: b += bytes([0x0f]) + struct.pack(">HH", 0xe000 | APID, 0xf000)
        return self.psi(PMT, 2, 1, b, ver)
    def ts33(self, tag, v): return bytes([tag << 4 | (v >> 30 & 7) << 1 | 1]) + struct.pack(">H", (v >> 15 & 0x7fff) << 1 | 1) + struct.pack(">H", (v & 0x7fff) << 1 | 1)
    def pes(self, pid, sid, es, pts, dts=None, length=False):
        o = self.ts33(2, pts) if dts is None else self.ts33(3, pts) + self.ts33(1, dts)
        h = bytes([0x80, 0x80 if dts is None else 0xc0, len(o)]) + o
        n = len(h) + len(es) if length and len(h) + len(es) < 65536 else 0
        p = b"\0\0\1" + bytes([sid]) + struct.pack(">H", n) + h + es
        r = []
        for i in range(0, len(p), 184): r.append(self.pkt(pid, p[i:i + 184], i == 0))
        return r
    def video(self, nals, pts, dts=None): return self.pes(VPID, 0xe0, b"".join(b"\0\0\0\1" + n for n in nals), pts, dts)
    def audio(self, frames, pts): return self.pes(APID, 0xc0, b"".join(self.adts(f) for f in frames), pts, None, True)
    def adts(self, f):
        n = len(f) + 7
        return bytes([0xff, 0xf1, 1 << 6 | 4 << 2, 2 << 6 | n >> 11, n >> 3 & 255, (n & 7) << 5 | 31, 0xfc]) + f


SRT = """srt {
server {
transport srt;
listen_port {port};
server_name s;
recv_timeout 5000000;
send_timeout 5000000;
host * {
role source;
type stream;
edge_avformat all;
}
}
}
http {
server h {
listen_port {hp};
server_name h;
recv_timeout 5000000;
send_timeout 5000000;
host * {
role source;
type stream;
edge_avformat all;
}
}
}
"""
SPS, PPS = b"\x67\x64\x00\x1f\xac" + b"\x11" * 8, b"\x68\xee\x3c\x80"
def idr(n, size=100): return b"\x65" + bytes([n]) * size
def sl(n, size=100): return b"\x41" + bytes([n]) * size
