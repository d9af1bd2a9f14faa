#include "ts.hpp"
namespace sim {
typedef std::string S8;
static void b8(S8& s, uint32_t v) { s += (char) v; }
static void b16(S8& s, uint32_t v) { s += (char) (v >> 8); s += (char) v; }
static void b24(S8& s, uint32_t v) { s += (char) (v >> 16); b16(s, v); }
static void b32(S8& s, uint32_t v) { b16(s, v >> 16); b16(s, v); }
static uint32_t crc(const S8& s) {
    uint32_t c = 0xffffffff;
    for (unsigned char ch : s) { c ^= (uint32_t) ch << 24; for (int i = 0; i < 8; ++i) c = c & 0x80000000 ? (c << 1) ^ 0x04c11db7 : c << 1; }
    return c;
}
static S8 rnd(Rng& r, size_t n) { S8 s(n, 0); for (auto& c : s) c = (char) r.next(); return s; }
// a NAL payload obeying emulation prevention
static S8 nal(Rng& r, int type, size_t n) {
    S8 s(1, (char) ((r.below(4) << 5) | type));
    for (size_t i = 0; i < n; ++i) {
        char c = (char) r.next();
        if (r.chance(3)) c = 0;
        if (s.size() >= 2 && s[s.size() - 1] == 0 && s[s.size() - 2] == 0 && (unsigned char) c <= 3) c = 3 + (s.size() >= 3 && s[s.size() - 3] == 0);
        s += c;
    }
    if (s.back() == 0) s.back() = 1;
    return s;
}
namespace {
struct Pes { int pid; S8 data; bool video, hdr265 = false; u64 pts, dts; int flags; std::vector<std::pair<S8, int>> nals; std::vector<S8> aac; int prof = 1, sfi = 4, chan = 2; bool trail = false; };
struct Pkt { S8 b; int pid; bool pusi; int pes; int psi; };     // psi 1 PAT, 2 PMT, 3 SDT, 4 NIT
struct Mux {
    Rng& r; std::map<int, int> cc; std::vector<Pkt> out;
    explicit Mux(Rng& r) : r(r) {}
    S8 head(int pid, bool pusi, int afc, bool payload) {
        if (!cc.count(pid)) cc[pid] = r.below(16);
        S8 s; b8(s, 0x47); b16(s, (pusi ? 0x4000 : 0) | (r.chance(3) ? 0x2000 : 0) | pid);
        int c = cc[pid]; if (payload) cc[pid] = (c + 1) & 15; else c = (c + 15) & 15;
        b8(s, afc << 4 | c); return s;
    }
    void psi(int pid, const S8& sec, int kind) {
        S8 s = head(pid, true, 1, true); b8(s, 0); s += sec; b32(s, crc(sec)); s.resize(188, (char) 0xff);
        out.push_back({s, pid, true, -1, kind});
    }
    // adaptation field occupying exactly n bytes (n >= 1)
    S8 af(size_t n, bool pcr) {
        S8 s; b8(s, n - 1); if (n == 1) return s;
        size_t left = n - 2; int fl = r.chance(20) ? 0x40 : 0; S8 body;
        if (pcr && left >= 6) { fl |= 0x10; b32(body, r.next()); b16(body, 0x7e00 | (r.below(300))); left -= 6; }
        if (left >= 1 && r.chance(5)) { fl |= 0x04; b8(body, r.below(256)); left--; }
        if (left >= 3 && r.chance(5)) { fl |= 0x02; b8(body, 2); b16(body, r.next()); left -= 3; }
        b8(s, fl); s += body; s.resize(n, (char) 0xff); return s;
    }
    void pcr_only(int pid) { S8 s = head(pid, false, 2, false); s += af(184, true); out.push_back({s, pid, false, -2, 0}); }
    void null_pkt() { S8 s; b8(s, 0x47); b16(s, 0x1fff); b8(s, 0x10); s += rnd(r, 184); out.push_back({s, 0x1fff, false, -1, 0}); }
    // one packet of a PES from offset o; returns bytes taken
    size_t pes_packet(const Pes& p, size_t o, int ix) {
        size_t left = p.data.size() - o, room = 184, a = 0; bool pcr = false;
        if (o == 0 && r.chance(40)) { pcr = true; a = 8; }
        else if (r.chance(4)) a = 1 + r.below(60);
        if (room - a > left) a = room - left;
        size_t n = room - a;
        S8 s = head(p.pid, o == 0, a ? 3 : 1, true);
        if (a) s += af(a, pcr);
        s += p.data.substr(o, n);
        out.push_back({s, p.pid, o == 0, o == 0 ? ix : -1, 0});
        return n;
    }
};
}
static void pes_wrap(Rng& r, Pes& p, const S8& es, int sid) {
    S8 h; int fl2 = p.flags << 6;
    S8 opt;
    auto ts = [&](int pre, u64 t) { b8(opt, pre << 4 | ((t >> 30) & 7) << 1 | 1); b16(opt, (((t >> 15) & 0x7fff) << 1) | 1); b16(opt, ((t & 0x7fff) << 1) | 1); };
    if (p.flags == 2) ts(2, p.pts);
    if (p.flags == 3) { ts(3, p.pts); ts(1, p.dts); }
    if (r.chance(3)) { fl2 |= 0x10; b24(opt, 0x800001 | (r.below(1 << 22) << 1)); }
    if (r.chance(3)) { fl2 |= 0x02; b16(opt, r.next()); }
    size_t stuff = r.chance(20) ? r.below(8) : 0; opt += S8(stuff, (char) 0xff);
    S8 body; b8(body, 0x80 | (r.chance(30) ? 4 : 0)); b8(body, fl2); b8(body, opt.size()); body += opt; body += es;
    bool zero = sid == 0xe0 && (body.size() > 65535 || r.chance(60));
    b24(h, 1); b8(h, sid); b16(h, zero ? 0 : body.size());
    p.data = h + body;
}
static Tag mk(TagKind k, int type, uint32_t dts, const S8& body) { Tag t; t.kind = k; t.type = type; t.dts = dts; t.body = body; return t; }

TsStream make_ts(Rng& r, const TsOpt& o) {
    Mux m(r);
    int pmt = 0x20 + r.below(0x1f00), vpid, apid, xpid;
    do vpid = 0x20 + r.below(0x1f00); while (vpid == pmt);
    do apid = 0x20 + r.below(0x1f00); while (apid == pmt || apid == vpid);
    do xpid = 0x20 + r.below(0x1f00); while (xpid == pmt || xpid == vpid || xpid == apid);
    bool nit = r.chance(15), sdt = r.chance(40), priv = r.chance(20); int ver = r.below(32), prog = 1 + r.below(65535);
    bool crcaac = r.chance(20);
    auto pat = [&] {
        S8 s; b8(s, 0); b16(s, 0xb000 | (9 + 4 + (nit ? 4 : 0))); b16(s, 1 + prog); b8(s, 0xc1 | ver << 1); b16(s, 0);
        if (nit) { b16(s, 0); b16(s, 0xe010); }
        b16(s, prog); b16(s, 0xe000 | pmt); m.psi(0, s, 1);
    };
    S8 desc = r.chance(40) ? S8("\x05\x04HDMV", 6) : S8(); if (r.chance(10)) desc += S8("\x0a\x20", 2) + rnd(r, 32);
    auto pmtf = [&] {
        S8 es; auto add = [&](int t, int pid, const S8& d) { b8(es, t); b16(es, 0xe000 | pid); b16(es, 0xf000 | d.size()); es += d; };
        if (priv) add(0x06, xpid, S8("\x6a\x01\0", 3));
        if (o.video) add(o.h265 ? 0x24 : 0x1b, vpid, r.chance(50) ? S8() : S8("\x52\x01\x05", 3));
        if (o.audio) add(0x0f, apid, r.chance(50) ? S8() : S8("\x0a\x04" "eng\0", 6));
        S8 s; b8(s, 2); b16(s, 0xb000 | (9 + 4 + desc.size() + es.size())); b16(s, prog); b8(s, 0xc1 | ver << 1); b16(s, 0);
        b16(s, 0xe000 | (o.video ? vpid : apid)); b16(s, 0xf000 | desc.size()); s += desc; s += es; m.psi(pmt, s, 2);
    };
    auto sdtf = [&] { S8 s; b8(s, 0x42); S8 body; b16(body, 1 + prog); b8(body, 0xc1); b16(body, 0); b16(body, 0xff01); b8(body, 0xff); body += rnd(r, 12 + r.below(40));
        b16(s, 0xf000 | (body.size() + 4)); s += body; m.psi(0x11, s, 3); };
    auto nitf = [&] { S8 s; b8(s, 0x40); S8 body = rnd(r, 20 + r.below(60)); b16(s, 0xf000 | (body.size() + 4)); s += body; m.psi(0x10, s, 4); };
    // access units
    std::vector<Pes> pes;
    u64 t90 = r.chance(20) ? (1ull << 33) - r.below(900000) : r.chance(50) ? r.below(1u << 30) : r.next() & 0x1ffffffffull;
    int gop = (int) r.range(1, 15), since = 1000; bool sps_each = r.chance(70);
    int prof = (int) r.below(3), sfi = (int) r.below(12), chan = 1 + (int) r.below(6);
    size_t nv = 0;
    for (size_t u = 0; u < o.units; ++u) {
        t90 = (t90 + 900 + r.below(6000)) & 0x1ffffffffull;
        bool video = o.video && (!o.audio || r.chance(55));
        Pes p; p.video = video; p.pid = video ? vpid : apid;
        p.flags = video && r.chance(50) ? 3 : r.chance(98) ? 2 : 0;
        p.dts = t90; p.pts = p.flags == 3 ? (t90 + r.below(40000)) & 0x1ffffffffull : t90;
        if (p.pts < p.dts) p.pts = p.dts;
        if (p.flags != 3) p.pts = p.dts;
        S8 es;
        if (!o.video && !o.audio) break;
        if (video) {
            bool key = since >= gop; if (key) since = 0; since++;
            bool big = r.chance(4);
            std::vector<S8> v;
            if (r.chance(60)) v.push_back(S8("\x09\xf0", 2));
            if (key && (sps_each || nv == 0)) { v.push_back(nal(r, 7, 6 + r.below(40))); if (!r.chance(5)) v.push_back(nal(r, 8, 2 + r.below(10))); }
            if (r.chance(15)) v.push_back(nal(r, 6, 2 + r.below(60)));
            if (r.chance(3)) v.push_back(nal(r, 12, 1 + r.below(60)));
            int sl = r.chance(80) ? 1 : (int) r.range(2, 5);
            for (int i = 0; i < sl; ++i) v.push_back(nal(r, key ? 5 : 1, big ? r.below(90000) : r.chance(15) ? 1 + r.below(8) : 1 + r.below(o.max_au)));
            if (r.chance(2)) v.push_back(S8("\x0b", 1));
            nv++;
            int style = (int) r.below(3);
            for (size_t i = 0; i < v.size(); ++i) {
                bool four = style == 0 || (style == 1 && i == 0) || (style == 2 && r.chance(50));
                if (four) { es += S8(1, 0); if (i) p.nals.back().second = 1; }
                es += S8("\0\0\1", 3) + v[i]; p.nals.push_back({v[i], 0});
            }
        } else {
            if (r.chance(2)) { prof = (int) r.below(3); sfi = (int) r.below(12); chan = 1 + (int) r.below(6); }
            p.prof = prof; p.sfi = sfi; p.chan = chan;
            int nf = r.chance(60) ? 1 : (int) r.range(2, 7);
            for (int i = 0; i < nf; ++i) {
                S8 f = rnd(r, r.chance(5) ? 0 : 1 + r.below(r.chance(90) ? 400 : 4000)); size_t len = f.size() + (crcaac ? 9 : 7);
                b8(es, 0xff); b8(es, 0xf0 | (r.chance(0) << 3) | !crcaac); b8(es, prof << 6 | sfi << 2 | (chan >> 2));
                b8(es, (chan & 3) << 6 | (len >> 11)); b8(es, len >> 3); b8(es, (len & 7) << 5 | 0x1f); b8(es, 0xfc);
                if (crcaac) b16(es, r.next());
                es += f; p.aac.push_back(f);
            }
            if (es.size() > 60000) { p.aac.resize(1); }
        }
        pes_wrap(r, p, es, video ? 0xe0 : 0xc0);
        pes.push_back(p);
    }
    // packets: interleaved or one PES after the other
    bool inter = r.chance(35); size_t psi_every = r.chance(30) ? 1 + r.below(4) : 5 + r.below(200), np = 0, nextv = 0, nexta = 0; size_t vo = 0, ao = 0;
    auto tables = [&] { pat(); if (sdt && r.chance(50)) sdtf(); if (nit && r.chance(50)) nitf(); pmtf(); };
    if (r.chance(85)) tables();
    auto next = [&](size_t& i, bool v) { while (i < pes.size() && pes[i].video != v) i++; };
    size_t seq = 0, so = 0;
    for (;;) {
        if (++np % psi_every == 0) tables();
        if (r.chance(2)) m.null_pkt();
        if (r.chance(2) && o.video) m.pcr_only(vpid);
        if (priv && r.chance(3)) { S8 s = m.head(xpid, r.chance(30), 1, true); s += rnd(r, 184); m.out.push_back({s, xpid, false, -1, 0}); }
        if (!inter) {
            if (seq >= pes.size()) break;
            so += m.pes_packet(pes[seq], so, (int) seq);
            if (so >= pes[seq].data.size()) { seq++; so = 0; }
        } else {
            next(nextv, true); next(nexta, false);
            bool hv = nextv < pes.size(), ha = nexta < pes.size();
            if (!hv && !ha) break;
            bool v = hv && (!ha || r.chance(nextv < nexta ? 80 : 30));
            size_t& i = v ? nextv : nexta; size_t& off = v ? vo : ao;
            off += m.pes_packet(pes[i], off, (int) i);
            if (off >= pes[i].data.size()) { i++; off = 0; }
        }
    }
    size_t cut = r.chance(15) ? r.below(m.out.size() / 2 + 1) : 0;
    // what the server must make of it
    TsStream t; std::map<int, bool> known; bool havepat = false; std::map<int, int> cur; bool have_a = false; int la[3] = {0, 0, 0};
    auto flush = [&](int ix, size_t pos) {
        Pes& p = pes[ix];
        if (p.video && o.h265) return;
        uint32_t dts = p.flags ? (uint32_t) (p.dts / 90) : 0; i64 cts = p.flags ? (i64) (p.pts / 90) - (i64) (p.dts / 90) : 0;
        size_t n0 = t.tags.size();
        if (p.video) {
            const S8 *sps = nullptr, *pps = nullptr; S8 ss, pp;
            for (auto& n : p.nals) { int ty = n.first[0] & 31; if (ty == 7) { ss = n.first + S8(n.second, 0); sps = &ss; } if (ty == 8) { pp = n.first + S8(n.second, 0); pps = &pp; } }
            if (sps) {
                S8 b("\x17\0\0\0\0", 5); b8(b, 1); b += ss[1]; b8(b, 0); b += ss[3]; b8(b, 3); b8(b, 1); b16(b, ss.size()); b += ss; b8(b, pps ? 1 : 0); if (pps) { b16(b, pp.size()); b += pp; }
                t.tags.push_back(mk(TK_VCFG, 9, 0, b));
            }
            for (auto& n : p.nals) {
                int ty = n.first[0] & 31; if (ty != 1 && ty != 5 && ty != 6) continue;
                S8 b; b8(b, ty == 5 ? 0x17 : ty == 1 ? 0x27 : 0x57);
                if (ty != 6) { b8(b, 1); b24(b, (uint32_t) cts); }
                b32(b, n.first.size() + n.second); b += n.first; b += S8(n.second, 0);
                t.tags.push_back(mk(ty == 5 ? TK_KEY : TK_FRAME, 9, dts, b));
            }
        } else {
            if (!have_a || la[0] != p.prof || la[1] != p.sfi || la[2] != p.chan) {
                have_a = true; la[0] = p.prof; la[1] = p.sfi; la[2] = p.chan;
                S8 b("\xaf\0", 2); b16(b, (p.prof + 1) << 11 | p.sfi << 7 | p.chan << 3); t.tags.push_back(mk(TK_ACFG, 8, 0, b));
            }
            for (auto& f : p.aac) t.tags.push_back(mk(TK_FRAME, 8, dts, S8("\xaf\1", 2) + f));
        }
        for (size_t i = n0; i < t.tags.size(); ++i) t.tags[i].wend = pos;
    };
    for (size_t i = cut; i < m.out.size(); ++i) {
        auto& k = m.out[i]; size_t off = t.bytes.size(); t.bytes += k.b; size_t pos = t.bytes.size();
        if (k.psi == 1) { havepat = true; t.raw.push_back({off, 0, pos}); }
        else if (k.psi == 2) { if (!havepat) continue; if (o.video) known[vpid] = true; if (o.audio) known[apid] = true; t.raw.push_back({off, 1, pos}); }
        else if (k.psi == 3) t.raw.push_back({off, 3, pos});
        else if (k.psi == 4 || k.pes == -2 || !known.count(k.pid)) continue;
        else {
            if (k.pusi) { if (cur.count(k.pid)) flush(cur[k.pid], pos); cur[k.pid] = k.pes; }
            t.raw.push_back({off, k.pusi ? 2 : 3, pos});
        }
    }
    return t;
}
}
