// TLS client used by the actors: real OpenSSL over a simulated connection, with deterministic randomness.
#include "world.hpp"
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/kdf.h>
#include <openssl/core_names.h>
#include <openssl/params.h>
#include <openssl/rand.h>
#include <openssl/ssl.h>
#include <openssl/x509.h>
#include <algorithm>
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
#ifndef CERTS
#define CERTS "/verif/certs"
#endif
namespace sim {
static Rng* g_rand = nullptr;
static int rnd(unsigned char* b, int n) { for (int i = 0; i < n; ++i) b[i] = (unsigned char) g_rand->next(); return 1; }
static int rnd_status() { return 1; }
static int rnd_seed(const void*, int) { return 1; }
static int rnd_add(const void*, int, double) { return 1; }
// the records of OpenSSL's error queue (one ring, allocated bit by bit) are not the server's
static bool err_file(const char* f) { return f && strstr(f, "crypto/err/"); }
static void* o_malloc(size_t n, const char* f, int) { if (err_file(f)) { SimScope g; return malloc(n); } return malloc(n); }
static void* o_realloc(void* p, size_t n, const char* f, int) { if (err_file(f)) { SimScope g; return realloc(p, n); } return realloc(p, n); }
static void o_free(void* p, const char*, int) { free(p); }
void crypto_init() {
    if (!CRYPTO_set_mem_functions(o_malloc, o_realloc, o_free)) count("crypto.mem_unset");
    static Rng r(hash2(g_seed, 0x715)); g_rand = &r;
    static RAND_METHOD m = {rnd_seed, rnd, nullptr, rnd_add, rnd, rnd_status};
    RAND_set_rand_method(&m);
}

// The actors share the process with the server, but not its OpenSSL error queue.
struct ErrGuard { std::vector<unsigned long> q;
    ErrGuard() { while (unsigned long e = ERR_get_error()) q.push_back(e); }
    ~ErrGuard() { ERR_clear_error(); for (auto e : q) ERR_raise(ERR_GET_LIB(e), ERR_GET_REASON(e)); } };

// TLS False Start (RFC 7918): data goes out after the client's Finished, before the server's arrives. OpenSSL's
// clients do not do that, so the records of such a connection are sealed here.
struct FalseStart {
    unsigned char key[32], iv[4]; u64 seq = 1; std::string held;
    bool init(SSL* ssl) {
        unsigned char ms[48], seed[64], blk[72]; size_t n = SSL_SESSION_get_master_key(SSL_get_session(ssl), ms, sizeof ms); if (n != 48) return false;
        SSL_get_server_random(ssl, seed, 32); SSL_get_client_random(ssl, seed + 32, 32);
        EVP_KDF* k = EVP_KDF_fetch(nullptr, "TLS1-PRF", nullptr); EVP_KDF_CTX* c = EVP_KDF_CTX_new(k);
        char lab[] = "key expansion", dig[] = "SHA384";
        OSSL_PARAM ps[] = {OSSL_PARAM_construct_utf8_string(OSSL_KDF_PARAM_DIGEST, dig, 0), OSSL_PARAM_construct_octet_string(OSSL_KDF_PARAM_SECRET, ms, 48),
            OSSL_PARAM_construct_octet_string(OSSL_KDF_PARAM_SEED, lab, 13), OSSL_PARAM_construct_octet_string(OSSL_KDF_PARAM_SEED, seed, 64), OSSL_PARAM_construct_end()};
        bool ok = EVP_KDF_derive(c, blk, sizeof blk, ps) > 0; EVP_KDF_CTX_free(c); EVP_KDF_free(k);
        memcpy(key, blk, 32); memcpy(iv, blk + 64, 4);
        return ok;
    }
    std::string seal(const char* b, size_t n) {
        std::string out;
        for (size_t o = 0; o < n;) {
            size_t m = std::min<size_t>(n - o, 16384); unsigned char nonce[12], aad[13]; memcpy(nonce, iv, 4);
            for (int i = 0; i < 8; ++i) aad[i] = nonce[4 + i] = (unsigned char) (seq >> (56 - 8 * i));
            aad[8] = 0x17; aad[9] = 3; aad[10] = 3; aad[11] = (unsigned char) (m >> 8); aad[12] = (unsigned char) m;
            std::string ct(m + 16, 0); int l = 0; EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
            EVP_EncryptInit_ex(c, EVP_aes_256_gcm(), nullptr, key, nonce); EVP_EncryptUpdate(c, nullptr, &l, aad, 13); EVP_EncryptUpdate(c, (unsigned char*) &ct[0], &l, (const unsigned char*) b + o, (int) m);
            EVP_EncryptFinal_ex(c, (unsigned char*) &ct[m], &l); EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_GET_TAG, 16, &ct[m]); EVP_CIPHER_CTX_free(c);
            size_t rl = 8 + m + 16; out += "\x17\x03\x03"; out += (char) (rl >> 8); out += (char) rl; out.append((char*) nonce + 4, 8); out += ct;
            seq++; o += m;
        }
        return out;
    }
};
struct TlsConn : Conn {
    std::unique_ptr<FalseStart> fs;
    PConn raw; SSL* ssl = nullptr; BIO *rb = nullptr, *wb = nullptr;
    u64 base = 0;                       // what the server wrote during the handshake
    u64 base_in = 0;
    bool dead = false;
    ~TlsConn() override { SimScope g; if (ssl) SSL_free(ssl); }
    std::string take() { char* d; long n = BIO_get_mem_data(wb, &d); std::string s(d, n > 0 ? n : 0); (void) BIO_reset(wb); return s; }
    bool flush(u64 to) { std::string s; { s = take(); } return s.empty() || raw->write(s.data(), s.size(), to); }
    bool write(const void* b, size_t n, u64 to) override {
        std::string out;
        if (fs) { SimScope g; ErrGuard e; out = fs->held + fs->seal((const char*) b, n); fs->held.clear(); }
        else { SimScope g; ErrGuard e; size_t o = 0; while (o < n) { int k = SSL_write(ssl, (const char*) b + o, (int) std::min<size_t>(n - o, 16384)); if (k <= 0) { dead = true; return false; } o += k; } out = take(); }
        return raw->write(out.data(), out.size(), to);
    }
    ssize_t read(void* b, size_t n, u64 to) override {
        for (;;) {
            int k, err;
            { SimScope g; ErrGuard e; k = SSL_read(ssl, b, (int) n); err = k > 0 ? 0 : SSL_get_error(ssl, k); }
            if (k > 0) return k;
            if (err == SSL_ERROR_ZERO_RETURN) return 0;
            if (err != SSL_ERROR_WANT_READ) return -3;
            char t[4096]; ssize_t r = raw->read(t, sizeof t, to);
            if (r <= 0) return r;
            SimScope g; BIO_write(rb, t, (int) r);
        }
    }
    void close() override { raw->close(); }
    void reset() override { raw->reset(); }
    void half() override { raw->half(); }
    u64 wpos() override { return raw->wpos(); }
    u64 delivered() override { return raw->delivered(); }
    bool srv_open() override { return raw->srv_open(); }
    u64 srv_closed_at() override { return raw->srv_closed_at(); }
    u64 srv_sent() override { return raw->srv_sent() < base ? 0 : raw->srv_sent() - base; }
    bool end_seen() override { return raw->end_seen(); }
    bool srv_blocked() override { return raw->srv_blocked(); }
    bool peer_gone() override { return raw->peer_gone(); }
    Tcp* tcp() override { return raw->tcp(); }
    bool exact() override { return false; }
};
// the server's side of a handshake (for connections the program under test opens); pace: bytes and pauses
PConn tls_accept(PConn raw, const char* cert, u64 timeout, const TlsHow& how, std::string* sni) {
    auto c = std::make_shared<TlsConn>(); c->raw = raw;
    static SSL_CTX* ctx = nullptr;
    { SimScope g; ErrGuard e; if (!ctx) { ctx = SSL_CTX_new(TLS_server_method()); SSL_CTX_set_max_proto_version(ctx, TLS1_2_VERSION); SSL_CTX_set_session_cache_mode(ctx, SSL_SESS_CACHE_OFF); }
      c->ssl = SSL_new(ctx); std::string f = std::string(CERTS "/") + cert; SSL_use_certificate_file(c->ssl, (f + ".crt").c_str(), SSL_FILETYPE_PEM); SSL_use_RSAPrivateKey_file(c->ssl, (f + ".key").c_str(), SSL_FILETYPE_PEM);
      c->rb = BIO_new(BIO_s_mem()); c->wb = BIO_new(BIO_s_mem()); SSL_set_bio(c->ssl, c->rb, c->wb); SSL_set_accept_state(c->ssl); }
    u64 dl = now() + timeout; u64 sent = 0;
    for (;;) {
        int r, err; std::string out;
        { SimScope g; ErrGuard e; r = SSL_do_handshake(c->ssl); err = r == 1 ? 0 : SSL_get_error(c->ssl, r); if (r == 1 && !how.early.empty()) SSL_write(c->ssl, how.early.data(), (int) how.early.size()); out = c->take(); }
        for (size_t o = 0; o < out.size();) {
            size_t n = how.piece ? std::min<size_t>(how.piece, out.size() - o) : out.size() - o;
            if (sent + n > how.cut) n = how.cut - sent;
            if (how.flip && sent <= how.flip_at && how.flip_at < sent + n) out[o + how.flip_at - sent] ^= 0x55;
            if (n && !raw->write(out.data() + o, n, dl > now() ? dl - now() : 0)) return nullptr;
            o += n; sent += n; if (sent >= how.cut) return nullptr;
            if (how.pause) sleep_us(how.pause);
        }
        if (r == 1) break;
        if (err != SSL_ERROR_WANT_READ) return nullptr;
        char t[4096]; if (now() >= dl) return nullptr;
        ssize_t k = raw->read(t, sizeof t, dl - now());
        if (k <= 0) return nullptr;
        SimScope g; BIO_write(c->rb, t, (int) k);
    }
    SimScope g; const char* n = SSL_get_servername(c->ssl, TLSEXT_NAMETYPE_host_name); if (sni) *sni = n ? n : "";
    count("tls.out_handshake");
    return c;
}
bool tls_notify(PConn c) { auto t = std::dynamic_pointer_cast<TlsConn>(c); if (!t) return false; std::string out; { SimScope g; ErrGuard e; SSL_shutdown(t->ssl); out = t->take(); } return t->raw->write(out.data(), out.size(), 5000000); }
PConn tls_wrap(PConn raw, const std::string& sni, u64 timeout, std::string* cn, int fs) {
    auto c = std::make_shared<TlsConn>(); c->raw = raw;
    static SSL_CTX* ctx = nullptr;
    { SimScope g; if (!ctx) { ctx = SSL_CTX_new(TLS_client_method()); SSL_CTX_set_max_proto_version(ctx, TLS1_2_VERSION); SSL_CTX_set_verify(ctx, SSL_VERIFY_NONE, nullptr); }
      c->ssl = SSL_new(ctx); c->rb = BIO_new(BIO_s_mem()); c->wb = BIO_new(BIO_s_mem()); SSL_set_bio(c->ssl, c->rb, c->wb); SSL_set_connect_state(c->ssl);
      if (fs) { SSL_set_options(c->ssl, SSL_OP_NO_TICKET); SSL_set_cipher_list(c->ssl, "ECDHE-RSA-AES256-GCM-SHA384"); }
      if (!sni.empty()) SSL_set_tlsext_host_name(c->ssl, sni.c_str()); }
    u64 dl = now() + timeout, fs_base = 0; bool r_first = true;
    for (;;) {
        int r, err; std::string out;
        { SimScope g; ErrGuard e; r = SSL_do_handshake(c->ssl); err = r == 1 ? 0 : SSL_get_error(c->ssl, r); out = c->take(); }
        if (fs && !r_first && !out.empty() && r != 1 && err == SSL_ERROR_WANT_READ) {
            { SimScope g; ErrGuard e; auto f = std::make_unique<FalseStart>(); if (f->init(c->ssl)) c->fs = std::move(f); }
            if (c->fs) { c->fs->held = out; if (fs > 1) { c->fs->held.clear(); if (!raw->write(out.data(), out.size(), dl > now() ? dl - now() : 0)) return nullptr; } count("tls.false_start"); fs_base = raw->srv_sent() + 51; break; }
        }
        r_first = false;
        if (!out.empty() && !raw->write(out.data(), out.size(), dl > now() ? dl - now() : 0)) return nullptr;
        if (r == 1) break;
        if (err != SSL_ERROR_WANT_READ) { raw->close(); return nullptr; }
        char t[4096]; if (now() >= dl) { raw->close(); return nullptr; }
        ssize_t k = raw->read(t, sizeof t, dl - now());
        if (k <= 0) { if (k == -2) raw->close(); return nullptr; }
        SimScope g; BIO_write(c->rb, t, (int) k);
    }
    c->base = c->fs ? fs_base : raw->srv_sent();      // of the server's last flight: ChangeCipherSpec and Finished
    SimScope g;
    if (cn) { X509* x = SSL_get_peer_certificate(c->ssl); if (x) { char b[256] = {0}; X509_NAME_get_text_by_NID(X509_get_subject_name(x), NID_commonName, b, sizeof b); *cn = b; X509_free(x); } }
    count("tls.handshake");
    return c;
}
}
