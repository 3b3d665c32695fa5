// C28: random programs of protected blocks against an interpreter of their meaning.  C27: the byte code of norms.
#include "model.h"
#include <thread>
#include <deque>
#include <atomic>

static const int CODES[] = {FRT_EXCEPTION, FRT_IO_ERROR, FRT_ARG_ERROR, FRT_LOCK_ERROR};
enum { E_MARK, E_RAISE, E_TRY, E_RETURN };
enum { F_CASES, F_FINALLY, F_CATCHALL };
struct XBlock { std::vector<struct XN *> n; };
struct XN {
    int kind, id, code = 0, form = 0; bool has_final = false, early = false;
    XBlock body, cleanup, handler[4]; bool handles[4] = {0, 0, 0, 0}, late[4] = {0, 0, 0, 0}, has[4] = {0, 0, 0, 0}; bool catch_handled = false;
};
struct Ev { int what, id, x; };
enum { V_MARK, V_BODY, V_HANDLER, V_CLEANUP, V_AFTER, V_OUT };

static thread_local Ev *T; static thread_local int TN; static const int TMAX = 20000;
static void ev(int w, int id, int x = 0) { if (TN < TMAX) T[TN++] = {w, id, x}; }

// ---- the real thing. No C++ object with a destructor may live in these frames.
static void x_block(const XBlock *b);
static void x_handler(const XN *n, int k, frt_xcontext_t *cx);
static void x_cases(const XN *n) {
    FRT_TRY
        ev(V_BODY, n->id); x_block(&n->body);
        if (n->early) { FRT_RETURN_EARLY(); ev(V_AFTER, n->id, 1); return; }
        break;
    case FRT_EXCEPTION: ev(V_HANDLER, n->id, 0); if (n->has[0]) { if (n->handles[0] && !n->late[0]) FRT_HANDLED(); x_block(&n->handler[0]); if (n->handles[0] && n->late[0]) FRT_HANDLED(); } break;
    case FRT_IO_ERROR:  ev(V_HANDLER, n->id, 1); if (n->has[1]) { if (n->handles[1] && !n->late[1]) FRT_HANDLED(); x_block(&n->handler[1]); if (n->handles[1] && n->late[1]) FRT_HANDLED(); } break;
    case FRT_ARG_ERROR: ev(V_HANDLER, n->id, 2); if (n->has[2]) { if (n->handles[2] && !n->late[2]) FRT_HANDLED(); x_block(&n->handler[2]); if (n->handles[2] && n->late[2]) FRT_HANDLED(); } break;
    case FRT_FINALLY:   ev(V_CLEANUP, n->id); x_block(&n->cleanup);
    FRT_ENDTRY
    ev(V_AFTER, n->id);
}
static void x_finally(const XN *n) {
    FRT_TRY
        ev(V_BODY, n->id); x_block(&n->body);
    FRT_XFINALLY
        ev(V_CLEANUP, n->id); x_block(&n->cleanup);
    FRT_XENDTRY
    ev(V_AFTER, n->id);
}
static void x_catchall(const XN *n) {
    FRT_TRY
        ev(V_BODY, n->id); x_block(&n->body);
    FRT_XCATCHALL
        ev(V_HANDLER, n->id, xcontext.excode); if (n->catch_handled && !n->late[0]) FRT_HANDLED();
        x_block(&n->cleanup); if (n->catch_handled && n->late[0]) FRT_HANDLED();
    FRT_XENDTRY
    ev(V_AFTER, n->id);
}
static void x_block(const XBlock *b) {
    for (size_t i = 0; i < b->n.size(); i++) {
        const XN *n = b->n[i];
        if (n->kind == E_MARK) ev(V_MARK, n->id);
        else if (n->kind == E_RAISE) frt_xraise(n->code, "planted");
        else if (n->form == F_CASES) x_cases(n);
        else if (n->form == F_FINALLY) x_finally(n);
        else x_catchall(n);
    }
}
static int x_top(const XBlock *b, int *code) {
    volatile int got = 0;
    FRT_TRY
        x_block(b);
    FRT_XCATCHALL
        got = xcontext.excode; FRT_HANDLED();
    FRT_XENDTRY
    *code = got; return 0;
}

// ---- what it means
struct MCtx { bool in_final = false, handled = true; int code = 0; };
struct Model {
    vector<Ev> t; void e(int w, int id, int x = 0) { t.push_back({w, id, x}); }
    // runs a block inside context c; returns the code that left it (0: ran to its end)
    int raise(MCtx &c, int code) { if (!c.in_final) { c.code = code; c.handled = false; return code; } if (c.handled) { c.code = code; c.handled = false; } return 0; }
    int block(const XBlock &b, MCtx &c) {
        for (auto *n : b.n) {
            if (n->kind == E_MARK) e(V_MARK, n->id);
            else if (n->kind == E_RAISE) { if (int r = raise(c, n->code)) return r; }
            else { int out = run(*n); if (out) { if (int r = raise(c, out)) return r; } e(V_AFTER, n->id, n->form == F_CASES && n->early && early_taken); }
        }
        return 0;
    }
    bool early_taken = false;
    int run(const XN &n) {       // the code with which the block as a whole ends, 0 if it does not raise
        MCtx c; bool took = false; e(V_BODY, n.id); int r = block(n.body, c);
        if (n.form == F_CASES) {
            if (!r && n.early) { took = true; early_taken = true; return 0; }
            while (r) { int k = -1; for (int q = 0; q < 3; q++) if (CODES[q] == r) k = q; if (k < 0) break; e(V_HANDLER, n.id, k); r = 0; if (n.has[k]) { if (n.handles[k] && !n.late[k]) c.handled = true; r = block(n.handler[k], c); if (!r && n.handles[k] && n.late[k]) c.handled = true; } }
            c.in_final = true; e(V_CLEANUP, n.id); block(n.cleanup, c);
        } else if (n.form == F_FINALLY) { c.in_final = true; e(V_CLEANUP, n.id); block(n.cleanup, c); }
        else if (r) { c.in_final = true; e(V_HANDLER, n.id, r); if (n.catch_handled && !n.late[0]) c.handled = true; block(n.cleanup, c); if (n.catch_handled && n.late[0]) c.handled = true; }
        (void)took; early_taken = false; return c.handled ? 0 : c.code;
    }
};
struct XGen {
    Rng &rng; std::deque<XN> pool; int ids = 0, raises = 0; XGen(Rng &r) : rng(r) {}
    XN *node(int kind) { pool.emplace_back(); XN *n = &pool.back(); n->kind = kind; n->id = ids++; return n; }
    void block(XBlock &b, int depth, int min_code) {             // min_code: handlers only raise codes after the one they handle, so that every program ends
        int k = rng.range(0, 3);
        for (int i = 0; i < k; i++) {
            int c = rng.below(depth > 0 ? 6 : 4);
            if (c < 2) b.n.push_back(node(E_MARK));
            else if (c < 4) { XN *n = node(E_RAISE); if (min_code > 3) continue; n->code = CODES[rng.range(min_code, 3)]; b.n.push_back(n); raises++; }
            else {
                XN *n = node(E_TRY); n->form = rng.below(3); block(n->body, depth - 1, min_code); block(n->cleanup, depth - 1, min_code);
                if (n->form == F_CASES) { n->early = rng.chance(1, 8); for (int q = 0; q < 3; q++) { n->has[q] = rng.chance(2, 3); n->handles[q] = rng.chance(2, 3); n->late[q] = rng.chance(1, 2); block(n->handler[q], depth - 1, std::max(min_code, q + 1)); } }
                n->catch_handled = rng.chance(1, 2); if (n->form == F_CATCHALL) n->late[0] = rng.chance(1, 2);
                b.n.push_back(n);
            }
        }
    }
};
static const char *VN[] = {"mark", "body", "handler", "cleanup", "after", "out"};
static void x_compare(const vector<Ev> &want, const Ev *got, int ng, int wc, int gc) {
    size_t n = std::min(want.size(), (size_t)ng);
    for (size_t i = 0; i < n; i++) if (want[i].what != got[i].what || want[i].id != got[i].id || want[i].x != got[i].x) fail("except-order", "event %zu is %s of block %d (%d), it must be %s of block %d (%d)", i, VN[got[i].what], got[i].id, got[i].x, VN[want[i].what], want[i].id, want[i].x);
    CHECK(want.size() == (size_t)ng, "except-order", "%d events happened, %zu must", ng, want.size());
    CHECK(wc == gc, "except-code", "the program ends with error %d, it must be %d", gc, wc);
}
static string x_show(const XBlock &b) { string s; for (auto *n : b.n) { if (n->kind == E_MARK) s += fmt("m%d ", n->id); else if (n->kind == E_RAISE) s += fmt("raise%d ", n->code); else { s += fmt("%s%d{%s", n->form == F_CASES ? "try" : n->form == F_FINALLY ? "tryf" : "tryc", n->id, x_show(n->body).c_str()); if (n->form == F_CASES) for (int q = 0; q < 3; q++) if (n->has[q]) s += fmt("|%d%s:%s", CODES[q], n->handles[q] ? n->late[q] ? "L" : "H" : "", x_show(n->handler[q]).c_str()); s += fmt("|%s%s} ", n->catch_handled ? n->late[0] ? "L:" : "H:" : "", x_show(n->cleanup).c_str()); } } return s; }
MODE(except) {
    XGen g(rng); XBlock b; block_again: g.block(b, rng.range(1, 4), 0); if (b.n.empty()) goto block_again;
    note("%s", x_show(b).c_str()); Model m; MCtx top; int wc = m.block(b, top);
    if (m.t.size() > TMAX) throw Skip{};
    vector<Ev> buf(TMAX); T = buf.data(); TN = 0; int gc = 0; x_top(&b, &gc);
    x_compare(m.t, T, TN, wc, gc); if (g.raises && m.t.size() > 4) nontrivial(); sig(x_show(b)); count("events", (long)m.t.size());
}
MODE(except_threads) {
    int k = rng.range(2, 6); std::deque<XGen> g; vector<XBlock> b(k); vector<vector<Ev>> want(k), got(k); vector<int> wc(k), gc(k), ng(k);
    for (int i = 0; i < k; i++) { g.emplace_back(rng); while (b[i].n.empty()) g[i].block(b[i], rng.range(1, 3), 0); Model m; MCtx top; wc[i] = m.block(b[i], top); want[i] = m.t; got[i].resize(TMAX); sig(x_show(b[i])); if (m.t.size() > TMAX) throw Skip{}; }
    const int rounds = 30; std::atomic<int> ready{0}; vector<string> bad(k); vector<std::thread> th;
    for (int i = 0; i < k; i++) th.emplace_back([&, i] {
        ready++; while (ready < k) {}
        for (int r = 0; r < rounds; r++) { T = got[i].data(); TN = 0; x_top(&b[i], &gc[i]); ng[i] = TN; bool ok = (size_t)TN == want[i].size() && gc[i] == wc[i]; for (int q = 0; ok && q < TN; q++) ok = T[q].what == want[i][q].what && T[q].id == want[i][q].id && T[q].x == want[i][q].x; if (!ok) return; }
    });
    for (auto &t : th) t.join();
    for (int i = 0; i < k; i++) x_compare(want[i], got[i].data(), ng[i], wc[i], gc[i]);
    nontrivial(); count("thread programs", k);
}
// ------------------------------------------------------------------ the byte code of norms
extern "C" { float frt_byte2float(unsigned char b); unsigned char frt_float2byte(float f); }
static float any_float(Rng &r) { switch (r.below(5)) { case 0: { uint32_t u = (uint32_t)r.next() & 0x7fffffff; float f; memcpy(&f, &u, 4); return f == f ? f : 1.0f; } case 1: return frt_byte2float((unsigned char)r.below(256)); case 2: return nextafterf(frt_byte2float((unsigned char)r.below(256)), r.chance(1, 2) ? 1e30f : 0.0f); case 3: return (float)r.below(1000000) / 1000.0f; default: return ldexpf(1.0f + (float)r.below(1 << 20) / (1 << 20), (int)r.below(120) - 60); } }
MODE(codec) {
    for (int b = 0; b < 256; b++) { float f = frt_byte2float((unsigned char)b); CHECK(f >= 0 && f == f, "codec-sign", "byte %d decodes to %g", b, f); int e = frt_float2byte(f); CHECK(e == b, "codec-identity", "byte %d decodes to %g which encodes to %d", b, f, e); if (b) CHECK(frt_byte2float((unsigned char)(b - 1)) < f, "codec-order", "byte %d decodes to %g, byte %d to %g", b - 1, frt_byte2float((unsigned char)(b - 1)), b, f); }
    FrtSimilarity *s = frt_sim_create_default();
    for (int b = 0; b < 256; b++) CHECK(s->decode_norm(s, (frt_uchar)b) == frt_byte2float((unsigned char)b), "codec-table", "the similarity decodes byte %d as %g", b, s->decode_norm(s, (frt_uchar)b));
    for (int i = 0; i < 200; i++) {
        float a = any_float(rng), b = any_float(rng); if (rng.chance(1, 2)) b = nextafterf(a, rng.chance(1, 2) ? 1e38f : 0); if (a > b) std::swap(a, b);
        int x = frt_float2byte(a), y = frt_float2byte(b); CHECK(x <= y, "codec-monotone", "%.9g encodes to %d but the larger %.9g to %d", a, x, b, y);
        // the code of a number in range is the largest byte that does not exceed it
        float lo = frt_byte2float(1), hi = frt_byte2float(255); if (b >= lo && b <= hi) { CHECK(frt_byte2float((unsigned char)y) <= b && (y == 255 || frt_byte2float((unsigned char)(y + 1)) > b), "codec-nearest", "%.9g encodes to %d (%.9g)", b, y, frt_byte2float((unsigned char)y)); }
        if (b > hi) CHECK(y == 255, "codec-nearest", "%.9g, which is more than every byte stands for, encodes to %d", b, y);
        if (b > 0 && b < lo) CHECK(y == 1, "codec-nearest", "%.9g, which is less than byte 1 stands for, encodes to %d", b, y);
        CHECK(frt_float2byte(-b) == 0, "codec-zero", "%.9g encodes to %d", -b, frt_float2byte(-b));
        CHECK(a > 0 ? x > 0 : x == 0, "codec-zero", "%.9g encodes to %d", a, x); CHECK(s->encode_norm(s, a) == x, "codec-table", "the similarity encodes %g as %d", a, s->encode_norm(s, a));
        sig(fmt("%d", x)); count("floats", 2);
    }
    nontrivial();
}
