#include "model.h"
#include "iomon.h"

// ------------------------------------------------------------------ scripts of operations on one index directory
struct COp { enum K { OPEN_W, ADD, DEL, DELS, COMMIT, OPT, CLOSE_W, OPEN_R, R_DEL, R_NORM, R_UNDEL, R_COMMIT, R_CLOSE, ADD_IX, READ } k;
    FrtConfig cfg; MDoc doc; vector<MDoc> docs; string field; vector<string> terms; int a = 0, b = 0; };
static const char *op_name(int k) { static const char *n[] = {"open writer", "add", "delete", "delete terms", "commit", "optimize", "close writer", "open reader", "reader delete", "set norm", "undelete", "reader commit", "close reader", "add indexes", "read everything"}; return n[k]; }

static void model_del(const Schema &S, vector<MDoc> &docs, const string &field, const string &term) {
    FCfg c = S.cfg(field);
    if (!ix_indexed(c)) return;
    for (auto &d : docs) if (!d.deleted) { const MField *f = d.get(field); if (f && invert(c, *f).pos.count(term)) d.deleted = true; }
}

struct Script { Schema S; vector<COp> ops; };
static string some_id(Rng &r, long serial) { return fmt("d%d", r.below((uint32_t)serial + 1)); }
static COp op_add(Rng &r, const Schema &S, long &serial, const GenOpt &o) { COp x; x.k = COp::ADD; x.doc = gen_doc(r, S, serial++, o); return x; }
// a random, well-formed script: writer and reader sessions one after the other, everything closed at the end
static void gen_ops(Rng &r, const Schema &S, vector<COp> &ops, long &serial, int n, const GenOpt &o, bool reads) {
    auto put = [&](COp::K k) { COp x; x.k = k; ops.push_back(x); };
    int left = n;
    while (left > 0) {
        if (r.chance(3, 4) || serial == 0) {
            COp w; w.k = COp::OPEN_W; w.cfg = gen_config(r); ops.push_back(w);
            int m = std::min(left, r.range(1, 12)); left -= m + 1;
            for (int i = 0; i < m; i++) {
                int c = r.below(20);
                if (c < 11) ops.push_back(op_add(r, S, serial, o));
                else if (c < 14) {
                    COp d; d.k = COp::DEL; d.field = "id"; d.terms.push_back(some_id(r, serial));
                    if (r.chance(1, 4)) { auto names = S.all(); string f = names[r.below((uint32_t)names.size())]; if (ix_indexed(S.cfg(f))) { d.field = f; d.terms[0] = gen_word(r, o.vocab); } }
                    ops.push_back(d);
                } else if (c < 16) { COp d; d.k = COp::DELS; d.field = "id"; int q = r.range(1, 4); for (int j = 0; j < q; j++) d.terms.push_back(some_id(r, serial)); ops.push_back(d); }
                else if (c < 18) put(COp::COMMIT);
                else if (c < 19) put(COp::OPT);
                else { COp d; d.k = COp::ADD_IX; int q = r.range(1, 4); for (int j = 0; j < q; j++) d.docs.push_back(gen_doc(r, S, serial++, o)); d.cfg = gen_config(r); ops.push_back(d); }
            }
            put(COp::CLOSE_W);
        } else {
            put(COp::OPEN_R);
            int m = std::min(left, r.range(1, 5)); left -= m + 1;
            for (int i = 0; i < m; i++) {
                COp d; int c = r.below(10);
                d.k = c < 4 ? COp::R_DEL : c < 7 ? COp::R_NORM : c < 8 ? COp::R_UNDEL : c < 9 || !reads ? COp::R_COMMIT : COp::READ;
                d.a = r.below(1 << 20); d.b = r.below(1 << 20);
                ops.push_back(d);
            }
            put(COp::R_CLOSE);
        }
        if (reads && r.chance(1, 3)) { put(COp::OPEN_R); put(COp::READ); put(COp::R_CLOSE); }
    }
}

// Executes scripts and keeps the model: states[lo..hi] are the contents a reader may find after a crash now.
struct Engine {
    Schema S; string dir;
    FrtStore *store = nullptr; FrtIndexWriter *iw = nullptr; FrtIndexReader *ir = nullptr;
    vector<vector<MDoc>> states; vector<Snap> snaps;
    vector<MDoc> pend;                            // of the open reader
    long lo = 0, hi = 0;
    Engine(const Schema &s, const string &d) : S(s), dir(d) {}
    ~Engine() {
        if (iw) { auto *x = iw; iw = nullptr; guarded([&] { frt_iw_close(x); }); }
        if (ir) { auto *x = ir; ir = nullptr; guarded([&] { frt_ir_close(x); }); }
        if (store) { auto *x = store; store = nullptr; guarded([&] { frt_store_deref(x); }); }
    }
    void start(const vector<MDoc> &d) { states.clear(); states.push_back(d); snaps.clear(); lo = hi = 0; IO.lo = IO.hi = 0; }
    const vector<MDoc> &cur() const { return states[hi]; }
    void expect(const vector<MDoc> &d) { states.push_back(d); hi = (long)states.size() - 1; IO.hi = hi; }
    void done() { lo = hi; IO.lo = lo; }
    Snap &snap(long i) { if ((long)snaps.size() <= i) snaps.resize(i + 1); if (snaps[i].empty()) snaps[i] = snap_model(S, states[i], M_ALL); return snaps[i]; }
    void create() {
        store = frt_open_fs_store(dir.c_str());
        FrtFieldInfos *fis = make_fis(S); frt_index_create(store, fis); frt_fis_deref(fis);
        start({});
    }
    void open() { if (!store) store = frt_open_fs_store(dir.c_str()); }
    void shut() { if (store) { auto *x = store; store = nullptr; frt_store_deref(x); } }
    // one operation; may raise
    void run(const COp &op) {
        vector<MDoc> d;
        switch (op.k) {
            case COp::OPEN_W: { FrtAnalyzer *a = script_analyzer(); iw = frt_iw_open(store, a, &op.cfg); break; }
            case COp::ADD: { d = cur(); d.push_back(op.doc); expect(d); FrtDocument *x = make_doc(op.doc); int e = guarded([&] { frt_iw_add_doc(iw, x); }, &why); frt_doc_destroy(x); rethrow(e); break; }
            case COp::DEL: case COp::DELS: {
                d = cur(); for (auto &t : op.terms) model_del(S, d, op.field, t);
                expect(d);
                vector<char *> p; for (auto &t : op.terms) p.push_back((char *)t.c_str());
                FrtSymbol f = SYM(op.field);
                if (op.k == COp::DEL) frt_iw_delete_term(iw, f, p[0]); else frt_iw_delete_terms(iw, f, p.data(), (int)p.size());
                break;
            }
            case COp::COMMIT: frt_iw_commit(iw); done(); break;
            case COp::OPT: frt_iw_optimize(iw); done(); break;
            case COp::CLOSE_W: { auto *x = iw; closing = x; iw = nullptr; frt_iw_close(x); closing = nullptr; done(); break; }
            case COp::OPEN_R: ir = frt_ir_open(store); pend = cur(); break;
            case COp::R_DEL: { vector<int> lv = live_docs(ir), ml = live(pend); CHECK(lv.size() == ml.size(), "content-live", "%zu live documents, expected %zu", lv.size(), ml.size()); if (lv.empty()) break; int i = op.a % lv.size(); frt_ir_delete_doc(ir, lv[i]); pend[ml[i]].deleted = true; break; }
            case COp::R_NORM: {
                vector<int> lv = live_docs(ir), ml = live(pend); if (lv.empty() || lv.size() != ml.size()) break;
                int i = op.a % lv.size(); MDoc &m = pend[ml[i]];
                for (size_t t = 0; t < m.fields.size(); t++) {
                    const MField &f = m.fields[(op.b + t) % m.fields.size()]; FCfg c = S.cfg(f.name);
                    if (!ix_norms(c) || invert(c, f).num_terms == 0) continue;
                    frt_ir_set_norm(ir, lv[i], SYM(f.name), (frt_uchar)(op.b & 255)); m.norm_set[f.name] = op.b & 255; if ((op.b >> 9) % 3) break;
                }
                break;
            }
            case COp::R_UNDEL: {
                frt_ir_undelete_all(ir); bool arm = IO.armed; IO.armed = false; set<string> ids; int n = ir->max_doc(ir);
                for (int i = 0; i < n; i++) if (!ir->is_deleted(ir, i)) { FrtDocument *fd = ir->get_doc(ir, i); FrtDocField *df = frt_doc_get_field(fd, SYM("id")); if (df) ids.insert(string(df->data[0], df->lengths[0])); frt_doc_destroy(fd); }
                for (auto &m : pend) m.deleted = !ids.count(m.id);
                IO.armed = arm;
                break;
            }
            case COp::R_COMMIT: expect(pend); frt_ir_commit(ir); done(); break;
            case COp::R_CLOSE: { expect(pend); auto *x = ir; closing_r = x; ir = nullptr; frt_ir_close(x); closing_r = nullptr; done(); break; }
            case COp::ADD_IX: {
                d = cur(); d.insert(d.end(), op.docs.begin(), op.docs.end());
                bool a = IO.armed; IO.armed = false;
                FrtStore *rs = frt_open_ram_store(); FrtFieldInfos *fis = make_fis(S); frt_index_create(rs, fis); frt_fis_deref(fis);
                FrtIndexWriter *w = frt_iw_open(rs, script_analyzer(), &op.cfg);
                for (auto &m : op.docs) { FrtDocument *x = make_doc(m); frt_iw_add_doc(w, x); frt_doc_destroy(x); }
                frt_iw_close(w);
                FrtIndexReader *r2 = frt_ir_open(rs);
                IO.armed = a;
                expect(d);
                int e = guarded([&] { frt_iw_add_readers(iw, &r2, 1); }, &why);
                IO.armed = false; frt_ir_close(r2); frt_store_deref(rs); IO.armed = a;
                rethrow(e);
                break;
            }
            case COp::READ: {
                Snap got = snap_reader(S, ir, M_ALL), want = snap_model(S, pend, M_ALL); string m;
                if (snap_diff(want, got, m)) fail("read-wrong", "reading gives a wrong answer without an error: %s", m.c_str());
                count("reads_checked");
                break;
            }
        }
    }
    string why; FrtIndexWriter *closing = nullptr; FrtIndexReader *closing_r = nullptr;
    void rethrow(int e) { if (e) { snprintf(frt_xmsg_buffer_final, 1000, "%s", why.c_str()); frt_xraise(e, frt_xmsg_buffer_final); } }
    static vector<int> live(const vector<MDoc> &d) { vector<int> v; for (size_t i = 0; i < d.size(); i++) if (!d[i].deleted) v.push_back((int)i); return v; }

    // which of the allowed states does the index in `d` hold? -1: none (msg says what is wrong)
    long which(FrtIndexReader *r, long from, long to, string &msg, long *last = nullptr) {
        Snap got = snap_reader(S, r, M_ALL);
        long first = -1;
        for (long i = from; i <= to; i++) {
            string m;
            if (!snap_diff(snap(i), got, m)) { if (first < 0) first = i; if (last) *last = i; }
            else if (i == to || msg.empty()) msg = fmt("compared with state %ld: ", i) + m;
        }
        return first;
    }
};
static string op_text(const COp &op) {
    string s = op_name(op.k);
    if (op.k == COp::OPEN_W) s += " " + cfg_s(op.cfg);
    if (op.k == COp::ADD) { s += " " + op.doc.id; if (R.verbose) for (auto &f : op.doc.fields) { s += " " + f.name + "="; for (auto &v : f.vals) s += esc(v, 30); } }
    if (op.k == COp::ADD_IX) s += fmt(" %zu docs", op.docs.size());
    for (auto &t : op.terms) s += " " + op.field + ":" + esc(t);
    return s;
}
static GenOpt small_docs(Rng &r) { GenOpt o; o.maxbytes = r.chance(1, 6) ? 3000 : 60; o.vocab = 12; o.maxw = 6; return o; }

// ------------------------------------------------------------------ C14
struct Point { size_t k; long part; };
// every chosen crash point of a recorded run must leave a usable index
static void crash_points(Rng &r, Engine &e, const Files &base, const vector<IoEv> &log, int budget, int depth, long &serial, const GenOpt &o);
static void check_crash(Rng &r, Engine &e, const Files &at, long lo, long hi, const string &what, long &floor, int depth, long &serial, const GenOpt &o) {
    DirGuard g("cr"); write_files(g.d, at);
    Engine n(e.S, g.d); n.open();
    string why; int code = guarded([&] { n.ir = frt_ir_open(n.store); }, &why);
    CHECK(!code, "crash-unreadable", "after a crash %s the index cannot be opened: error %d %s", what.c_str(), code, why.c_str());
    string msg; long last = -1;
    long first = -1;
    code = guarded([&] { first = e.which(n.ir, lo, hi, msg, &last); }, &why);
    CHECK(!code, "crash-unreadable", "after a crash %s reading the index raises error %d %s", what.c_str(), code, why.c_str());
    CHECK(first >= 0, "crash-content", "after a crash %s the index holds neither the last commit nor the one in progress (states %ld..%ld): %s", what.c_str(), lo, hi, msg.c_str());
    CHECK(last >= floor, "crash-backwards", "after a crash %s the index holds state %ld though an earlier crash point already showed state %ld", what.c_str(), last, floor);
    if (first > floor) floor = first;
    { auto *x = n.ir; n.ir = nullptr; frt_ir_close(x); }
    count("crash_points_checked"); if (hi > lo) count("crash_points_with_several_allowed_states");
    if (depth <= 0 || !r.chance(1, 3)) return;
    // recovery: a new writer goes on, and its commits are durable
    n.start(e.states[first]);
    vector<COp> ops; COp w; w.k = COp::OPEN_W; w.cfg = gen_config(r); ops.push_back(w);
    int m = r.below(4); for (int i = 0; i < m; i++) ops.push_back(op_add(r, e.S, serial, o));
    if (r.chance(1, 3)) { COp d; d.k = COp::DEL; d.field = "id"; d.terms.push_back(some_id(r, serial)); ops.push_back(d); }
    if (r.chance(1, 3)) { COp d; d.k = COp::OPT; ops.push_back(d); }
    COp c; c.k = COp::CLOSE_W; ops.push_back(c);
    IO.log.clear(); IO.arm(g.d); IO.rec = true;
    code = guarded([&] { for (auto &op : ops) n.run(op); }, &why);
    vector<IoEv> log = IO.log; IO.disarm(); IO.log.clear();
    CHECK(!code, "recovery-fails", "after a crash %s a new writer fails: error %d %s", what.c_str(), code, why.c_str());
    code = guarded([&] { n.ir = frt_ir_open(n.store); first = n.which(n.ir, n.hi, n.hi, msg); }, &why);
    CHECK(!code, "recovery-fails", "after a crash %s and recovery the index cannot be read: error %d %s", what.c_str(), code, why.c_str());
    CHECK(first >= 0, "recovery-content", "after a crash %s a new writer's commit is not what the index holds: %s", what.c_str(), msg.c_str());
    { auto *x = n.ir; n.ir = nullptr; frt_ir_close(x); }
    n.shut();
    count("recoveries_checked");
    crash_points(r, n, at, log, 6, depth - 1, serial, o);
}
static void crash_points(Rng &r, Engine &e, const Files &base, const vector<IoEv> &log, int budget, int depth, long &serial, const GenOpt &o) {
    vector<Point> hot, cold;
    for (size_t k = 0; k <= log.size(); k++) {
        bool h = false;
        for (size_t q = k ? k - 1 : 0; q <= k && q < log.size(); q++) if (log[q].k == IoEv::REMOVE || log[q].k == IoEv::RENAME || log[q].a.compare(0, 8, "segments") == 0) h = true;
        (h ? hot : cold).push_back({k, -1});
        if (k < log.size() && log[k].k == IoEv::WRITE && log[k].data.size() > 1) {
            int parts = h ? 3 : 1;
            for (int i = 0; i < parts; i++) (h ? hot : cold).push_back({k, 1 + (long)r.below((uint32_t)log[k].data.size() - 1)});
        }
    }
    auto take = [&](vector<Point> &v, int n, vector<Point> &out) { for (int i = 0; i < n && !v.empty(); i++) { size_t j = r.below((uint32_t)v.size()); out.push_back(v[j]); v[j] = v.back(); v.pop_back(); } };
    vector<Point> pts; take(hot, budget * 2 / 3, pts); take(cold, budget - (int)pts.size(), pts); take(hot, budget - (int)pts.size(), pts);
    std::sort(pts.begin(), pts.end(), [](const Point &a, const Point &b) { return a.k != b.k ? a.k < b.k : a.part < b.part; });
    Files f = base; size_t at = 0; set<uint64_t> seen; long floor = 0;
    for (auto &p : pts) {
        while (at < p.k) io_apply(f, log[at++]);
        Files g = f; if (p.part >= 0) io_apply(g, log[p.k], p.part);
        uint64_t h = files_hash(g);
        // between two calls: the state range is that of the operation making the next call
        long lo, hi;
        if (p.k < log.size()) { lo = log[p.k].lo; hi = log[p.k].hi; } else { lo = e.lo; hi = e.hi; }
        if (!seen.insert(h ^ (lo * 77777 + hi)).second) continue;
        sig(h);
        string what = p.k >= log.size() ? "at the end" : p.part >= 0 ? fmt("%ld bytes into '%s'", p.part, io_name(log[p.k]).c_str()) : fmt("just before '%s'", io_name(log[p.k]).c_str());
        check_crash(r, e, g, lo, hi, what, floor, depth, serial, o);
    }
}
MODE(crash) {
    GenOpt o = small_docs(rng);
    Script s; s.S = gen_schema(rng, M_ALL); long serial = 0;
    DirGuard dg("ix"); Engine e(s.S, dg.d);
    e.create();
    { long sv = serial; (void)sv; if (rng.chance(1, 2)) { vector<COp> pre; gen_ops(rng, s.S, pre, serial, rng.range(1, 10), o, false); for (auto &op : pre) { note("(before) %s", op_text(op).c_str()); e.run(op); } } }
    e.start(vector<MDoc>(e.cur()));
    gen_ops(rng, s.S, s.ops, serial, rng.range(2, 18), o, false);
    Files base = read_files(dg.d);
    IO.log.clear(); IO.arm(dg.d); IO.rec = true;
    string why;
    int code = guarded([&] { for (auto &op : s.ops) { note("%s", op_text(op).c_str()); e.run(op); } }, &why);
    vector<IoEv> log = IO.log; IO.disarm(); IO.log.clear();
    if (code) fail("raised", "without any crash error %d was raised: %s", code, why.c_str());
    Files f = base; for (auto &ev : log) io_apply(f, ev);
    Files real = read_files(dg.d);
    if (files_hash(f) != files_hash(real)) { count("log_incomplete"); throw Skip{"the call log does not explain the directory"}; }
    count("changes_recorded", (long)log.size());
    count("operations", (long)s.ops.size());
    crash_points(rng, e, base, log, R.thorough ? 90 : 40, 2, serial, o);
    nontrivial(e.hi > 1 && log.size() > 20);
    sample(fmt("%zu operations, %zu file-system changes recorded, %zu states; first: %s", s.ops.size(), log.size(), e.states.size(), s.ops.size() ? op_text(s.ops[0]).c_str() : ""));
}

// ------------------------------------------------------------------ C15
MODE(faults) {
    GenOpt o = small_docs(rng);
    Script s; s.S = gen_schema(rng, M_ALL); long serial = 0;
    Files base; vector<MDoc> docs0;
    {
        DirGuard dg("ix"); Engine e(s.S, dg.d);
        e.create();
        vector<COp> pre; gen_ops(rng, s.S, pre, serial, rng.range(1, 14), o, false);
        for (auto &op : pre) { note("(before) %s", op_text(op).c_str()); e.run(op); }
        docs0 = e.cur(); e.shut();
        base = read_files(dg.d);
    }
    gen_ops(rng, s.S, s.ops, serial, rng.range(1, 9), o, true);
    long ncalls = 0; vector<string> names;
    {   // dry run: how many calls are there to fail?
        DirGuard dg("ix"); write_files(dg.d, base); Engine e(s.S, dg.d); e.open(); e.start(docs0);
        IO.arm(dg.d);
        string why; int code = guarded([&] { for (auto &op : s.ops) { note("%s", op_text(op).c_str()); e.run(op); } }, &why);
        ncalls = IO.calls; names = IO.names; IO.disarm();
        if (code) fail("raised", "without any fault error %d was raised: %s", code, why.c_str());
    }
    int trials = R.thorough ? 40 : 14, fired = 0;
    for (int t = 0; t < trials && ncalls > 0; t++) {
        DirGuard dg("ft"); write_files(dg.d, base);
        Engine e(s.S, dg.d); e.open(); e.start(docs0);
        IO.arm(dg.d);
        long at = rng.below((uint32_t)ncalls);
        if (rng.chance(1, 2)) { // prefer changes over reads
            for (int q = 0; q < 8; q++) { long c = rng.below((uint32_t)ncalls); string op = names[std::min<size_t>(c, names.size() - 1)]; if (IoMon::mutating(op.substr(0, op.find(' ')).c_str())) { at = c; break; } }
        }
        IO.fail_at = at; IO.mode = rng.below(6); IO.persistent = rng.chance(1, 2) ? 0 : rng.range(1, 3);
        string why; int code = 0; size_t i = 0; bool reported = false, abandoned = false;
        note("trial %d: fail call %ld (%s) mode %d%s", t, IO.fail_at, at < (long)names.size() ? names[at].c_str() : "?", IO.mode, (const char *[]){"", " and every later change", " and whatever needs space later", " and every later call"}[IO.persistent]);
        for (; i < s.ops.size(); i++) {
            code = guarded([&] { e.run(s.ops[i]); }, &why);
            if (code) { reported = true; note("  %s reports %d %s", op_name(s.ops[i].k), code, why.substr(0, 160).c_str()); break; }
        }
        bool f = IO.fired; string what = IO.what;
        if (code) {
            // the fault was passing: the same reader goes on as if nothing had happened
            if (e.ir && !IO.persistent && rng.chance(1, 2)) {
                COp rd; rd.k = COp::READ; string w2;
                int c2 = guarded([&] { e.run(rd); }, &w2);
                CHECK(!c2, "fault-reader", "%s (%s): the same reader then fails without a fault: error %d %s", IO.what.c_str(), op_name(s.ops[i].k), c2, w2.c_str());
                count("readers_used_after_a_fault");
            }
            // give up: close what is open, the fault may still be there
            if (rng.chance(1, 2)) IO.fail_at = -1;
            if (e.closing || e.closing_r) abandoned = true;
            if (e.iw) { auto *x = e.iw; e.iw = nullptr; int c2 = guarded([&] { frt_iw_close(x); }, &why); if (c2) { abandoned = true; note("  closing the writer reports %d %s", c2, why.substr(0, 160).c_str()); } }
            if (e.ir) { auto *x = e.ir; e.ir = nullptr; if (!e.pend.empty() || !e.states.empty()) e.expect(e.pend); int c2 = guarded([&] { frt_ir_close(x); }, &why); if (c2) { abandoned = true; note("  closing the reader reports %d %s", c2, why.substr(0, 160).c_str()); } }
        }
        IO.disarm();
        if (!f) { CHECK(!reported, "raised", "error %d without a fault: %s", code, why.c_str()); count("fault_not_reached"); continue; }
        fired++; count("faults_injected"); count(string("fault_on_") + what.substr(what.find(' ', 5) + 1, what.find(' ', what.find(' ', 5) + 1) - what.find(' ', 5) - 1));
        count(reported ? "faults_reported" : "faults_survived"); sig(what);
        if (!abandoned) e.shut(); else e.store = nullptr;
        // a lock file that could not be removed is the user's to remove
        if (IO.lock_stuck) { count("lock_files_stuck"); for (auto &n : list_dir(dg.d)) if (is_lock_name(n)) unlink((dg.d + "/" + n).c_str()); }
        // what is on disk now
        DirGuard d2("fr"); string dir = dg.d;
        if (abandoned) { write_files(d2.d, read_files(dg.d)); dir = d2.d; count("abandoned"); }
        Engine n(s.S, dir); n.open();
        string msg; long first = -1; int c3;
        long lo = e.lo, hi = e.hi;
        c3 = guarded([&] { n.ir = frt_ir_open(n.store); first = e.which(n.ir, lo, hi, msg); }, &why);
        CHECK(!c3, "fault-unreadable", "%s: afterwards the index cannot be read: error %d %s (operation %s %s)", what.c_str(), c3, why.c_str(), i < s.ops.size() ? op_name(s.ops[i].k) : "end", reported ? "reported the fault" : "reported success");
        CHECK(first >= 0, reported ? "fault-damage" : "fault-silent", "%s: afterwards the index holds none of the states %ld..%ld (operation %s %s): %s", what.c_str(), lo, hi, i < s.ops.size() ? op_name(s.ops[i].k) : "end", reported ? "reported the fault" : "reported success", msg.c_str());
        { auto *x = n.ir; n.ir = nullptr; frt_ir_close(x); }
        n.start(e.states[first]);
        vector<COp> ops; COp w; w.k = COp::OPEN_W; w.cfg = gen_config(rng); ops.push_back(w); ops.push_back(op_add(rng, s.S, serial, o));
        if (rng.chance(1, 2)) { COp d; d.k = COp::OPT; ops.push_back(d); }
        COp c; c.k = COp::CLOSE_W; ops.push_back(c);
        c3 = guarded([&] { for (auto &op : ops) n.run(op); }, &why);
        CHECK(!c3, "fault-no-writer", "%s: afterwards a new writer fails: error %d %s", what.c_str(), c3, why.c_str());
        c3 = guarded([&] { n.ir = frt_ir_open(n.store); first = n.which(n.ir, n.hi, n.hi, msg); }, &why);
        CHECK(!c3 && first >= 0, "fault-recovery", "%s: afterwards a new writer's changes are not readable: error %d %s", what.c_str(), c3, c3 ? why.c_str() : msg.c_str());
        { auto *x = n.ir; n.ir = nullptr; frt_ir_close(x); }
        n.shut(); count("recoveries_checked");
    }
    nontrivial(fired > 2);
    sample(fmt("%zu operations making %ld calls, %d faults injected", s.ops.size(), ncalls, fired));
}

// ------------------------------------------------------------------ C17
static const char *const FOREIGN[] = {"README", "notes.txt", "photo.cfs", "report.del", "_data.bin", "x.f1", "list.s2", ".hidden", "-dash", "segments.txt", "data.frq", "my.gen", "ferret.conf", "other.lck"};
static string fd_leak(const string &dir) {
    string out; DIR *d = opendir("/proc/self/fd"); if (!d) return out;
    while (struct dirent *e = readdir(d)) { char b[600]; string p = string("/proc/self/fd/") + e->d_name; ssize_t n = readlink(p.c_str(), b, sizeof b - 1); if (n > 0) { b[n] = 0; if (strncmp(b, dir.c_str(), dir.size()) == 0) out += string(" ") + (b + dir.size()); } }
    closedir(d); return out;
}
// nothing is open: the directory holds what the current commit needs, the foreign files, and nothing else
static void check_files(Engine &e, const map<string, string> &foreign, const string &when) {
    string leak = fd_leak(e.dir);
    CHECK(leak.empty(), "files-handles", "%s: everything is closed but these files are still open:%s", when.c_str(), leak.c_str());
    Files all = read_files(e.dir), mine;
    for (auto &kv : foreign) { auto it = all.find(kv.first); CHECK(it != all.end(), "files-foreign-removed", "%s: %s, which is no file of the index, was removed", when.c_str(), kv.first.c_str()); CHECK(it->second == kv.second, "files-foreign-changed", "%s: %s, which is no file of the index, was changed", when.c_str(), kv.first.c_str()); }
    for (auto &kv : all) if (!foreign.count(kv.first)) { CHECK(!is_lock_name(kv.first), "files-lock", "%s: the lock file %s was left behind", when.c_str(), kv.first.c_str()); mine.insert(kv); }
    // a file whose absence nobody notices is not part of the commit
    int needed = 0;
    for (auto &kv : mine) {
        if (kv.first == "segments") continue;          // the generation hint
        DirGuard g("mn"); Files f = mine; f.erase(kv.first); write_files(g.d, f);
        Engine n(e.S, g.d); n.open(); string why, msg; long first = -1;
        int code = guarded([&] { n.ir = frt_ir_open(n.store); first = e.which(n.ir, e.hi, e.hi, msg); }, &why);
        if (!code && first >= 0) { string l; for (auto &x : mine) l += " " + x.first; fail("files-leftover", "%s: %s is left over, the index is complete without it (directory:%s)", when.c_str(), kv.first.c_str(), l.c_str()); }
        needed++;
    }
    count("files_needed", needed); count("directories_checked");
    { Engine n(e.S, e.dir); n.open(); string why, msg; long first = -1; int code = guarded([&] { n.ir = frt_ir_open(n.store); first = e.which(n.ir, e.hi, e.hi, msg); }, &why); CHECK(!code && first >= 0, "files-content", "%s: the index does not hold the last commit: error %d %s", when.c_str(), code, code ? why.c_str() : msg.c_str()); }
}
MODE(files) {
    GenOpt o = small_docs(rng);
    Schema S = gen_schema(rng, M_ALL); if (rng.chance(1, 4)) while (S.names.size() < 12) S = gen_schema(rng, M_ALL); long serial = 0;
    DirGuard dg("ix");
    map<string, string> foreign;
    for (auto n : FOREIGN) if (rng.chance(1, 2)) foreign[n] = string(rng.below(40), (char)('a' + rng.below(26)));
    if (rng.chance(1, 3)) foreign[string(rng.range(95, 200), 'l') + ".cfs"] = "long";
    for (auto &kv : foreign) write_file(dg.d + "/" + kv.first, kv.second);
    if (rng.chance(1, 3)) { mkdir((dg.d + "/subdir").c_str(), 0755); }
    Engine e(S, dg.d);
    e.create();
    vector<COp> ops; gen_ops(rng, S, ops, serial, rng.range(2, 20), o, false);
    int start = rng.below(4);                          // 0,1 clean; 2 residue of a crash; 3 residue of a fault
    bool checked = false;
    IO.log.clear(); IO.arm(dg.d); IO.rec = true;
    Files base; if (start == 2) base = read_files(dg.d);
    long nfail = -1;
    if (start == 3) { IO.fail_at = rng.below(600); IO.mode = rng.below(6); IO.persistent = rng.chance(1, 2) ? 2 : 0; nfail = IO.fail_at; }
    string why; int code = 0; size_t i = 0;
    for (; i < ops.size(); i++) {
        note("%s", op_text(ops[i]).c_str()); sig(op_text(ops[i]));
        code = guarded([&] { e.run(ops[i]); }, &why);
        if (code) break;
        if (start < 2 && !e.iw && !e.ir && rng.chance(1, 3)) {
            IO.armed = false; e.shut(); check_files(e, foreign, fmt("after '%s'", op_text(ops[i]).c_str())); e.open(); IO.armed = true; checked = true;
        }
    }
    if (code && start != 3) fail("raised", "error %d without a fault: %s", code, why.c_str());
    if (code) {
        note("reports %d %s", code, why.substr(0, 160).c_str());
        if (e.iw) { auto *x = e.iw; e.iw = nullptr; guarded([&] { frt_iw_close(x); }); }
        if (e.ir) { auto *x = e.ir; e.ir = nullptr; e.expect(e.pend); guarded([&] { frt_ir_close(x); }); }
    }
    bool fault = IO.fired; string what = IO.what;
    vector<IoEv> log = IO.log; IO.disarm(); IO.log.clear();
    for (auto &ev : log) for (auto &f : foreign) if (ev.a == f.first || ev.b == f.first) fail("files-foreign-touched", "'%s' though that is no file of the index", io_name(ev).c_str());
    e.shut();
    if (start < 2 || (start == 3 && !fault)) { check_files(e, foreign, "at the end"); checked = true; nontrivial(e.hi > 1); }
    else {
        DirGuard d2("rs"); Files f; long lo = e.lo, hi = e.hi; string how;
        if (start == 2) {
            f = base; size_t k = rng.below((uint32_t)log.size() + 1);
            if (rng.chance(1, 2)) { vector<size_t> at; for (size_t q = 0; q < log.size(); q++) { size_t p = log[q].a.rfind('.'); if (p != string::npos && p + 2 < log[q].a.size() && strchr("sf", log[q].a[p + 1]) && isdigit((unsigned char)log[q].a[p + 2])) at.push_back(q + 1); } if (!at.empty()) k = at[rng.below((uint32_t)at.size())]; }     // when norms have just been written
            for (size_t q = 0; q < k; q++) io_apply(f, log[q]);
            if (k < log.size()) { lo = log[k].lo; hi = log[k].hi; if (log[k].k == IoEv::WRITE && log[k].data.size() > 1) io_apply(f, log[k], rng.below((uint32_t)log[k].data.size())); how = "a crash before '" + io_name(log[k]) + "'"; } else how = "a crash at the end";
        } else { f = read_files(dg.d); how = fmt("a fault at %s", what.c_str()); (void)nfail; }
        write_files(d2.d, f); for (auto &kv : foreign) write_file(d2.d + "/" + kv.first, kv.second);
        Engine n(S, d2.d); n.open(); string msg; long first = -1;
        code = guarded([&] { n.ir = frt_ir_open(n.store); first = e.which(n.ir, lo, hi, msg); auto *x = n.ir; n.ir = nullptr; frt_ir_close(x); }, &why);
        if (code || first < 0) fail("files-recovery", "after %s the index cannot be used: %d %s", how.c_str(), code, code ? why.c_str() : msg.c_str());
        n.start(e.states[first]);
        vector<COp> o2; COp w; w.k = COp::OPEN_W; w.cfg = gen_config(rng); o2.push_back(w); int m = rng.below(4); for (int q = 0; q < m; q++) o2.push_back(op_add(rng, S, serial, o)); COp c; c.k = COp::CLOSE_W; o2.push_back(c);
        for (auto &op : o2) note("(recovery) %s", op_text(op).c_str());
        code = guarded([&] { for (auto &op : o2) n.run(op); }, &why);
        if (code) fail("files-recovery", "after %s a writer fails: %d %s", how.c_str(), code, why.c_str());
        n.shut();
        check_files(n, foreign, "after " + how + " and a new writer"); count(start == 2 ? "crash_residues_cleaned" : "fault_residues_cleaned"); checked = true; nontrivial(true);
    }
    // creating over it, or clearing it, removes all of the index and nothing else
    if (checked && start < 2 && rng.chance(1, 3)) {
        e.open(); int how = rng.below(3);
        if (how == 0) e.create();
        else if (how == 1) e.store->clear_all(e.store); else e.store->clear(e.store);
        e.shut();
        if (how == 0) check_files(e, foreign, "after creating over the index");
        else for (auto &kv : read_files(dg.d)) CHECK(foreign.count(kv.first), "files-clear", "%s is left after clearing the index", kv.first.c_str());
        for (auto &kv : foreign) { string s; CHECK(access((dg.d + "/" + kv.first).c_str(), F_OK) == 0 && read_file(dg.d + "/" + kv.first, s) && s == kv.second, "files-foreign-removed", "clearing or creating removed or changed %s, which is no file of the index", kv.first.c_str()); }
        count(how == 0 ? "created_over" : "cleared");
    }
    sample(fmt("%zu operations, %zu foreign files, %zu changes", ops.size(), foreign.size(), log.size()));
}
