// C21: threads sharing an index object, a writer, a reader and searcher, or nothing but the library.
#include "common.h"
#include "model.h"
#include "world.h"
#include "q.h"
#include "corpus.h"
extern "C" {
#include "ind.h"
}
#include <thread>
#include <atomic>
#include <mutex>
#include <deque>
#include <unordered_set>
#include <climits>

// Threads start together; each has its own random numbers, and reports by returning a text (empty: fine).
struct Team {
    vector<std::thread> t; vector<string> bad; std::atomic<int> ready{0};
    template <class F> void run(int k, Rng &rng, F f) {
        bad.assign(k, ""); vector<uint64_t> seeds; for (int i = 0; i < k; i++) seeds.push_back(rng.next());
        for (int i = 0; i < k; i++) t.emplace_back([&, i] {
            Rng r(seeds[i]); ready++; while (ready < k) {}
            string why; int e = guarded([&] { bad[i] = f(i, r); }, &why);
            if (e) bad[i] = fmt("raised error %d: %s", e, why.c_str());
        });
        for (auto &x : t) x.join();
        t.clear(); ready = 0;
    }
    void check(const char *key) { for (size_t i = 0; i < bad.size(); i++) if (!bad[i].empty()) fail(key, "thread %zu: %s", i, bad[i].c_str()); }
};
static void jitter(Rng &r) { switch (r.below(6)) { case 0: std::this_thread::yield(); break; case 1: usleep(r.below(200)); break; default: break; } }

// ------------------------------------------------------------------ separate indexes
static const char *VW[] = {"ant", "bee", "cat", "dog", "eel", "fox"};
static void put(FrtDocument *d, const char *f, const string &v) { FrtDocField *df = frt_df_new(FRT_I(f)); frt_df_add_data(df, strdup(v.c_str())); df->destroy_data = true; frt_doc_add_field(d, df); }

struct OwnIx {   // one thread's index and its model
    FrtStore *st = nullptr; string dir; struct D { string id, text; vector<int> w; int n; bool live; }; vector<D> docs; int serial = 0; string name;
    string run(Rng &r, const string &tag) {
        name = tag; st = dir.empty() ? frt_open_ram_store() : frt_open_fs_store(dir.c_str());
        FrtFieldInfos *fis = frt_fis_new(FRT_STORE_YES, FRT_INDEX_YES, FRT_TERM_VECTOR_WITH_POSITIONS_OFFSETS);
        frt_fis_add_field(fis, frt_fi_new(FRT_I("id"), FRT_STORE_YES, FRT_INDEX_UNTOKENIZED, FRT_TERM_VECTOR_NO));
        frt_fis_add_field(fis, frt_fi_new(FRT_I(("own_" + tag).c_str()), FRT_STORE_YES, FRT_INDEX_UNTOKENIZED, FRT_TERM_VECTOR_NO));
        frt_index_create(st, fis); frt_fis_deref(fis);
        string bad; int rounds = r.range(1, 3);
        for (int k = 0; k < rounds && bad.empty(); k++) { write(r); bad = read(r); }
        frt_store_deref(st); st = nullptr; return bad;
    }
    void write(Rng &r) {
        FrtConfig c = frt_default_config; c.max_buffered_docs = r.range(2, 6); c.merge_factor = r.range(2, 4); c.use_compound_file = r.chance(1, 2);
        FrtAnalyzer *an = r.chance(1, 2) ? frt_whitespace_analyzer_new(false) : r.chance(1, 2) ? frt_standard_analyzer_new(true) : frt_mb_standard_analyzer_new(true);
        FrtIndexWriter *iw = frt_iw_open(st, an, &c);
        int n = r.range(2, 12);
        for (int i = 0; i < n; i++) {
            D d; d.id = fmt("%s-%d", name.c_str(), serial++); d.live = true; d.n = r.below(100); int k = r.range(1, 6);
            while (k--) { d.w.push_back(r.below(6)); d.text += (d.text.empty() ? "" : " ") + string(VW[d.w.back()]); }
            FrtDocument *fd = frt_doc_new(); put(fd, "id", d.id); put(fd, "t", d.text); put(fd, ("own_" + name).c_str(), fmt("%03d", d.n)); frt_iw_add_doc(iw, fd); frt_doc_destroy(fd);
            docs.push_back(d);
            if (r.chance(1, 6) && !docs.empty()) { auto &x = docs[r.below((uint32_t)docs.size())]; frt_iw_delete_term(iw, FRT_I("id"), x.id.c_str()); x.live = false; }
            if (r.chance(1, 10)) frt_iw_commit(iw);
            jitter(r);
        }
        if (r.chance(1, 4)) frt_iw_optimize(iw);
        frt_iw_close(iw);
    }
    string read(Rng &r) {
        FrtIndexReader *ir = frt_ir_open(st); FrtSearcher *se = frt_isea_new(ir); string bad; int live = 0; for (auto &d : docs) live += d.live;
        if (ir->num_docs(ir) != live) bad = fmt("%d documents, expected %d", ir->num_docs(ir), live);
        FrtQParser *qp = frt_qp_new(frt_whitespace_analyzer_new(false)); frt_qp_add_field(qp, FRT_I("t"), true, true);
        for (int k = 0; k < 6 && bad.empty(); k++) {
            int a = r.below(6), b = r.below(6); string s; std::function<bool(const D &)> p; auto has = [](const D &d, int w) { return std::find(d.w.begin(), d.w.end(), w) != d.w.end(); };
            switch (r.below(4)) {
            case 0: s = fmt("t:%s", VW[a]); p = [=](const D &d) { return has(d, a); }; break;
            case 1: s = fmt("+%s -%s", VW[a], VW[b]); p = [=](const D &d) { return has(d, a) && !has(d, b); }; break;
            case 2: s = fmt("%c*", VW[a][0]); p = [=](const D &d) { return has(d, a); }; break;
            default: s = fmt("\"%s %s\"", VW[a], VW[b]); p = [=](const D &d) { for (size_t i = 0; i + 1 < d.w.size(); i++) if (d.w[i] == a && d.w[i + 1] == b) return true; return false; };
            }
            FrtQuery *q = frt_qp_parse(qp, (char *)s.c_str()); FrtSort *so = nullptr;
            if (r.chance(1, 2)) { so = frt_sort_new(); frt_sort_add_sort_field(so, frt_sort_field_int_new(FRT_I(("own_" + name).c_str()), false)); }
            FrtTopDocs *td = se->search(se, q, 0, 1000, NULL, so, NULL, false);
            set<string> want, got; for (auto &d : docs) if (d.live && p(d)) want.insert(d.id);
            int last = -1;
            for (int i = 0; i < td->size; i++) {
                FrtDocument *fd = se->get_doc(se, td->hits[i]->doc); FrtDocField *df = frt_doc_get_field(fd, FRT_I("id")); string id = df ? string(df->data[0], df->lengths[0]) : "?"; got.insert(id);
                FrtDocField *nf = frt_doc_get_field(fd, FRT_I(("own_" + name).c_str())); int n = nf ? atoi(nf->data[0]) : -2; if (so && n < last) bad = "sorted hits are out of order"; last = n; frt_doc_destroy(fd);
            }
            if (want != got || td->total_hits != (int)want.size()) bad = fmt("'%s' finds %d documents (%zu distinct), expected %zu", s.c_str(), td->total_hits, got.size(), want.size());
            frt_td_destroy(td); if (so) frt_sort_destroy(so); frt_q_deref(q); jitter(r);
        }
        frt_qp_destroy(qp); se->close(se); return bad;
    }
};
MODE(thr_separate) {
    int k = rng.range(2, 5); std::deque<OwnIx> own(k); vector<DirGuard> dg; vector<string> dirs(k);
    for (int i = 0; i < k; i++) if (rng.chance(1, 2)) own[i].dir = dirs[i] = fresh_dir("t");
    Team tm; tm.run(k, rng, [&](int i, Rng &r) { return own[i].run(r, fmt("w%d", i)); });
    for (auto &d : dirs) if (!d.empty()) rm_rf(d);
    tm.check("separate");
    long docs = 0; for (auto &o : own) { docs += (long)o.docs.size(); sig((long)o.docs.size()); }
    count("threads", k); count("documents", docs); nontrivial();
}

// ------------------------------------------------------------------ one reader and searcher, many threads
struct Probe { Q q; int sort; int first, num; bool filt; string want; };
static FrtSort *probe_sort(int k) {
    if (!k) return nullptr; FrtSort *s = frt_sort_new();
    frt_sort_add_sort_field(s, k == 1 ? frt_sort_field_string_new(FRT_I("id"), false) : k == 2 ? frt_sort_field_int_new(FRT_I("n"), true) : k == 3 ? frt_sort_field_float_new(FRT_I("n"), false) : k == 4 ? frt_sort_field_string_new(FRT_I("s"), true) : frt_sort_field_doc_new(true)); return s;
}
static string probe_run(FrtSearcher *se, const Probe &p) {
    FrtQuery *q = build(p.q); SG so{probe_sort(p.sort)}; FG f{p.filt ? frt_rfilt_new(FRT_I("k"), "a", "c", true, true) : nullptr};
    FrtTopDocs *td = se->search(se, q, p.first, p.num, f.f, so.s, NULL, false); string s = fmt("%d:", td->total_hits);
    for (int i = 0; i < td->size; i++) s += fmt(" %d/%.6g", td->hits[i]->doc, td->hits[i]->score);
    frt_td_destroy(td); int buf[20]; int n = se->search_unscored(se, q, buf, 20, 0); s += fmt(" |%d", n); for (int i = 0; i < n; i++) s += fmt(" %d", buf[i]);
    frt_q_deref(q); return s;
}
static string doc_text(FrtIndexReader *ir, int d, int how) {
    string s;
    if (ir->is_deleted(ir, d)) return "deleted";
    if (how == 0) { FrtDocument *fd = ir->get_doc(ir, d); for (int i = 0; i < fd->size; i++) { s += FRT_S(fd->fields[i]->name); s += '='; for (int j = 0; j < fd->fields[i]->size; j++) s += string(fd->fields[i]->data[j], fd->fields[i]->lengths[j]) + ","; } frt_doc_destroy(fd); }
    else if (how == 1) { FrtLazyDoc *ld = ir->get_lazy_doc(ir, d); for (int i = 0; i < ld->size; i++) { FrtLazyDocField *lf = ld->fields[i]; s += FRT_S(lf->name); s += '='; for (int j = 0; j < lf->size; j++) s += string(frt_lazy_df_get_data(lf, j)) + ","; } frt_lazy_doc_close(ld); }
    else { FrtTermVector *tv = ir->term_vector(ir, d, FRT_I("a")); if (tv) { for (int i = 0; i < tv->term_cnt; i++) { s += tv->terms[i].text; for (int j = 0; j < tv->terms[i].freq; j++) s += fmt(" %d", tv->terms[i].positions[j]); } frt_tv_destroy(tv); } }
    return s;
}
static string terms_text(FrtIndexReader *ir, const char *f) {
    string s; FrtTermEnum *te = frt_ir_terms(ir, FRT_I(f)); if (!te) return "none"; int n = 0;
    while (te->next(te) && n++ < 40) { s += te->curr_term; s += fmt("/%d", ir->doc_freq(ir, frt_fis_get_field_num(ir->fis, FRT_I(f)), te->curr_term)); }
    te->close(te);
    FrtTermDocEnum *t = frt_ir_term_positions_for(ir, FRT_I(f), "a"); if (t) { while (t->next(t)) { s += fmt(" %d", t->doc_num(t)); int k = t->freq(t); while (k--) s += fmt(",%d", t->next_position(t)); } t->close(t); }
    return s;
}
MODE(thr_read) {
    Corpus co(rng, 40, 24, true); QGen g{rng, co.vocab}; g.classes = 7;
    int n = rng.range(4, 12); vector<Probe> ps(n); 
    for (auto &p : ps) { p.q = g.gen(rng.range(0, 2)); p.sort = rng.chance(1, 2) ? 0 : rng.range(1, 5); p.first = rng.chance(2, 3) ? 0 : rng.below(4); p.num = rng.chance(1, 2) ? 1000 : rng.range(1, 5); p.filt = rng.chance(1, 4); }
    FrtIndexReader *ir = co.ir; int md = ir->max_doc(ir); vector<string> docs(md * 3), terms(2);
    {   // what one thread sees, with a reader of its own
        FrtSearcher *se = frt_isea_new(frt_ir_open(co.w.store)); FrtIndexReader *ir2 = ((FrtIndexSearcher *)se)->ir;
        for (auto &p : ps) { p.want = probe_run(se, p); sig(p.want); }
        for (int d = 0; d < md; d++) for (int h = 0; h < 3; h++) docs[d * 3 + h] = doc_text(ir2, d, h);
        terms[0] = terms_text(ir2, "a"); terms[1] = terms_text(ir2, "k"); se->close(se);
    }
    // a reader nobody has used yet
    co.reopen(); ir = co.ir; FrtSearcher *se = co.sea; bool own_sea = rng.chance(1, 3);
    int k = rng.range(2, 6); std::atomic<long> done{0};
    Team tm; tm.run(k, rng, [&](int, Rng &r) -> string {
        FrtSearcher *s = se; if (own_sea) { s = frt_isea_new(ir); ((FrtIndexSearcher *)s)->close_ir = false; }
        string bad;
        for (int i = 0; i < 25 && bad.empty(); i++) {
            switch (r.below(5)) {
            case 0: case 1: { auto &p = ps[r.below((uint32_t)ps.size())]; string got = probe_run(s, p); if (got != p.want) bad = fmt("query %s sort %d gives %s, alone %s", qs(p.q).c_str(), p.sort, got.substr(0, 200).c_str(), p.want.substr(0, 200).c_str()); break; }
            case 2: case 3: if (md) { int d = r.below(md), h = r.below(3); string got = doc_text(ir, d, h); if (got != docs[d * 3 + h]) bad = fmt("document %d (way %d) reads %s, alone %s", d, h, esc(got, 200).c_str(), esc(docs[d * 3 + h], 200).c_str()); } break;
            default: { int f = r.below(2); string got = terms_text(ir, f ? "k" : "a"); if (got != terms[f]) bad = fmt("terms of %s: %s, alone %s", f ? "k" : "a", esc(got, 200).c_str(), esc(terms[f], 200).c_str()); }
            }
            done.fetch_add(1, std::memory_order_relaxed); jitter(r);
        }
        if (own_sea) s->close(s);
        return bad;
    });
    tm.check("read");
    count("threads", k); count("operations", done); nontrivial(md > 0);
}

// ------------------------------------------------------------------ one writer, many threads, others reading meanwhile
// Every thread updates documents of its own through the writer all share: an operation puts a new version of one of its
// documents or deletes it. A snapshot read at any time must show each thread's documents as they were after some number
// of its operations: at least as many as a finished commit covers, at most as many as were begun.
struct Op1 { int slot; int ver; };            // ver 0: deletion
static const std::memory_order RLX = std::memory_order_relaxed;
struct WThread { vector<Op1> ops; std::atomic<int> begun{0}, ended{0}, safe{0}; int slots; };
static vector<int> state_after(const WThread &w, int n) { vector<int> v(w.slots, 0); for (int i = 0; i < n; i++) v[w.ops[i].slot] = w.ops[i].ver; return v; }
static string read_state(FrtIndexReader *ir, size_t k, int slots, vector<vector<int>> &st) {
    st.assign(k, vector<int>(slots, 0)); int n = 0;
    for (int d = 0; d < ir->max_doc(ir); d++) {
        if (ir->is_deleted(ir, d)) continue;
        FrtDocument *fd = ir->get_doc(ir, d); FrtDocField *id = frt_doc_get_field(fd, FRT_I("id")), *t = frt_doc_get_field(fd, FRT_I("t")); unsigned a = 99, b = 99; int v = -1, v2 = -1; n++;
        if (id) sscanf(id->data[0], "w%ud%u", &a, &b); if (t) sscanf(t->data[0], "v%d x%d", &v, &v2);
        if (t && strstr(t->data[0], " own")) { FrtDocField *o = frt_doc_get_field(fd, FRT_I(fmt("own%d", v % 37 + (int)a).c_str())); if (!o || o->data[0] != fmt("o%d", v)) v2 = -2; }     // a field of its own
        frt_doc_destroy(fd);
        if (a >= k || (int)b >= slots || v <= 0 || v2 != v) return fmt("document %d is damaged", d);
        if (st[a][b]) return fmt("document %u of thread %u is there twice, versions %d and %d", b, a, st[a][b], v);
        st[a][b] = v;
        int df = 0; FrtTermDocEnum *tde = frt_ir_term_docs_for(ir, FRT_I("id"), fmt("w%ud%u", a, b).c_str()); while (tde->next(tde)) { df++; if (tde->doc_num(tde) != d) df = 100; } tde->close(tde);
        if (df != 1) return fmt("the id of document %u of thread %u finds %d documents", b, a, df);
    }
    if (n != ir->num_docs(ir)) return fmt("%d documents are live, num_docs says %d", n, ir->num_docs(ir));
    return "";
}
MODE(thr_write) {
    string dir = rng.chance(1, 2) ? fresh_dir("t") : ""; FrtStore *st = dir.empty() ? frt_open_ram_store() : frt_open_fs_store(dir.c_str());
    FrtFieldInfos *fis = frt_fis_new(FRT_STORE_YES, FRT_INDEX_YES, FRT_TERM_VECTOR_WITH_POSITIONS_OFFSETS);
    frt_fis_add_field(fis, frt_fi_new(FRT_I("id"), FRT_STORE_YES, FRT_INDEX_UNTOKENIZED, FRT_TERM_VECTOR_NO)); frt_index_create(st, fis); frt_fis_deref(fis);
    FrtConfig c = frt_default_config; c.max_buffered_docs = rng.range(2, 20); c.merge_factor = rng.range(2, 4); c.use_compound_file = rng.chance(1, 2);
    FrtIndexWriter *iw = frt_iw_open(st, frt_whitespace_analyzer_new(false), &c);
    int k = rng.range(2, 4), readers = rng.range(0, 3), slots = rng.range(1, 4); std::deque<WThread> w(k); int per = rng.range(4, 24), fresh = rng.range(1, 6);
    for (auto &x : w) { x.slots = slots; for (int i = 0; i < per; i++) x.ops.push_back({(int)rng.below(slots), rng.chance(1, 4) ? 0 : i + 1}); }
    std::atomic<int> left{k}; std::atomic<long> snaps{0}, commits{0}, mid{0};
    auto commit = [&] {                       // everything that had ended before is committed
        vector<int> e(k); for (int i = 0; i < k; i++) e[i] = w[i].ended.load(RLX);
        frt_iw_commit(iw);
        for (int i = 0; i < k; i++) { int o = w[i].safe.load(RLX); while (o < e[i] && !w[i].safe.compare_exchange_weak(o, e[i], RLX)) {} }
        commits.fetch_add(1, RLX);
    };
    Team tm; tm.run(k + readers, rng, [&](int me, Rng &r) -> string {
        if (me < k) {
            struct Done { std::atomic<int> &l; ~Done() { l.fetch_sub(1, RLX); } } dn{left};
            auto &x = w[me];
            for (int i = 0; i < per; i++) {
                auto &o = x.ops[i]; string id = fmt("w%dd%d", me, o.slot);
                x.begun.store(i + 1, RLX);
                // an update is two calls: a commit of another thread may come between them, and the document is absent then
                frt_iw_delete_term(iw, FRT_I("id"), id.c_str());
                if (o.ver) { FrtDocument *d = frt_doc_new(); put(d, "id", id); bool own = r.chance(1, fresh); put(d, "t", fmt("v%d x%d%s", o.ver, o.ver, own ? " own" : "")); if (own) put(d, fmt("own%d", o.ver % 37 + me).c_str(), fmt("o%d", o.ver)); frt_iw_add_doc(iw, d); frt_doc_destroy(d); }
                x.ended.store(i + 1, RLX);
                if (r.chance(1, 8)) commit();
                if (r.chance(1, 30)) frt_iw_optimize(iw);
                if (r.chance(1, 10) && frt_iw_doc_count(iw) < 0) return "doc_count is negative";
                jitter(r);
            }
            return "";
        }
        while (left.load(RLX) > 0) {
            vector<int> lo(k), hi(k); for (int i = 0; i < k; i++) lo[i] = w[i].safe.load(RLX);
            FrtIndexReader *ir = frt_ir_open(st);
            for (int i = 0; i < k; i++) hi[i] = w[i].begun.load(RLX);
            vector<vector<int>> s; string bad = read_state(ir, k, slots, s); frt_ir_close(ir);
            for (int i = 0; i < k && bad.empty(); i++) {
                bool ok = false;
                for (int n = lo[i]; n <= hi[i] && !ok; n++) {
                    auto v = state_after(w[i], n); ok = v == s[i];
                    if (!ok && n < hi[i]) { v[w[i].ops[n].slot] = 0; ok = v == s[i]; }   // the next one half done
                }
                if (!ok) { bad = fmt("the documents of thread %d are not as after any of %d..%d of its operations:", i, lo[i], hi[i]); for (int v : s[i]) bad += fmt(" %d", v); }
                if (lo[i] < hi[i]) mid.fetch_add(1, RLX);
            }
            if (!bad.empty()) return bad;
            snaps.fetch_add(1, RLX); jitter(r);
        }
        return "";
    });
    string bad; for (auto &b : tm.bad) if (!b.empty()) bad = b;
    if (bad.empty()) {
        frt_iw_close(iw); FrtIndexReader *ir = frt_ir_open(st); vector<vector<int>> s; bad = read_state(ir, k, slots, s); frt_ir_close(ir);
        for (int i = 0; i < k && bad.empty(); i++) if (s[i] != state_after(w[i], per)) { bad = fmt("in the end the documents of thread %d are", i); for (int v : s[i]) bad += fmt(" %d", v); bad += ", expected"; for (int v : state_after(w[i], per)) bad += fmt(" %d", v); }
        frt_store_deref(st); if (!dir.empty()) rm_rf(dir);
    }
    sig(k * 1000 + per); sig(slots); sig((long)snaps); sig((long)commits);
    if (!bad.empty()) fail("write", "%s", bad.c_str());
    count("threads", k + readers); count("updates", (long)k * per); count("snapshots_checked", snaps); count("commits", commits); count("thread_states_read_during_updates", mid); nontrivial();
}

// ------------------------------------------------------------------ one index object, many threads
// The recorded history of calls must be explained by some order of the calls which respects real time (Wing and Gong).
struct IDoc { int id, word, serial; };
struct ICall { int kind, a, b, serial; string res; long t0, t1; int thr; };
typedef vector<IDoc> IState;
static string istep(IState &s, const ICall &c, int keyed) {
    switch (c.kind) {
    case 0: if (keyed) s.erase(std::remove_if(s.begin(), s.end(), [&](const IDoc &d) { return d.id == c.a && (keyed == 1 || d.word == c.b); }), s.end()); s.push_back({c.a, c.b, c.serial}); return "";
    case 1: s.erase(std::remove_if(s.begin(), s.end(), [&](const IDoc &d) { return d.id == c.a; }), s.end()); return "";
    case 2: for (auto &d : s) if (d.id == c.a) return fmt("%d/%d", d.serial, d.word); return "none";
    case 3: return fmt("%zu", s.size());
    case 4: { string r; for (auto &d : s) if (d.word == c.b) r += fmt("%d ", d.serial); return r; }
    case 5: s.erase(std::remove_if(s.begin(), s.end(), [&](const IDoc &d) { return d.word == c.b; }), s.end()); return "";
    case 8: s.erase(std::remove_if(s.begin(), s.end(), [&](const IDoc &d) { return d.word == c.b; }), s.end()); return "";
    case 9: s.push_back({-1, c.b, -1}); return "";
    case 10: for (size_t i = 0; i < s.size(); i++) if (s[i].id == c.a) { s.erase(s.begin() + i); break; } return "";
    default: return "";
    }
}
static const char *IK[] = {"add", "delete_id", "get_doc_id", "size", "search", "delete_query", "optimize", "flush", "delete_query_object", "add_string", "delete_number", "look"};
struct Lin {
    const vector<ICall> &h; int keyed; std::unordered_set<string> seen; long nodes = 0; bool over = false;
    bool go(uint64_t done, const IState &s) {
        if (done == (1ull << h.size()) - 1) return true;
        if (++nodes > 2000000) { over = true; return true; }
        string key((const char *)&done, 8); for (auto &d : s) { key.append((const char *)&d.serial, 4); key.append((const char *)&d.word, 1); } if (!seen.insert(key).second) return false;
        long first = LONG_MAX; for (size_t i = 0; i < h.size(); i++) if (!(done >> i & 1)) first = std::min(first, h[i].t1);
        for (size_t i = 0; i < h.size(); i++) if (!(done >> i & 1) && h[i].t0 < first) { IState n = s; if (istep(n, h[i], keyed) == h[i].res && go(done | 1ull << i, n)) return true; }
        return false;
    }
};
static string doc_word(FrtDocument *d) { if (!d) return "none"; FrtDocField *t = frt_doc_get_field(d, FRT_I("t")), *n = frt_doc_get_field(d, FRT_I("n")); string s = fmt("%d/%d", n ? atoi(n->data[0]) : -1, t ? t->data[0][0] - 'a' : -1); return s; }
MODE(thr_index) {
    string dir = rng.chance(1, 2) ? fresh_dir("t") : ""; FrtStore *st = dir.empty() ? frt_open_ram_store() : frt_open_fs_store(dir.c_str());
    FrtFieldInfos *fis = frt_fis_new(FRT_STORE_YES, FRT_INDEX_YES, FRT_TERM_VECTOR_NO); for (auto f : {"id", "n"}) frt_fis_add_field(fis, frt_fi_new(FRT_I(f), FRT_STORE_YES, FRT_INDEX_UNTOKENIZED, FRT_TERM_VECTOR_NO)); frt_index_create(st, fis); frt_fis_deref(fis);
    FrtAnalyzer *an = frt_whitespace_analyzer_new(false); FrtHashSet *df = frt_hs_new_ptr(NULL); frt_hs_add(df, (void *)FRT_I("t"));
    FrtIndex *ix = frt_index_new(st, an, df, false); frt_hs_destroy(df); frt_a_deref(an); int keyed = rng.below(3); bool af = rng.chance(1, 2); ix->def_field = FRT_I("t"); ix->auto_flush = af; ix->config.use_compound_file = rng.chance(1, 2);
    if (keyed) { ix->key = frt_hs_new_ptr(NULL); frt_hs_add(ix->key, (void *)FRT_I("id")); if (keyed == 2) frt_hs_add(ix->key, (void *)FRT_I("t")); }
    int k = rng.range(1, 4), per = rng.range(3, k == 4 ? 9 : 12), ids = rng.range(1, 3), words = rng.range(1, 3); vector<vector<ICall>> hs(k); std::atomic<long> clock{0}; std::atomic<int> serial{1};
    // what another reader of the store finds is what the calls did, when all of it was to be written
    auto stored = [&](const IState &m, const char *when) -> string {
        vector<string> want, got; for (auto &d : m) want.push_back(fmt("%d/%d", d.serial, d.word));
        FrtIndexReader *ir = frt_ir_open(st); for (int d = 0; d < ir->max_doc(ir); d++) if (!ir->is_deleted(ir, d)) { FrtDocument *fd = ir->get_doc(ir, d); got.push_back(doc_word(fd)); frt_doc_destroy(fd); } frt_ir_close(ir);
        std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); if (want == got) return "";
        string r = fmt("%s another reader finds", when); for (auto &x : got) r += " " + x; r += ", expected"; for (auto &x : want) r += " " + x; return r;
    };
    IState model; long looked = 0;
    auto call = [&](ICall &c) {
        c.t0 = clock.fetch_add(1, RLX);
        switch (c.kind) {
        case 0: { FrtDocument *d = frt_doc_new(); put(d, "id", fmt("i%d", c.a)); put(d, "t", fmt("%c", 'a' + c.b)); put(d, "n", fmt("%d", c.serial)); frt_index_add_doc(ix, d); frt_doc_destroy(d); break; }
        case 1: frt_index_delete_id(ix, fmt("i%d", c.a).c_str()); break;
        case 2: { FrtDocument *d = frt_index_get_doc_id(ix, fmt("i%d", c.a).c_str()); c.res = doc_word(d); if (d) frt_doc_destroy(d); break; }
        case 3: c.res = fmt("%d", frt_index_size(ix)); break;
        case 4: {                             // like the project's own callers: the mutex is held from the search to the last document
            struct L { FrtIndex *i; L(FrtIndex *x) : i(x) { pthread_mutex_lock(&i->mutex); } ~L() { pthread_mutex_unlock(&i->mutex); } } l(ix);
            string q = fmt("t:%c", 'a' + c.b); FrtTopDocs *td = frt_index_search_str(ix, (char *)q.c_str(), 0, 1000, NULL, NULL, NULL); vector<std::pair<int, int>> v;
            for (int i = 0; i < td->size; i++) { FrtDocument *d = frt_index_get_doc(ix, td->hits[i]->doc); FrtDocField *nf = frt_doc_get_field(d, FRT_I("n")); v.push_back({td->hits[i]->doc, nf ? atoi(nf->data[0]) : -1}); frt_doc_destroy(d); }
            if (td->total_hits != (int)v.size()) c.res = "total_hits wrong "; frt_td_destroy(td); std::sort(v.begin(), v.end()); for (auto &x : v) c.res += fmt("%d ", x.second); break; }
        case 5: { string q = fmt("t:%c", 'a' + c.b); frt_index_delete_query_str(ix, (char *)q.c_str(), NULL, NULL); break; }
        case 6: frt_index_optimize(ix); break;
        case 8: { string w(1, (char)('a' + c.b)); FrtQuery *q = frt_tq_new(FRT_I("t"), w.c_str()); frt_index_delete_query(ix, q, NULL, NULL); frt_q_deref(q); break; }
        case 9: { string w(1, (char)('a' + c.b)); if (c.serial & 1) frt_index_add_string(ix, (char *)w.c_str()); else { char **v = frt_ary_new_type_capa(char *, 2); frt_ary_push(v, (char *)w.c_str()); if (c.serial & 2) frt_ary_push(v, (char *)"zz"); frt_index_add_array(ix, v); frt_ary_free(v); } break; }
        case 10: {  // by number, which only a thread alone can know
            pthread_mutex_lock(&ix->mutex); int n = frt_index_term_id(ix, FRT_I("id"), fmt("i%d", c.a).c_str()); pthread_mutex_unlock(&ix->mutex);
            if (n < 0) break;
            FrtDocument *d = frt_index_get_doc_ts(ix, n); string id = frt_doc_get_field(d, FRT_I("id"))->data[0]; frt_doc_destroy(d); if (id != fmt("i%d", c.a)) c.res = "another document ";
            if (frt_index_is_deleted(ix, n)) c.res += "deleted before ";
            frt_index_delete(ix, n); if (!frt_index_is_deleted(ix, n)) c.res += "not deleted after "; if (!frt_index_has_del(ix)) c.res += "no deletions"; break; }
        case 11: {  // only for what it does to the others
            if (c.serial % 3 == 0) frt_index_has_del(ix);
            else if (c.serial % 3 == 1) guarded([&] { frt_index_is_deleted(ix, 0); }, nullptr);
            else { string w(1, (char)('a' + c.b)); FrtQuery *q = frt_tq_new(FRT_I("t"), w.c_str()); FrtExplanation *e = nullptr; guarded([&] { e = frt_index_explain(ix, q, 0); }, nullptr); if (e) frt_expl_destroy(e); frt_q_deref(q); }
            break; }
        default: pthread_mutex_lock(&ix->mutex); frt_index_flush(ix); pthread_mutex_unlock(&ix->mutex);
        }
        c.t1 = clock.fetch_add(1, RLX);
    };
    Team tm; tm.run(k, rng, [&](int me, Rng &r) -> string {
        for (int i = 0; i < per; i++) {
            ICall c; c.thr = me; c.a = r.below(ids); c.b = r.below(words); c.serial = serial.fetch_add(1, RLX); int p = r.below(25);
            c.kind = p < 8 ? 0 : p < 10 ? 1 : p < 12 ? 2 : p < 14 ? 3 : p < 17 ? 4 : p < 18 ? 5 : p < 19 ? 6 : p < 20 ? 7 : p < 21 ? 8 : p < 22 ? (keyed == 2 ? 0 : 9) : p < 23 ? (k == 1 ? 10 : 1) : 11;
            call(c); hs[me].push_back(c); jitter(r);
            if (k == 1) { istep(model, c, keyed); bool change = c.kind != 2 && c.kind != 3 && c.kind != 4 && c.kind != 11; if (c.kind == 7 || (af && change)) { string bad = stored(model, fmt("after %s%s", IK[c.kind], af ? " with auto flush" : "").c_str()); looked++; if (!bad.empty()) return bad; } }
        }
        return "";
    });
    tm.check("index");
    vector<ICall> h; for (auto &v : hs) h.insert(h.end(), v.begin(), v.end());
    for (int i = 0; i <= words; i++) { ICall c; c.thr = 9; c.kind = i ? 4 : 3; c.a = 0; c.b = i - 1; c.serial = 0; call(c); h.push_back(c); }
    long overlaps = 0; for (auto &x : h) for (auto &y : h) overlaps += x.thr < y.thr && x.t0 < y.t1 && y.t0 < x.t1;
    Lin lin{h, keyed}; bool ok = lin.go(0, IState()); for (auto &x : h) sig(x.res);
    if (!ok) { string s; std::sort(h.begin(), h.end(), [](const ICall &x, const ICall &y) { return x.t0 < y.t0; }); for (auto &x : h) s += fmt(" [%ld-%ld t%d %s(i%d,%c)#%d=%s]", x.t0, x.t1, x.thr, IK[x.kind], x.a, 'a' + x.b, x.serial, x.res.c_str()); fail("history", "no order of the calls explains (%s%s)%s", keyed ? keyed == 1 ? "keyed" : "key of two fields" : "no key", af ? ", auto flush" : "", s.c_str()); }
    { string t; for (size_t i = 0; i < h.size() && i < 6; i++) t += fmt(" t%d %s@%ld-%ld", h[i].thr, IK[h[i].kind], h[i].t0, h[i].t1); sample(fmt("%d threads, %zu calls, %ld overlapping pairs, order found in %ld steps:", k, h.size(), overlaps, lin.nodes) + t); }
    frt_index_destroy(ix); if (k == 1) { string bad = stored(model, "after closing the index"); looked++; CHECK(bad.empty(), "stored", "%s", bad.c_str()); }
    frt_store_deref(st); if (!dir.empty()) rm_rf(dir); count("stored_states_compared", looked);
    count("threads", k); count("calls", (long)h.size()); count("overlapping_call_pairs", overlaps); count("search_nodes", lin.nodes); if (lin.over) count("histories_too_wide"); nontrivial(k > 1 && overlaps);
}

// ------------------------------------------------------------------ errors in several threads
// Threads provoke errors all the time, on the same objects: each gets its own, and what they share stays usable.
MODE(thr_error) {
    string dir = fresh_dir("t"); FrtStore *st = frt_open_fs_store(dir.c_str());
    FrtFieldInfos *fis = frt_fis_new(FRT_STORE_YES, FRT_INDEX_YES, FRT_TERM_VECTOR_NO); frt_index_create(st, fis); frt_fis_deref(fis);
    FrtAnalyzer *an = frt_whitespace_analyzer_new(false); FrtHashSet *df = frt_hs_new_ptr(NULL); frt_hs_add(df, (void *)FRT_I("t"));
    FrtIndex *ix = frt_index_new(st, an, df, false); frt_hs_destroy(df); frt_a_deref(an); int n = rng.range(1, 6);
    for (int i = 0; i < n; i++) { FrtDocument *d = frt_doc_new(); put(d, "id", fmt("i%d", i)); put(d, "t", "a b"); frt_index_add_doc(ix, d); frt_doc_destroy(d); }
    frt_index_flush(ix);
    FrtIndexReader *ir = frt_ir_open(st); FrtSearcher *se = frt_isea_new(ir);
    FrtQParser *qp = frt_qp_new(frt_whitespace_analyzer_new(false)); frt_qp_add_field(qp, FRT_I("t"), true, true); qp->clean_str = false; qp->handle_parse_errors = false;
    int k = rng.range(2, 4), per = rng.range(5, 25); std::atomic<long> errs{0}, fine{0};
    Team tm; tm.run(k, rng, [&](int me, Rng &r) -> string {
        for (int i = 0; i < per; i++) {
            string msg, want; int e = 0, code = 0, x = 1000 * (me + 1) + i;
            switch (r.below(7)) {
            case 0: code = FRT_FILE_NOT_FOUND_ERROR; want = fmt("_n%d.frq", x); e = guarded([&] { frt_is_close(st->open_input(st, want.c_str())); }, &msg); break;
            case 1: e = guarded([&] { frt_doc_destroy(frt_index_get_doc_ts(ix, 100 + x)); }, &msg); code = e ? e : -1; break;   // which error is open
            case 2: { code = FRT_PARSE_ERROR; string q = fmt("t:a AND (b%d", x); want = fmt("b%d", x); e = guarded([&] { frt_q_deref(frt_qp_parse(qp, (char *)q.c_str())); }, &msg); break; }
            case 3: { code = FRT_ARG_ERROR; want = fmt("no_field_%d", x); FrtQuery *q = frt_maq_new(); FrtSort *s = frt_sort_new(); frt_sort_add_sort_field(s, frt_sort_field_int_new(FRT_I(want.c_str()), false)); e = guarded([&] { frt_td_destroy(se->search(se, q, 0, 10, NULL, s, NULL, false)); }, &msg); frt_sort_destroy(s); frt_q_deref(q); break; }
            case 4: { code = FRT_ARG_ERROR; FrtQuery *q = frt_maq_new(); e = guarded([&] { frt_td_destroy(se->search(se, q, -x, 10, NULL, NULL, NULL, false)); }, &msg); frt_q_deref(q); break; }
            case 5: { FrtQuery *q = frt_tq_new(FRT_I("t"), "a"); FrtTopDocs *td = se->search(se, q, 0, 100, NULL, NULL, NULL, false); int h = td->total_hits; frt_td_destroy(td); frt_q_deref(q); if (h != n) return fmt("a search finds %d documents, expected %d", h, n); fine.fetch_add(1, RLX); continue; }
            default: { int s = frt_index_size(ix); if (s != n) return fmt("the index has %d documents, expected %d", s, n); fine.fetch_add(1, RLX); continue; }
            }
            if (e != code) return fmt("error %d (%s), expected %d", e, msg.c_str(), code);
            if (msg.find(want) == string::npos) return fmt("the message is %s, expected something about %s", esc(msg, 200).c_str(), want.c_str());
            errs.fetch_add(1, RLX); jitter(r);
        }
        return "";
    });
    tm.check("error");
    frt_qp_destroy(qp); se->close(se); frt_index_destroy(ix); frt_store_deref(st); rm_rf(dir);
    sig((long)errs); sig((long)fine); sig(k); count("threads", k); count("errors", errs); count("successes", fine); nontrivial();
}

// ------------------------------------------------------------------ writers and deleting readers of several threads, kept apart by the write lock
MODE(thr_lock) {
    string dir = rng.chance(1, 2) ? fresh_dir("t") : ""; FrtStore *st = dir.empty() ? frt_open_ram_store() : frt_open_fs_store(dir.c_str());
    FrtFieldInfos *fis = frt_fis_new(FRT_STORE_YES, FRT_INDEX_YES, FRT_TERM_VECTOR_NO); frt_index_create(st, fis); frt_fis_deref(fis);
    int k = rng.range(2, 4), per = rng.range(2, 8); std::atomic<int> inside{0}; std::atomic<long> refused{0}, done{0}, gone{0};
    vector<vector<int>> live(k);
    Team tm; tm.run(k, rng, [&](int me, Rng &r) -> string {
        for (int i = 0; i < per; i++) {
            bool del = !live[me].empty() && r.chance(1, 3); int victim = del ? live[me][r.below((uint32_t)live[me].size())] : -1; string msg, bad;
            for (int t = 0;; t++) {
                if (t > 400) return "never got the write lock";
                int e;
                if (del) {
                    FrtIndexReader *volatile ir = nullptr; FrtTermDocEnum *volatile tv = nullptr; volatile int n = 0;
                    e = guarded([&] { ir = frt_ir_open(st); FrtTermDocEnum *td = frt_ir_term_docs_for(ir, FRT_I("id"), fmt("w%dn%d", me, victim).c_str()); tv = td; while (td->next(td)) { frt_ir_delete_doc(ir, td->doc_num(td)); if (inside.fetch_add(1, RLX)) bad = "two hold the write lock"; n++; } }, &msg);
                    if (tv) tv->close(tv);
                    if (!e && n != 1) bad = fmt("a committed document is found %d times", (int)n);
                    if (n) inside.fetch_sub(1, RLX);
                    if (ir) { int e2 = guarded([&] { frt_ir_close(ir); }, &msg); if (!e) e = e2; }
                } else {
                    FrtIndexWriter *volatile iw = nullptr;
                    e = guarded([&] { iw = frt_iw_open(st, frt_whitespace_analyzer_new(false), NULL); }, &msg);
                    if (!e) {
                        if (inside.fetch_add(1, RLX)) bad = "two hold the write lock";
                        e = guarded([&] { FrtDocument *d = frt_doc_new(); put(d, "id", fmt("w%dn%d", me, i)); frt_iw_add_doc(iw, d); frt_doc_destroy(d); if (r.chance(1, 4)) frt_iw_commit(iw); if (r.chance(1, 8)) frt_iw_optimize(iw); }, &msg);
                        inside.fetch_sub(1, RLX); int e2 = guarded([&] { frt_iw_close(iw); }, &msg); if (!e) e = e2;
                    }
                }
                if (!bad.empty()) return bad;
                if (!e) break;
                // only a lock another holds, or an index another changed meanwhile, may stop it
                if (e != FRT_LOCK_ERROR && !(del && e == FRT_STATE_ERROR)) return fmt("error %d: %s", e, msg.c_str());
                refused.fetch_add(1, RLX); usleep(r.below(3000));
            }
            if (del) { live[me].erase(std::find(live[me].begin(), live[me].end(), victim)); gone.fetch_add(1, RLX); } else live[me].push_back(i);
            done.fetch_add(1, RLX);
        }
        return "";
    });
    tm.check("lock");
    FrtIndexReader *ir = frt_ir_open(st); vector<string> want, got; for (int i = 0; i < k; i++) for (int x : live[i]) want.push_back(fmt("w%dn%d", i, x));
    for (int d = 0; d < ir->max_doc(ir); d++) if (!ir->is_deleted(ir, d)) { FrtDocument *fd = ir->get_doc(ir, d); got.push_back(frt_doc_get_field(fd, FRT_I("id"))->data[0]); frt_doc_destroy(fd); }
    frt_ir_close(ir); frt_store_deref(st); if (!dir.empty()) rm_rf(dir); std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
    CHECK(want == got, "lock-lost", "%zu documents are left, expected %zu", got.size(), want.size());
    sig((long)refused); sig((long)gone); sig(k * 100 + per); count("threads", k); count("updates", done); count("refused_by_lock_or_version", refused); nontrivial(refused > 0);
}
