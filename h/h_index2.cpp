#include "world.h"

static string docs_brief(const MDoc &m) {
    string l; for (auto &f : m.fields) { l += f.name + "=["; for (auto &v : f.vals) l += esc(v, 40) + ","; l += "] "; }
    return l.substr(0, 300);
}

// ------------------------------------------------------------------ C05: settings do not change content
struct Op { int kind; vector<MDoc> docs; string field; vector<string> terms; };
static void apply(World &w, const Op &op, bool verify_now) {
    switch (op.kind) {
        case 0: w.ensure_writer(); for (auto &d : op.docs) w.add_one(d); note("add %zu", op.docs.size()); break;
        case 1: {
            w.ensure_writer();
            vector<char *> p; for (auto &t : op.terms) p.push_back((char *)t.c_str());
            if (p.size() == 1) frt_iw_delete_term(w.iw, SYM(op.field), p[0]);
            else frt_iw_delete_terms(w.iw, SYM(op.field), p.data(), (int)p.size());
            for (auto &t : op.terms) w.model_delete(op.field, t);
            note("delete %s:%s.. (%zu)", op.field.c_str(), esc(op.terms[0]).c_str(), op.terms.size());
            break;
        }
        case 2: w.commit(); break;
        case 3: w.optimize(); break;
        case 4: w.close_writer(); w.reopen_store(); break;
    }
    if (verify_now) {
        if (op.kind >= 2) w.verify("part-way", w.mask);
        if (op.kind == 3) CHECK(frt_iw_doc_count(w.iw) == w.live(), "doc-count", "writer counts %d docs after optimize, %d live", frt_iw_doc_count(w.iw), w.live());
    }
}
MODE(settings) {
    GenOpt o; o.maxbytes = 60; o.vocab = rng.chance(1, 2) ? 12 : 60; o.maxw = 8;
    Schema S = gen_schema(rng, M_ALL);
    vector<Op> ops; long serial = 0; int n = rng.range(4, 20);
    bool big = rng.chance(1, 5);
    for (int k = 0; k < n; k++) {
        Op op; int c = rng.below(12);
        op.kind = c < 6 ? 0 : c < 8 ? 1 : c < 9 ? 2 : c < 10 ? 3 : 4;
        if (op.kind == 0) { int m = rng.chance(1, big ? 3 : 8) ? rng.range(10, big ? 150 : 50) : rng.range(1, 9); for (int i = 0; i < m; i++) op.docs.push_back(gen_doc(rng, S, serial++, o)); }
        if (op.kind == 1) {
            if (rng.chance(2, 3) || serial == 0) { op.field = "id"; int m = rng.chance(1, 2) ? 1 : rng.range(2, 9); for (int i = 0; i < m; i++) op.terms.push_back(fmt("d%d", rng.below((uint32_t)serial + 2))); }
            else { auto names = S.all(); op.field = names[rng.below((uint32_t)names.size())]; if (!ix_indexed(S.cfg(op.field))) op.field = "id"; op.terms.push_back(gen_word(rng, o.vocab)); }
        }
        ops.push_back(op);
    }
    int worlds = 3; Snap first; int live = 0;
    for (int wi = 0; wi < worlds; wi++) {
        World w(rng, M_ALL); w.S = S; w.o = o; w.fs = wi == 0 ? rng.chance(1, 2) : rng.chance(1, 3);
        if (w.fs) w.dir = fresh_dir("ix");
        w.open_store(); w.create();
        for (auto &op : ops) apply(w, op, rng.chance(1, 3));
        w.close_writer(); w.reopen_store();
        w.verify("at the end", M_ALL);
        w.optimize(); w.close_writer(); w.reopen_store();
        w.verify("optimized at the end", M_ALL);
        FrtIndexReader *ir = frt_ir_open(w.store); World::Reader g{ir};
        Snap s = snap_reader(S, ir, M_ALL); string m;
        { char *t = frt_fis_to_s(ir->fis); string got = t; free(t); CHECK(got == fis_text(ir->fis, S), "field-settings", "the fields of the index are %s, expected %s", esc(got, 2000).c_str(), esc(fis_text(ir->fis, S), 2000).c_str()); }
        if (wi == 0) first = s; else if (snap_diff(first, s, m)) fail("settings-differ", "the same operations give different indexes: %s", m.c_str());
        live = w.live();
        count("indexes_compared");
    }
    for (auto &t : R.trace) sig(t);
    nontrivial(live > 1 && ops.size() > 3);
    sample(fmt("%zu operations, %ld documents (%d live) under 3 settings; %s", ops.size(), serial, live, R.trace.size() > 1 ? R.trace[1].c_str() : ""));
}

// ------------------------------------------------------------------ C13: readers are snapshots
struct Held { FrtIndexReader *ir; Snap snap; long at_op; bool lazy = false; int incarnation; };
MODE(snapshots) {
    World w(rng, M_ALL); w.o.maxbytes = 60; w.o.vocab = 20; w.o.maxw = 6;
    w.init(2);
    vector<Held> held; int incarnation = 0;
    struct HG { vector<Held> &h; ~HG() { for (auto &x : h) { FrtIndexReader *ir = x.ir; guarded([&] { frt_ir_close(ir); }); } } } hg{held};
    // states a new reader may legitimately show: the last explicit commit or any later automatic flush
    vector<vector<MDoc>> cand; cand.push_back(w.docs);
    bool exact = true;            // nothing may have been flushed implicitly since the last commit
    long changes = 0;             // operations since the last committed state that alter the content
    auto committed = [&] { cand.clear(); cand.push_back(w.docs); exact = true; changes = 0; };
    auto new_reader = [&](const char *when) -> FrtIndexReader * {
        FrtIndexReader *ir = frt_ir_open(w.store);
        Snap got;
        try { got = snap_reader(w.S, ir, M_ALL); } catch (...) { frt_ir_close(ir); throw; }
        bool ok = false; string m, m0;
        size_t from = 0;
        if (exact) { CHECK(true, "", ""); }
        for (size_t i = from; i < cand.size() && !ok; i++) {
            if (exact && i > 0) break;
            Snap want = snap_model(w.S, cand[i], M_ALL);
            if (!snap_diff(want, got, m)) ok = true; else if (i == 0) m0 = m;
        }
        if (!ok) { frt_ir_close(ir); fail("new-reader", "%s: a new reader shows neither the last commit nor a later flush: %s", when, m0.c_str()); }
        count("new_readers");
        return ir;
    };
    int ops = rng.range(8, 26); long opno = 0;
    for (int k = 0; k < ops; k++) {
        opno++;
        int op = rng.below(20);
        bool touched = false;
        if (op < 5) {
            w.ensure_writer();
            int n = rng.chance(1, 5) ? rng.range(5, 25) : rng.range(1, 4);
            for (int i = 0; i < n; i++) { w.add(1); cand.push_back(w.docs); changes++; if (w.cfg.max_buffered_docs < 500 || w.cfg.max_buffer_memory < (8 << 20)) exact = false; }
            if (cand.size() > 500) exact = false;
        } else if (op < 8) {
            if (w.docs.empty()) continue;
            cand.push_back(w.docs); w.del_ids(); cand.push_back(w.docs); exact = false; changes++;
        } else if (op < 10) { w.commit(); committed(); touched = true; }
        else if (op == 10) { w.optimize(); committed(); }
        else if (op == 11) { w.close_writer(); committed(); }
        else if (op == 12) {
            bool mine = w.iw != nullptr; (void)mine;
            w.reader_session(rng.chance(1, 3), rng.chance(1, 2)); committed();
        } else if (op == 13 && rng.chance(1, 3)) {
            w.close_writer(); note("re-create over"); w.create(); incarnation++; w.optimized = false; committed();
        } else if (op < 17) {
            if (held.size() >= 4) { int i = rng.below((uint32_t)held.size()); frt_ir_close(held[i].ir); held.erase(held.begin() + i); }
            FrtIndexReader *ir = new_reader("open");
            Held h; h.ir = ir; h.at_op = opno; h.incarnation = incarnation; held.push_back(h); held.back().snap = snap_reader(w.S, ir, M_ALL);
            if (rng.chance(1, 2)) {
                // hold a second reader of the same state from which little or nothing has been read so far
                FrtIndexReader *lz = frt_ir_open(w.store); held.back().ir = lz; held.back().lazy = true; frt_ir_close(ir); ir = lz;
                if (rng.chance(1, 2)) snap_reader(w.S, lz, 1 << rng.below(6));
                count("held_unread");
            }
            CHECK(frt_ir_is_latest(ir), "is-latest", "a reader opened just now says it is not the latest");
            note("hold reader %zu", held.size());
        }
        (void)touched;
        // re-read held readers
        for (size_t i = 0; i < held.size(); i++) if (rng.chance(1, held[i].lazy ? 6 : 2)) {
            Snap now = snap_reader(w.S, held[i].ir, M_ALL); string m;
            if (now != held[i].snap) { snap_diff(held[i].snap, now, m); fail("snapshot-changed", "reader held since step %ld changed at step %ld: %s", held[i].at_op, opno, m.c_str()); }
            count("snapshots_rechecked"); if (opno > held[i].at_op) count("snapshots_rechecked_after_updates");
            bool latest = frt_ir_is_latest(held[i].ir);
            FrtIndexReader *nr = new_reader("is_latest"); World::Reader g{nr};
            Snap ns = snap_reader(w.S, nr, M_ALL);
            if (ns != held[i].snap) { CHECK(!latest, held[i].incarnation == incarnation ? "is-latest" : "is-latest-recreate", "a reader shows an older state than a new reader but says it is the latest"); count("stale_detected"); }
            if (nr->sis->version == held[i].ir->sis->version) CHECK(latest, "is-latest", "a reader of the current version says it is not the latest");
        }
    }
    w.close_writer(); committed();
    { FrtIndexReader *nr = new_reader("at the end"); World::Reader g{nr}; }
    for (size_t i = 0; i < held.size(); i++) {
        Snap now = snap_reader(w.S, held[i].ir, M_ALL); string m;
        if (now != held[i].snap) { snap_diff(held[i].snap, now, m); fail("snapshot-changed", "reader held since step %ld changed by the end: %s", held[i].at_op, m.c_str()); }
    }
    for (auto &t : R.trace) sig(t);
    nontrivial(w.commits > 0);
    sample(fmt("%ld steps, %zu readers still held at the end, %zu docs", opno, held.size(), w.docs.size()));
}

// ------------------------------------------------------------------ C19: combined indexes
// Queries that expand to terms (prefix) are rewritten per sub-index by the multi searcher: their scores, and
// their matches when prohibited, differ there (known finding, shown by mode msea_known).
struct QK { bool expand = false, neg_expand = false; };
static FrtQuery *gen_span(Rng &r, const string &f, const GenOpt &o, int depth, QK &k_) {
    int k = depth > 0 ? r.below(8) : r.below(2);
    if (k == 0 || k == 2) return frt_spantq_new(SYM(f), gen_word(r, o.vocab).c_str());
    if (k == 1) { FrtQuery *q = frt_spanmtq_new(SYM(f)); for (int i = r.range(1, 3); i > 0; i--) frt_spanmtq_add_term(q, gen_word(r, o.vocab).c_str()); return q; }
    if (k == 3) return frt_spanfq_new_nr(gen_span(r, f, o, depth - 1, k_), r.range(1, 6));
    if (k == 4) { QK a; FrtQuery *i = gen_span(r, f, o, depth - 1, a); QK b; FrtQuery *e = gen_span(r, f, o, depth - 1, b); k_.expand |= a.expand || b.expand; k_.neg_expand |= a.neg_expand || b.neg_expand || b.expand; return frt_spanxq_new_nr(i, e); }
    if (k == 5) { k_.expand = true; return frt_spanprq_new(SYM(f), gen_word(r, o.vocab).substr(0, 1 + r.below(2)).c_str()); }
    FrtQuery *q = k == 6 ? frt_spanoq_new() : frt_spannq_new(r.below(5), r.chance(1, 2));
    for (int i = r.range(1, 3); i > 0; i--) { FrtQuery *c = gen_span(r, f, o, depth - 1, k_); if (k == 6) frt_spanoq_add_clause_nr(q, c); else frt_spannq_add_clause_nr(q, c); }
    return q;
}
static FrtQuery *gen_q(Rng &r, const Schema &S, const GenOpt &o, int depth, QK &k_) {
    auto names = S.all();
    string f = names[r.below((uint32_t)names.size())];
    int k = depth > 0 ? r.below(9) : r.below(6);
    if (depth <= 0 && k >= 4) k += 10;
    if (k >= 7 && k < 10) k = 14 + r.below(2);
    if (k == 14) return gen_span(r, f, o, depth + 1, k_);
    if (k == 15) {
        string a = gen_word(r, o.vocab), b = gen_word(r, o.vocab); if (b < a) std::swap(a, b); bool il = r.chance(1, 2), iu = r.chance(1, 2) || a == b; if (a == b) il = true;
        int t = r.below(7);
        if (t == 0) return frt_rq_new(SYM(f), a.c_str(), b.c_str(), il, iu);
        if (t == 1) return r.chance(1, 2) ? frt_rq_new_less(SYM(f), b.c_str(), iu) : frt_rq_new_more(SYM(f), a.c_str(), il);
        if (t == 2) return frt_maq_new();
        if (t == 3) return frt_csq_new_nr(frt_rfilt_new(SYM(f), a.c_str(), b.c_str(), il, iu));
        if (t == 4) { FrtQuery *x = r.chance(1, 3) ? frt_tq_new(SYM(f), a.c_str()) : gen_q(r, S, o, depth - 1, k_); return frt_fq_new(x, frt_rfilt_new(SYM("id"), "d2", NULL, 1, 0)); }
        k_.expand = true;
        if (t == 5) return frt_wcq_new(SYM(f), (a.substr(0, 1) + (r.chance(1, 2) ? "*" : "?*")).c_str());
        return frt_fuzq_new_conf(SYM(f), a.c_str(), 0.5f, 0, 500);
    }
    if (k < 2) return frt_tq_new(SYM(f), gen_word(r, o.vocab).c_str());
    if (k == 2) { k_.expand = true; return frt_prefixq_new(SYM(f), gen_word(r, o.vocab).substr(0, 1 + r.below(2)).c_str()); }
    if (k == 3) { FrtQuery *q = frt_multi_tq_new(SYM(f)); for (int i = 0; i < 3; i++) frt_multi_tq_add_term(q, gen_word(r, o.vocab).c_str()); return q; }
    if (k == 4) { FrtQuery *q = frt_phq_new(SYM(f)); frt_phq_add_term(q, gen_word(r, o.vocab).c_str(), 1); frt_phq_add_term(q, gen_word(r, o.vocab).c_str(), 1); ((FrtPhraseQuery *)q)->slop = r.below(4); return q; }
    FrtQuery *q = frt_bq_new(r.chance(1, 4));
    int n = r.range(1, 4);
    for (int i = 0; i < n; i++) {
        QK sub; FrtQuery *c = gen_q(r, S, o, depth - 1, sub);
        FrtBCType occ = i == 0 ? FRT_BC_SHOULD : (FrtBCType)r.below(3);
        k_.expand |= sub.expand; k_.neg_expand |= sub.neg_expand || (occ == FRT_BC_MUST_NOT && sub.expand);
        frt_bq_add_query_nr(q, c, occ);
    }
    return q;
}
struct Hits { int total; float max; vector<pair<int, float>> h; };
static Hits search_all(FrtSearcher *s, FrtQuery *q, int first, int num, FrtSort *sort, FrtFilter *filt = nullptr) {
    FrtTopDocs *td = s->search(s, q, first, num, filt, sort, NULL, 0);
    Hits r; r.total = td->total_hits; r.max = td->max_score;
    for (int i = 0; i < td->size; i++) r.h.push_back({td->hits[i]->doc, td->hits[i]->score});
    frt_td_destroy(td);
    return r;
}
static bool close_f(float a, float b) { return fabsf(a - b) <= 1e-5f * std::max(1.0f, std::max(fabsf(a), fabsf(b))); }
MODE(combine) {
    GenOpt o; o.maxbytes = 60; o.vocab = rng.chance(1, 2) ? 15 : 50; o.maxw = 7;
    Schema G = gen_schema(rng, M_ALL); G.extra.clear();
    int n = rng.range(1, 4);
    vector<std::unique_ptr<World>> ws; long serial = 0; int deleted = 0;
    auto sub_schema = [&]() {
        Schema s; s.dflt = G.dflt;
        for (auto &nm : G.names) if (nm == "id" || rng.chance(2, 3)) { s.names.push_back(nm); s.f[nm] = G.f[nm]; }
        if (rng.chance(1, 2)) for (size_t i = s.names.size(); i > 1; i--) std::swap(s.names[i - 1], s.names[rng.below((uint32_t)i)]);
        if (rng.chance(1, 4)) s = G;
        return s;
    };
    for (int i = 0; i < n; i++) {
        ws.emplace_back(new World(rng, M_ALL)); World &w = *ws.back();
        w.S = sub_schema(); w.o = o; w.serial = serial; w.fs = rng.chance(1, 4); if (w.fs) w.dir = fresh_dir("sub");
        w.open_store(); w.create();
        int ops = rng.below(6);
        for (int k = 0; k < ops; k++) {
            int c = rng.below(6);
            if (c < 3) w.add(rng.range(1, 12)); else if (c == 3) { w.del_ids(); } else if (c == 4) { w.close_writer(); } else if (rng.chance(1, 3)) w.optimize(); else w.reader_session(false, true);
        }
        w.close_writer(); serial = w.serial + 1;
        if (rng.chance(1, 3)) w.reader_session(false, false);
        deleted += (int)w.docs.size() - w.live();
    }
    auto open_all = [&](vector<FrtIndexReader *> &v) { for (auto &w : ws) v.push_back(frt_ir_open(w->store)); };
    vector<MDoc> cat; for (auto &w : ws) for (auto &d : w->docs) cat.push_back(d);
    int live = 0; for (auto &d : cat) live += !d.deleted;
    // 1. multi reader
    {
        vector<FrtIndexReader *> v; open_all(v);
        FrtIndexReader **subs = (FrtIndexReader **)malloc(sizeof(void *) * v.size()); for (size_t i = 0; i < v.size(); i++) subs[i] = v[i];
        FrtIndexReader *mr = frt_mr_open(subs, (int)v.size()); World::Reader g{mr};
        snap_check(G, cat, mr, M_ALL, "multi reader");
        count("multi_readers");
        // 2. searching: multi searcher against a searcher over the multi reader
        vector<FrtIndexReader *> v2; open_all(v2);
        FrtSearcher **ss = (FrtSearcher **)malloc(sizeof(void *) * v2.size()); for (size_t i = 0; i < v2.size(); i++) ss[i] = frt_isea_new(v2[i]);
        FrtSearcher *ms = frt_msea_new(ss, (int)v2.size(), 1);
        FrtSearcher *is = frt_isea_new(mr); g.ir = nullptr;
        struct SG { FrtSearcher *a, *b; ~SG() { a->close(a); b->close(b); } } sg{ms, is};
        CHECK(ms->max_doc(ms) == is->max_doc(is), "max-doc", "multi searcher max_doc %d, multi reader %d", ms->max_doc(ms), is->max_doc(is));
        for (int d = 0; d < is->max_doc(is); d++) {
            if (mr->is_deleted(mr, d)) continue;
            FrtDocument *a = ms->get_doc(ms, d), *b = is->get_doc(is, d);
            string la = doc_line(a, d), lb = doc_line(b, d); frt_doc_destroy(a); frt_doc_destroy(b);
            { FrtLazyDoc *z = ms->get_lazy_doc(ms, d), *y = is->get_lazy_doc(is, d); bool eq = z->size == y->size; for (int i = 0; eq && i < z->size; i++) { string u, v; for (int j = 0; j < z->fields[i]->size; j++) { frt_lazy_df_get_data(z->fields[i], j); u += z->fields[i]->data[j].text; } for (int j = 0; j < y->fields[i]->size; j++) { frt_lazy_df_get_data(y->fields[i], j); v += y->fields[i]->data[j].text; } eq = u == v; } frt_lazy_doc_close(z); frt_lazy_doc_close(y); CHECK(eq, "msea-lazy", "multi searcher and multi reader give different lazy documents %d", d); }
            for (auto &nm : G.all()) { FrtTermVector *x = ms->get_term_vector(ms, d, SYM(nm)), *y = is->get_term_vector(is, d, SYM(nm)); bool eq = !x == !y && (!x || x->term_cnt == y->term_cnt); for (int i = 0; eq && x && i < x->term_cnt; i++) eq = !strcmp(x->terms[i].text, y->terms[i].text); if (x) frt_tv_destroy(x); if (y) frt_tv_destroy(y); CHECK(eq, "msea-vector", "multi searcher and multi reader give different vectors for %d %s", d, nm.c_str()); }
            { string f = G.all()[rng.below((uint32_t)G.all().size())], t = gen_word(rng, o.vocab); int x = ms->doc_freq(ms, SYM(f), t.c_str()), y = is->doc_freq(is, SYM(f), t.c_str()); CHECK(x == y, "msea-df", "%s:%s: multi searcher doc_freq %d, multi reader %d", f.c_str(), t.c_str(), x, y); }
            CHECK(la == lb, "msea-doc", "multi searcher get_doc gives %s, multi reader %s", la.c_str(), lb.c_str());
        }
        for (int k = 0; k < 12; k++) {
            QK qk; FrtQuery *q = gen_q(rng, G, o, 2, qk);
            struct QG { FrtQuery *q; ~QG() { frt_q_deref(q); } } qg{q};
            char *qs = q->to_s(q, FRT_I("id")); string qstr = qs; free(qs);
            FrtSort *sort = NULL;
            int sk = rng.below(6); bool by_score = false; string sorts;
            if (sk == 1) { sort = frt_sort_new(); frt_sort_add_sort_field(sort, frt_sort_field_string_new(SYM("id"), rng.chance(1, 2))); }
            else if (sk == 2) { sort = frt_sort_new(); frt_sort_add_sort_field(sort, frt_sort_field_doc_new(rng.chance(1, 2))); }
            else if (sk > 3) {      // several keys, on fields which all the indexes know
                vector<string> fs; for (auto &nm : G.names) { bool in = ix_indexed(G.f[nm]); for (auto *x : v2) if (frt_fis_get_field_num(x->fis, SYM(nm)) < 0) in = false; if (in) fs.push_back(nm); }
                sort = frt_sort_new(); int nk = rng.range(1, 3);
                while (nk--) {
                    bool rev = rng.chance(1, 2); int t = fs.empty() ? rng.below(2) : rng.below(6); string f = t < 2 ? "" : fs[rng.below((uint32_t)fs.size())]; static const SortType ty[] = {FRT_SORT_TYPE_SCORE, FRT_SORT_TYPE_DOC, FRT_SORT_TYPE_INTEGER, FRT_SORT_TYPE_FLOAT, FRT_SORT_TYPE_STRING, FRT_SORT_TYPE_STRING};
                    if (t == 0) by_score = true; frt_sort_add_sort_field(sort, frt_sort_field_new(t < 2 ? NULL : SYM(f), ty[t], rev)); sorts += fmt("%s:%d%s ", f.c_str(), t, rev ? "!" : "");
                }
                count("sorts_by_keys");
            }
            FrtFilter *filt = rng.chance(1, 5) ? rng.chance(1, 2) ? frt_rfilt_new(SYM("id"), NULL, rng.chance(1, 2) ? "d4" : "e", 0, rng.chance(1, 2)) : frt_rfilt_new(SYM("id"), "d2", "d5", rng.chance(1, 2), rng.chance(1, 2)) : nullptr; struct FiG { FrtFilter *f; ~FiG() { if (f) frt_filt_deref(f); } } fig{filt}; if (filt) count("filtered");
            qstr += " sort[" + sorts + "]" + (filt ? " filtered" : "");
            struct SoG { FrtSort *s; ~SoG() { if (s) frt_sort_destroy(s); } } sog{sort};
            if (is->max_doc(is) == 0) continue;
            int first = rng.chance(1, 2) ? 0 : rng.below(6), num = rng.chance(1, 2) ? 1000 : rng.range(1, 6);
            Hits a = search_all(ms, q, first, num, sort, filt), b = search_all(is, q, first, num, sort, filt);
            if (qk.neg_expand) { count("queries_outside"); continue; }
            CHECK(a.total == b.total, "msea-total", "query %s: multi searcher finds %d, one index %d", qstr.c_str(), a.total, b.total);
            CHECK(a.h.size() == b.h.size(), "msea-size", "query %s: multi searcher returns %zu hits, one index %zu (first %d num %d)", qstr.c_str(), a.h.size(), b.h.size(), first, num);
            if (qk.expand) {
                auto ids = [](const Hits &h) { vector<int> v; for (auto &x : h.h) v.push_back(x.first); std::sort(v.begin(), v.end()); return v; };
                if (first == 0 && num == 1000) CHECK(ids(a) == ids(b), "msea-set", "query %s: multi searcher and one index match different documents", qstr.c_str());
                if (sort && !by_score) for (size_t i = 0; i < a.h.size(); i++) CHECK(a.h[i].first == b.h[i].first, "msea-order", "query %s sorted: hit %zu is doc %d, in one index %d", qstr.c_str(), i, a.h[i].first, b.h[i].first);
            }
            else for (size_t i = 0; i < a.h.size(); i++)
                CHECK(a.h[i].first == b.h[i].first && close_f(a.h[i].second, b.h[i].second), "msea-hit", "query %s sort %d hit %zu: multi searcher doc %d score %g, one index doc %d score %g", qstr.c_str(), sk, i, a.h[i].first, a.h[i].second, b.h[i].first, b.h[i].second);
            if (!a.h.empty() && sk == 0 && !qk.expand) CHECK(close_f(a.max, b.max), "msea-max", "query %s: max score %g against %g", qstr.c_str(), a.max, b.max);
            {   // every hit in order of the documents, by query and by weight
                typedef vector<pair<int, float>> V; auto cb = [](FrtSearcher *, int d, float sc, void *arg) { ((V *)arg)->push_back({d, sc}); };
                V ea, eb, wa; ms->search_each(ms, q, filt, NULL, cb, &ea); is->search_each(is, q, filt, NULL, cb, &eb);
                auto same = [&](const V &x, const V &y, const char *what) {
                    CHECK(x.size() == y.size(), "msea-each", "query %s: %s of the multi searcher gives %zu hits, one index %zu", qstr.c_str(), what, x.size(), y.size());
                    for (size_t i = 0; i < x.size(); i++) CHECK(x[i].first == y[i].first && (qk.expand || close_f(x[i].second, y[i].second)), "msea-each", "query %s: %s of the multi searcher: hit %zu is %d scoring %g, in one index %d scoring %g", qstr.c_str(), what, i, x[i].first, x[i].second, y[i].first, y[i].second);
                };
                same(ea, eb, "search_each");
                FrtWeight *w = ms->create_weight(ms, q); struct WG { FrtWeight *w; ~WG() { w->destroy(w); } } wg{w};
                ms->search_each_w(ms, w, filt, NULL, cb, &wa); same(wa, eb, "search_each_w");
                FrtTopDocs *td = ms->search_w(ms, w, 0, 1000, filt, NULL, NULL, 0); V ta; int tot = td->total_hits; for (int i = 0; i < td->size; i++) ta.push_back({td->hits[i]->doc, td->hits[i]->score}); frt_td_destroy(td);
                std::sort(ta.begin(), ta.end()); same(ta, eb, "search_w"); CHECK(tot == (int)eb.size(), "msea-total", "query %s: search_w counts %d hits, one index %zu", qstr.c_str(), tot, eb.size());
                if (!filt) { vector<int> bw(eb.size() + 1); int nw = ms->search_unscored_w(ms, w, bw.data(), (int)bw.size(), 0); V u; for (int i = 0; i < nw; i++) u.push_back({bw[i], eb[std::min(i, (int)eb.size() - 1)].second}); same(u, eb, "search_unscored_w"); }
                bool has_norms = true; for (auto &f : G.f) if (f.second.index == 5 || f.second.index == 7) has_norms = false;
                if (!eb.empty() && !qk.expand && has_norms) { auto &h = eb[rng.below((uint32_t)eb.size())]; FrtExplanation *e = ms->explain_w(ms, w, h.first); float ev = e->value; frt_expl_destroy(e); CHECK(close_f(ev, h.second), "msea-explain", "query %s doc %d: explain_w %g, score %g", qstr.c_str(), h.first, ev, h.second); }
                count("weights");
                if (!eb.empty() && !qk.expand) {        // highlighting
                    auto nm = G.all(); string hf = nm[rng.below((uint32_t)nm.size())]; int d = eb[rng.below((uint32_t)eb.size())].first, hl = rng.range(5, 60), hn = rng.range(1, 3);
                    auto hi = [&](FrtSearcher *s) { string out; char **x = frt_searcher_highlight(s, q, d, SYM(hf), hl, hn, "<b>", "</b>", "~"); if (!x) return string("none"); for (int i = 0; i < frt_ary_size(x); i++) out += string(x[i]) + "|"; frt_ary_destroy_i((void **)x, &free); return out; };
                    string x = hi(ms), y = hi(is); CHECK(x == y, "msea-highlight", "query %s doc %d field %s: multi searcher highlights %s, one index %s", qstr.c_str(), d, hf.c_str(), x.c_str(), y.c_str()); if (x != "none") count("highlights");
                }
            }
            // unscored search from any document
            vector<int> ba(rng.range(1, 50)), bb(ba.size()); int off = rng.chance(1, 2) ? 0 : rng.below(is->max_doc(is) + 1);
            int na = ms->search_unscored(ms, q, ba.data(), (int)ba.size(), off), nb = is->search_unscored(is, q, bb.data(), (int)bb.size(), off);
            bool eq = na == nb; for (int i = 0; eq && i < na; i++) eq = ba[i] == bb[i];
            CHECK(eq, "msea-unscored", "query %s: unscored search from %d finds %d in the multi searcher, %d in one index", qstr.c_str(), off, na, nb);
            // explain agrees with the score (a clause on a field without norms scores 0, which explain takes for no match: finding C09)
            bool has_norms = true; for (auto &f : G.f) if (f.second.index == 5 || f.second.index == 7) has_norms = false;
            if (!a.h.empty() && !qk.expand && has_norms) {
                auto &h = a.h[rng.below((uint32_t)a.h.size())];
                FrtExplanation *e = ms->explain(ms, q, h.first); float ev = e->value; frt_expl_destroy(e);
                CHECK(close_f(ev, h.second), "msea-explain", "query %s doc %d: explain %g, score %g", qstr.c_str(), h.first, ev, h.second);
            }
            count("queries"); if (a.total) count("queries_with_hits");
        }
    }
    auto live_cat = [&] { vector<int> v; for (size_t i = 0; i < cat.size(); i++) if (!cat[i].deleted) v.push_back((int)i); return v; };
    // 2b. changes through a multi reader reach the indexes it reads
    if (rng.chance(1, 3)) {
        vector<FrtIndexReader *> v; open_all(v);
        FrtIndexReader **subs = (FrtIndexReader **)malloc(sizeof(void *) * v.size()); for (size_t i = 0; i < v.size(); i++) subs[i] = v[i];
        FrtIndexReader *mr = frt_mr_open(subs, (int)v.size()); World::Reader g{mr};
        if (rng.chance(1, 2)) snap_check(G, cat, mr, M_ALL, "multi reader before its changes");
        int m = rng.range(1, 6);
        for (int k = 0; k < m; k++) {
            vector<int> lv = live_docs(mr), lc = live_cat(); CHECK(lv.size() == lc.size(), "content-live", "multi reader: %zu live documents, expected %zu", lv.size(), lc.size()); if (lv.empty()) break;
            size_t i = rng.below((uint32_t)lv.size()); MDoc &d = cat[lc[i]];
            if (rng.chance(1, 3)) { note("multi reader: delete %s", d.id.c_str()); frt_ir_delete_doc(mr, lv[i]); d.deleted = true; deleted++; }
            else for (auto &f : d.fields) { FCfg c = G.cfg(f.name); if (!ix_norms(c) || invert(c, f).num_terms == 0 || !rng.chance(1, 2)) continue; int b = rng.below(256); note("multi reader: norm of %s in %s is %d", f.name.c_str(), d.id.c_str(), b); frt_ir_set_norm(mr, lv[i], SYM(f.name), (frt_uchar)b); d.norm_set[f.name] = b; }
            if (rng.chance(1, 2)) snap_check(G, cat, mr, M_ALL, "multi reader after its changes");
        }
        if (rng.chance(1, 2)) { frt_ir_commit(mr); note("multi reader: commit"); }
        g.ir = nullptr; frt_ir_close(mr); count("changed_through_multi_reader");
        vector<FrtIndexReader *> v3; open_all(v3); subs = (FrtIndexReader **)malloc(sizeof(void *) * v3.size()); for (size_t i = 0; i < v3.size(); i++) subs[i] = v3[i];
        mr = frt_mr_open(subs, (int)v3.size()); g.ir = mr; snap_check(G, cat, mr, M_ALL, "multi reader opened after changes through another");
    }
    // 3. adding readers into another index
    {
        World t(rng, M_ALL); t.S = sub_schema(); t.o = o; t.serial = serial; t.fs = rng.chance(1, 4); if (t.fs) t.dir = fresh_dir("dst");
        Schema t0 = t.S; t.open_store(); t.create();
        if (rng.chance(1, 2)) { t.add(rng.range(1, 9)); if (rng.chance(1, 2)) t.del_ids(); if (rng.chance(1, 2)) t.close_writer(); else if (rng.chance(1, 2)) t.commit(); }
        t.ensure_writer();
        vector<FrtIndexReader *> v; open_all(v);
        struct VG { vector<FrtIndexReader *> &v; ~VG() { for (auto *x : v) frt_ir_close(x); } } vg{v};
        if (rng.chance(1, 4)) {   // deleted in the reader which is added, not committed
            FrtIndexReader *x = v[rng.below((uint32_t)v.size())]; vector<int> lv = live_docs(x); int k = std::min((int)lv.size(), rng.range(1, 3));
            for (int q = 0; q < k; q++) {
                int dn = lv[rng.below((uint32_t)lv.size())]; if (x->is_deleted(x, dn)) continue; FrtDocument *fd = x->get_doc(x, dn); FrtDocField *df = frt_doc_get_field(fd, SYM("id")); string id(df->data[0], df->lengths[0]); frt_doc_destroy(fd);
                note("delete %s in a reader to be added", id.c_str()); frt_ir_delete_doc(x, dn); for (auto &d : cat) if (d.id == id) d.deleted = true; deleted++;
            }
        }
        vector<bool> filled; for (auto *x : v) filled.push_back(x->max_doc(x) > 0);
        bool nested = v.size() > 1 && rng.chance(1, 4);
        if (nested) {
            FrtIndexReader **subs = (FrtIndexReader **)malloc(sizeof(void *) * v.size()); for (size_t i = 0; i < v.size(); i++) subs[i] = v[i];
            FrtIndexReader *mr = frt_mr_open(subs, (int)v.size()); v.clear(); v.push_back(mr);
            note("add one multi reader of %d indexes", n);
        } else note("add %zu readers", v.size());
        frt_iw_add_readers(t.iw, v.data(), (int)v.size());
        for (auto &d : cat) t.docs.push_back(d);
        t.S = G; t.optimized = true; t.commits++;
        if (rng.chance(1, 2)) t.verify("after adding readers", M_ALL);
        serial += 100; t.serial = serial;
        if (rng.chance(1, 2)) { t.S = G; t.del_ids(); }
        if (rng.chance(1, 2)) {   // the fields which came with the readers go on as they were defined there
            Schema U; U.dflt = G.dflt; for (auto &nm : G.names) { bool has = t0.f.count(nm); for (size_t q = 0; q < ws.size(); q++) has = has || (filled[q] && ws[q]->S.f.count(nm));   // an index without segments brings nothing
                if (has) { U.names.push_back(nm); U.f[nm] = G.f[nm]; } }
            t.S = U; t.add(rng.range(1, 4)); t.S = G; count("added_to_combined");
        }
        t.close_writer(); t.reopen_store();
        t.verify("combined index", M_ALL);
        count("combined"); if (deleted) count("combined_with_deletions");
    }
    for (auto &t : R.trace) sig(t);
    nontrivial(live > 1 && n > 1);
    sample(fmt("%d indexes, %d live documents, %d deleted", n, live, deleted));
}

// The known finding on the multi searcher, on one fixed scenario.
MODE(msea_known) {
    Schema S; S.dflt.index = 3; FCfg f; f.name = "f"; f.index = 3; S.f["f"] = f; S.names.push_back("f");
    FrtSearcher *ss[2]; vector<FrtStore *> st;
    const char *texts[2][3] = {{"x a1", "x b1", "x c"}, {"x a2", "x b2 b3", "x"}};
    for (int i = 0; i < 2; i++) {
        FrtStore *s = frt_open_ram_store(); st.push_back(s);
        FrtFieldInfos *fis = make_fis(S); frt_index_create(s, fis); frt_fis_deref(fis);
        FrtConfig c = frt_default_config; FrtIndexWriter *iw = frt_iw_open(s, script_analyzer(), &c);
        for (int k = 0; k < 3; k++) { MDoc d; MField mf; mf.name = "f"; mf.vals.push_back(texts[i][k]); d.fields.push_back(mf); FrtDocument *fd = make_doc(d); frt_iw_add_doc(iw, fd); frt_doc_destroy(fd); }
        frt_iw_close(iw);
        ss[i] = frt_isea_new(frt_ir_open(s));
    }
    FrtIndexReader **subs = (FrtIndexReader **)malloc(sizeof(void *) * 2); for (int i = 0; i < 2; i++) subs[i] = frt_ir_open(st[i]);
    FrtSearcher *is = frt_isea_new(frt_mr_open(subs, 2));
    FrtSearcher **sp = (FrtSearcher **)malloc(sizeof(void *) * 2); sp[0] = ss[0]; sp[1] = ss[1];
    FrtSearcher *ms = frt_msea_new(sp, 2, 1);
    FrtQuery *q = frt_bq_new(0);
    frt_bq_add_query_nr(q, frt_tq_new(SYM("f"), "x"), FRT_BC_MUST); frt_bq_add_query_nr(q, frt_prefixq_new(SYM("f"), "b"), FRT_BC_MUST_NOT);
    FrtQuery *q2 = frt_prefixq_new(SYM("f"), "b");
    Hits a = search_all(ms, q, 0, 10, NULL), b = search_all(is, q, 0, 10, NULL), a2 = search_all(ms, q2, 0, 10, NULL), b2 = search_all(is, q2, 0, 10, NULL);
    frt_q_deref(q); frt_q_deref(q2); ms->close(ms); is->close(is); for (auto *s : st) frt_store_deref(s);
    sig(1); nontrivial();
    if (a.total != b.total || a2.h.size() != b2.h.size() || a2.h != b2.h)
        fail("msea-expand", "'+f:x -f:b*' matches %d documents through the multi searcher, %d in one index; scores of 'f:b*' %g and %g", a.total, b.total, a2.max, b2.max);
}

// The known finding on adding an index that defines a shared field otherwise: the settings are united, the stored data is not converted.
// known finding: sorting by byte order in a multi searcher
MODE(msea_byte_known) {
    Schema S; S.dflt.index = 1; FCfg f; f.name = "f"; f.index = 1; S.f["f"] = f; S.names.push_back("f"); vector<FrtStore *> st; const char *texts[2][2] = {{"b", "c"}, {"a", "d"}};
    for (int i = 0; i < 2; i++) {
        FrtStore *s = frt_open_ram_store(); st.push_back(s); FrtFieldInfos *fis = make_fis(S); frt_index_create(s, fis); frt_fis_deref(fis); FrtConfig c = frt_default_config; FrtIndexWriter *iw = frt_iw_open(s, script_analyzer(), &c);
        for (int k = 0; k < 2; k++) { MDoc d; MField mf; mf.name = "f"; mf.vals.push_back(texts[i][k]); d.fields.push_back(mf); FrtDocument *fd = make_doc(d); frt_iw_add_doc(iw, fd); frt_doc_destroy(fd); }
        frt_iw_close(iw);
    }
    FrtSearcher **sp = (FrtSearcher **)malloc(sizeof(void *) * 2); for (int i = 0; i < 2; i++) sp[i] = frt_isea_new(frt_ir_open(st[i])); FrtSearcher *ms = frt_msea_new(sp, 2, 1);
    FrtQuery *q = frt_maq_new(); FrtSort *so = frt_sort_new(); frt_sort_add_sort_field(so, frt_sort_field_byte_new(SYM("f"), false)); FrtTopDocs *td = ms->search(ms, q, 0, 10, NULL, so, NULL, false);
    vector<int> got; for (int i = 0; i < td->size; i++) got.push_back(td->hits[i]->doc); frt_td_destroy(td); frt_sort_destroy(so); frt_q_deref(q); ms->close(ms); for (auto *s : st) frt_store_deref(s); sig(1); nontrivial();
    CHECK(got.size() == 4, "msea-byte-hits", "%zu hits, expected 4", got.size());
    if (got != vector<int>{2, 0, 1, 3}) fail("msea-byte-sort", "sorted by byte order the hits are documents %d %d %d %d, expected 2 0 1 3", got[0], got[1], got[2], got[3]);
}

MODE(addidx_known) {
    struct { const char *what; int s0, t0, s1, t1; } cs[] = {{"stored plainly in one and compressed in the other", 1, 0, 2, 0}, {"with term vectors in one and also positions in the other", 1, 1, 1, 3}};
    for (int c = 0; c < 2; c++) {
        auto &x = cs[c]; FrtStore *st[2]; string v[2] = {"first value", "second value of it"};
        for (int i = 0; i < 2; i++) {
            Schema S; S.dflt.index = 3; FCfg f; f.name = "f"; f.index = 3; f.store = i ? x.s1 : x.s0; f.tv = i ? x.t1 : x.t0; S.f["f"] = f; S.names.push_back("f");
            st[i] = frt_open_ram_store(); FrtFieldInfos *fis = make_fis(S); frt_index_create(st[i], fis); frt_fis_deref(fis);
            FrtConfig k = frt_default_config; FrtIndexWriter *iw = frt_iw_open(st[i], script_analyzer(), &k);
            MDoc d; MField mf; mf.name = "f"; mf.vals.push_back(v[i]); d.fields.push_back(mf); FrtDocument *fd = make_doc(d); frt_iw_add_doc(iw, fd); frt_doc_destroy(fd); frt_iw_close(iw);
        }
        FrtConfig k = frt_default_config; FrtIndexWriter *iw = frt_iw_open(st[0], script_analyzer(), &k); FrtIndexReader *src = frt_ir_open(st[1]);
        string why; int e = guarded([&] { frt_iw_add_readers(iw, &src, 1); }, &why); frt_ir_close(src); frt_iw_close(iw);
        string bad; if (e) bad = "adding: " + why;
        FrtIndexReader *ir = frt_ir_open(st[0]);
        for (int d = 0; !e && d < ir->max_doc(ir); d++) {
            string got; int e2 = guarded([&] { FrtDocument *dd = ir->get_doc(ir, d); FrtDocField *df = frt_doc_get_field(dd, SYM("f")); if (df && df->size == 1) got.assign(df->data[0], df->lengths[0]); frt_doc_destroy(dd);
                FrtTermVector *tv = ir->term_vector(ir, d, SYM("f")); if (tv) { got += fmt(" %d terms", tv->term_cnt); frt_tv_destroy(tv); } }, &why);
            string want = v[d] + (x.t0 ? fmt(" %d terms", d ? 4 : 2) : "");
            if (e2) bad += fmt(" document %d: %s;", d, why.c_str()); else if (got != want) bad += fmt(" document %d reads '%s', not '%s';", d, got.c_str(), want.c_str());
        }
        frt_ir_close(ir); for (auto *s : st) frt_store_deref(s);
        sig(c); nontrivial();
        if (!bad.empty()) fail("add-settings-differ", "adding an index where f is %s: %s", x.what, bad.c_str());
    }
}
