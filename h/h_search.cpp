// Searching: matching, scoring, ranking, sorting, paging, highlighting against q.h's definitions.
#include "corpus.h"

// all entry points agree with the definition; returns the scored hits in document order
static Hits check_query(Ctx &c, const Q &q, Rng &r, FrtQuery *given = nullptr) {
    FrtSearcher *sea = c.sea; int nd = c.max_doc + 1;
    Expect e = expect(q, c);
    count("queries"); count(fmt("hits_%s", e.yes.empty() ? "0" : e.yes.size() == c.d.size() ? "all" : "some"));
    if (!e.yes.empty() && e.yes.size() < c.d.size()) nontrivial();
    note("query %s expects [%s] maybe [%s]", qs(q).c_str(), ids(e.yes).c_str(), ids(e.maybe).c_str());
    sig(qs(q)); sig(ids(e.yes));
    if (given) FRT_REF(given);
    QG g{given ? given : build(q)}, g2{build(q)};
    if (!given) CHECK(frt_q_eq(g.q, g2.q) && frt_q_hash(g.q) == frt_q_hash(g2.q), "query-equality", "%s: two equal constructions differ (eq %d, hash %lx %lx)", qs(q).c_str(), frt_q_eq(g.q, g2.q), frt_q_hash(g.q), frt_q_hash(g2.q));
    { char *s = g.q->to_s(g.q, SYM("a")); free(s); }
    Hits h;
    int order = r.below(2);
    for (int pass = 0; pass < 2; pass++) {
        if ((pass ^ order) == 0) {
            TD t{sea->search(sea, g.q, 0, nd, NULL, NULL, NULL, 0)};
            vector<int> v = td_docs(t.td);
            check_set("search", q, e, v);
            CHECK(t.td->total_hits == (int)v.size(), "total-hits", "search: %s total_hits %d but %zu hits", qs(q).c_str(), t.td->total_hits, v.size());
        } else {
            h.clear();
            sea->search_each(sea, g.q, NULL, NULL, each_cb, &h);
            vector<int> v; for (auto &x : h) v.push_back(x.first);
            check_set("search_each", q, e, v);
            CHECK(std::is_sorted(v.begin(), v.end()), "each-order", "search_each: %s out of order: %s", qs(q).c_str(), ids(v).c_str());
        }
    }
    // unscored, from every kind of start
    vector<int> all; for (auto &x : h) all.push_back(x.first);
    for (int k = 0; k < 4; k++) {
        int off = k == 0 ? 0 : r.chance(1, 2) && !all.empty() ? all[r.below((uint32_t)all.size())] + r.range(0, 1) : r.range(0, nd + 1);
        int limit = k == 0 ? nd : r.range(1, nd);
        vector<int> buf(limit + 1, -7), want;
        for (int d : all) if (d >= off && (int)want.size() < limit) want.push_back(d);
        int n;
        bool viaw = r.chance(1, 3);
        if (viaw) { WG w{sea->create_weight(sea, g.q)}; n = sea->search_unscored_w(sea, w.w, buf.data(), limit, off); }
        else n = sea->search_unscored(sea, g.q, buf.data(), limit, off);
        CHECK(n >= 0 && n <= limit && buf[limit] == -7, "unscored-limit", "search_unscored: %s wrote %d of %d", qs(q).c_str(), n, limit);
        buf.resize(n);
        CHECK(buf == want, "unscored", "search_unscored%s from %d limit %d: %s gives [%s], expected [%s]", viaw ? "_w" : "", off, limit, qs(q).c_str(), ids(buf).c_str(), ids(want).c_str());
    }
    { WG w{sea->create_weight(sea, g.q)}; TD t{sea->search_w(sea, w.w, 0, nd, NULL, NULL, NULL, 0)}; vector<int> v = td_docs(t.td); std::sort(v.begin(), v.end()); CHECK(v == all, "search-w", "search_w: %s gives [%s], expected [%s]", qs(q).c_str(), ids(v).c_str(), ids(all).c_str()); }
    // as a filter, twice, also on another query
    if (r.chance(1, 2)) {
        FG f{frt_qfilt_new(g.q)}, f2{frt_qfilt_new_nr(build(q))};
        QG m{frt_maq_new()};
        for (int k = 0; k < 2; k++) {
            TD t{sea->search(sea, m.q, 0, nd, k ? f2.f : f.f, NULL, NULL, 0)};
            vector<int> v = td_docs(t.td); std::sort(v.begin(), v.end());
            CHECK(v == all && t.td->total_hits == (int)all.size(), "as-filter", "as a filter: %s gives [%s], expected [%s]", qs(q).c_str(), ids(v).c_str(), ids(all).c_str());
        }
        QG cs{frt_csq_new(f.f)};
        for (int k = 0; k < 2; k++) {
            Hits ch; sea->search_each(sea, cs.q, NULL, NULL, each_cb, &ch); vector<int> v; for (auto &x : ch) v.push_back(x.first);
            CHECK(v == all, "as-constant", "as a constant score query, use %d: %s gives [%s], expected [%s]", k + 1, qs(q).c_str(), ids(v).c_str(), ids(all).c_str());
        }
        count("filter_uses", 4);
    }
    // the same object again
    { Hits h2; sea->search_each(sea, g.q, NULL, NULL, each_cb, &h2); CHECK(same_hits(h2, h), "repeat", "searching again with the same object: %s gives different hits", qs(q).c_str()); }
    return h;
}
// query objects outlive the reader they were first used with, and boolean queries may get more clauses between searches
static void check_reuse(Corpus &co, QGen &g, Rng &r, std::function<Q()> gen) {
    vector<Q> qv; vector<QG> held; qv.reserve(4); held.reserve(4);
    for (int i = 0; i < 3; i++) { qv.push_back(gen()); held.push_back(QG{build(qv.back())}); check_query(co.c, qv.back(), r, held.back().q); }
    Q b = g.base(Q_BOOL); int n = r.range(1, 3);
    QG bo{frt_bq_new(0)}; bo.q->boost = b.boost;
    for (int i = 0; i < n; i++) {
        Q k = r.chance(1, 2) ? g.leaf() : gen(); int occ = r.chance(1, 3) ? 2 : r.below(2);
        b.k.push_back(k); b.occ.push_back(occ);
        frt_bq_add_query_nr(bo.q, build(k), occ == 0 ? FRT_BC_SHOULD : occ == 1 ? FRT_BC_MUST : FRT_BC_MUST_NOT);
        check_query(co.c, b, r, bo.q); count("grown_queries");
    }
    co.change(r);
    for (int i = 0; i < 3; i++) { check_query(co.c, qv[i], r, held[i].q); count("reused_queries"); }
    check_query(co.c, b, r, bo.q);
}
MODE(match) {
    Corpus co(rng, 60, 24, false, rng.chance(1, 25)); QGen g{rng, co.vocab}; g.classes = 1;
    for (int i = 0; i < 12; i++) check_query(co.c, g.gen(rng.range(0, 3)), rng);
    if (rng.chance(1, 3)) check_reuse(co, g, rng, [&] { return g.gen(rng.range(0, 2)); });
    sample(R.trace.empty() ? "" : R.trace.back());
}
MODE(terms) {
    Corpus co(rng, 60, 24, false, rng.chance(1, 25)); QGen g{rng, co.vocab}; g.classes = 3;
    for (int i = 0; i < 12; i++) {
        if (rng.chance(1, 4)) { check_query(co.c, g.gen(2), rng); continue; }
        Q q = g.termy(); check_query(co.c, q, rng);
        if (q.t == Q_RANGE || q.t == Q_TRANGE) {   // the filter form agrees
            Q f = q; f.t = Q_CSQ; f.filt = q.t == Q_TRANGE ? 2 : 1; check_query(co.c, f, rng); count("range_filter_pairs");
        }
    }
    if (rng.chance(1, 3)) check_reuse(co, g, rng, [&] { return g.termy(); });
    sample(R.trace.empty() ? "" : R.trace.back());
}
MODE(spans) {
    Corpus co(rng, 60, 24, false, rng.chance(1, 25)); QGen g{rng, co.vocab}; g.classes = 5;
    for (int i = 0; i < 12; i++) { if (rng.chance(1, 5)) check_query(co.c, g.gen(2), rng); else check_query(co.c, g.span(rng.chance(2, 3) ? "a" : "b", rng.range(0, 3)), rng); }
    if (rng.chance(1, 3)) check_reuse(co, g, rng, [&] { return g.span("a", rng.range(0, 2)); });
    sample(R.trace.empty() ? "" : R.trace.back());
}

// a sloppy phrase with a repeated term: the greedy resolution of clashes may lose even an exact occurrence
MODE(sloppy_known) {
    Schema S; S.dflt.index = 3; FCfg f; f.name = "f"; f.index = 3; S.f["f"] = f; S.names.push_back("f");
    FrtStore *st = frt_open_ram_store(); FrtFieldInfos *fis = make_fis(S); frt_index_create(st, fis); frt_fis_deref(fis);
    FrtConfig cf = frt_default_config; FrtIndexWriter *iw = frt_iw_open(st, script_analyzer(), &cf);
    MDoc d; MField mf; mf.name = "f"; mf.vals.push_back("aaca b c ba ba b c a =ab b a"); d.fields.push_back(mf); FrtDocument *fd = make_doc(d); frt_iw_add_doc(iw, fd); frt_doc_destroy(fd);
    frt_iw_close(iw);
    FrtSearcher *sea = frt_isea_new(frt_ir_open(st));
    int hits[2];
    for (int k = 0; k < 2; k++) {
        FrtQuery *q = frt_phq_new(SYM("f")); frt_phq_add_term(q, "c", 0); frt_phq_add_term(q, "ab", 1); frt_phq_append_multi_term(q, "c");
        ((FrtPhraseQuery *)q)->slop = k ? 2 : 0;
        TD t{sea->search(sea, q, 0, 5, NULL, NULL, NULL, 0)}; hits[k] = t.td->total_hits; frt_q_deref(q);
    }
    sea->close(sea); frt_store_deref(st); sig(1); nontrivial();
    CHECK(hits[0] == 1, "phrase-alternatives", "the exact phrase matches %d documents, expected 1", hits[0]);
    CHECK(hits[1] == 1, "sloppy-repeat-greedy", "\"c c|ab\"~2 matches %d documents, the stricter \"c c|ab\" %d", hits[1], hits[0]);
}

// ------------------------------------------------------------------ scores (C09)
static string expl_text(FrtExplanation *e) { char *t = frt_expl_to_s_depth(e, 0); string s = t; free(t); return s; }
// the formula a node announces must give its value ("sum of", "product of")
static void check_expl(FrtExplanation *e, const Q &q, int doc) {
    int n = frt_ary_sz(e->details); double s = 0, p = 1;
    for (int i = 0; i < n; i++) { s += e->details[i]->value; p *= e->details[i]->value; check_expl(e->details[i], q, doc); }
    if (!n || e->value == 0) return;
    string d = e->description; count("explanation_nodes");
    if (d.find("sum of:") != string::npos) CHECK(score_eq(s, e->value), "explain-sum", "%s in %d: explanation node '%s' is %g but its parts add up to %g", qs(q).c_str(), doc, d.c_str(), e->value, s);
    else if (d.find("product of:") != string::npos) CHECK(score_eq(p, e->value), "explain-product", "%s in %d: explanation node '%s' is %g but its parts multiply to %g", qs(q).c_str(), doc, d.c_str(), e->value, p);
}
static void check_scores(Corpus &co, const Q &q, Rng &r) {
    Ctx &c = co.c; FrtSearcher *sea = c.sea;
    if (!c.max_doc) return;
    QG g(build(q)); Hits h; sea->search_each(sea, g.q, NULL, NULL, each_cb, &h);
    note("query %s: %zu hits", qs(q).c_str(), h.size()); sig(qs(q)); count("queries");
    map<int, float> got; for (auto &x : h) got[x.first] = x.second;
    Q rq = rewritten(q); W w = weight(rq, c); double ss = w_sumsq(w); w_norm(w, ss > 0 ? 1 / sqrt(ss) : 1);
    if (!h.empty() && h.size() < c.d.size()) nontrivial();
    // where alternatives put one term twice on a position, the frequency of a phrase is not defined: only its sign is
    set<int> open;
    for (auto &d : c.d) {
        auto it = got.find(d.doc); if (it == got.end()) continue;
        bool known = match(q, d) == YES; double want = w_score(w, d, c, &known);
        if (!known) { count("scores_unspecified"); open.insert(d.doc); continue; }
        if (ss <= 0) continue;
        count("scores_checked"); sig((uint64_t)(want * 1000));
        CHECK(score_eq(want, it->second), "score", "%s: document %d scores %.7g, the formula gives %.7g", qs(q).c_str(), d.doc, it->second, want);
    }
    // explain, for hits, for other documents, for deleted ones
    WG wt{sea->create_weight(sea, g.q)};
    set<int> docs; for (int i = 0; i < 6; i++) docs.insert(r.below(c.max_doc)); for (int i = 0; i < 4 && !h.empty(); i++) docs.insert(h[r.below((uint32_t)h.size())].first);
    for (int d : docs) {
        bool viaw = r.chance(1, 2);
        EG e{viaw ? sea->explain_w(sea, wt.w, d) : sea->explain(sea, g.q, d)};
        CHECK(e.e != NULL, "explain-null", "%s: no explanation for %d", qs(q).c_str(), d);
        double want = got.count(d) ? got[d] : 0;
        CHECK(open.count(d) ? e.e->value > 0 : score_eq(want, e.e->value), "explain", "%s: explain of document %d (%s) is %.7g, its score is %.7g\n%s", qs(q).c_str(), d, c.back.count(d) ? got.count(d) ? "hit" : "no hit" : "deleted", e.e->value, want, expl_text(e.e).c_str());
        check_expl(e.e, q, d); count(got.count(d) ? "explained_hits" : c.back.count(d) ? "explained_misses" : "explained_deleted");
        { char *t = frt_expl_to_s_depth(e.e, 0); free(t); t = frt_expl_to_html(e.e); free(t); }
    }
    // the score does not depend on how it is asked for
    {
        Hits a; sea->search_each_w(sea, wt.w, NULL, NULL, each_cb, &a);
        CHECK(open.empty() ? same_hits(a, h) : a.size() == h.size(), "score-weight", "%s: search_each_w gives other hits or scores than search_each", qs(q).c_str());
        TD t{sea->search(sea, g.q, 0, c.max_doc, NULL, NULL, NULL, 0)}; float mx = 0;
        for (int i = 0; i < t.td->size; i++) CHECK(open.count(t.td->hits[i]->doc) || score_eq(t.td->hits[i]->score, got[t.td->hits[i]->doc]), "score-search", "%s: document %d scores %g in search, %g in search_each", qs(q).c_str(), t.td->hits[i]->doc, t.td->hits[i]->score, got[t.td->hits[i]->doc]);
        for (auto &x : h) mx = std::max(mx, x.second);
        CHECK(!open.empty() || score_eq(t.td->max_score, mx), "max-score", "%s: max_score %g, highest score %g", qs(q).c_str(), t.td->max_score, mx);
        // filtering keeps the scores
        QGen fg{r, co.vocab}; Q fq = fg.gen(1); FG f{frt_qfilt_new_nr(build(fq))}; Hits b; sea->search_each(sea, g.q, f.f, NULL, each_cb, &b);
        for (auto &x : b) CHECK(open.count(x.first) || got.count(x.first) && score_eq(got[x.first], x.second), "score-filter", "%s filtered by %s: document %d scores %g, unfiltered %g", qs(q).c_str(), qs(fq).c_str(), x.first, x.second, got.count(x.first) ? got[x.first] : -1);
        // nor on where the scan starts: conjunction with a pure filter that skips
        Q one; one.t = Q_FQ; one.k.push_back(q); one.filt = 0; one.k.push_back(fq);
        QG og(build(one)); Hits o; sea->search_each(sea, og.q, NULL, NULL, each_cb, &o);
        CHECK(o.size() == b.size(), "score-filtered-query", "%s: FilteredQuery gives %zu hits, the filter %zu", qs(one).c_str(), o.size(), b.size());
        for (auto &x : o) CHECK(open.count(x.first) || got.count(x.first) && score_eq(got[x.first], x.second), "score-filtered-query", "%s: document %d scores %g inside a filtered query, %g alone", qs(q).c_str(), x.first, x.second, got.count(x.first) ? got[x.first] : -1);
    }
}
MODE(scores) {
    Corpus co(rng, 60, 24, false, rng.chance(1, 25)); QGen g{rng, co.vocab}; g.classes = 7; g.omit = false;
    if (!co.c.max_doc) throw Skip{"empty"};
    for (int i = 0; i < 10; i++) check_scores(co, rng.chance(1, 3) ? g.leaf() : g.gen(rng.range(1, 3)), rng);
    sample(R.trace.empty() ? "" : R.trace.back());
}

// known finding: fields without norms score 0, and explain takes a required clause of value 0 for a failed one
MODE(omitnorms_known) {
    FrtStore *st = frt_open_ram_store(); FrtFieldInfos *fis = frt_fis_new(FRT_STORE_YES, FRT_INDEX_YES, FRT_TERM_VECTOR_NO);
    frt_fis_add_field(fis, frt_fi_new(SYM("f"), FRT_STORE_YES, FRT_INDEX_YES, FRT_TERM_VECTOR_NO));
    frt_fis_add_field(fis, frt_fi_new(SYM("o"), FRT_STORE_YES, FRT_INDEX_YES_OMIT_NORMS, FRT_TERM_VECTOR_NO));
    frt_index_create(st, fis); frt_fis_deref(fis);
    FrtConfig cf = frt_default_config; FrtIndexWriter *iw = frt_iw_open(st, script_analyzer(), &cf);
    MDoc d; for (const char *n : {"f", "o"}) { MField mf; mf.name = n; mf.vals.push_back("a"); d.fields.push_back(mf); }
    FrtDocument *fd = make_doc(d); frt_iw_add_doc(iw, fd); frt_doc_destroy(fd); frt_iw_close(iw);
    FrtSearcher *sea = frt_isea_new(frt_ir_open(st));
    FrtQuery *q = frt_bq_new(false);
    frt_bq_add_query_nr(q, frt_tq_new(SYM("o"), "a"), FRT_BC_MUST); frt_bq_add_query_nr(q, frt_tq_new(SYM("f"), "a"), FRT_BC_SHOULD);
    float score = -1; int hits; { TD t{sea->search(sea, q, 0, 5, NULL, NULL, NULL, 0)}; hits = t.td->total_hits; if (hits) score = t.td->hits[0]->score; }
    FrtExplanation *e = sea->explain(sea, q, 0); float ex = e->value; frt_expl_destroy(e);
    frt_q_deref(q); sea->close(sea); frt_store_deref(st); sig(1); nontrivial();
    CHECK(hits == 1, "omit-norms-hits", "+o:a f:a matches %d documents, expected 1", hits);
    CHECK(score_eq(score, ex), "omit-norms-explain", "+o:a f:a on a field o without norms scores %g but is explained as %g", score, ex);
}

// ------------------------------------------------------------------ hits (C10)
struct SK { string f; int type; bool rev; };   // type: 0 score 1 doc 2 byte 3 int 4 float 5 string 6 auto
static string last_term(const DV &d, const string &f, bool *has) { auto it = d.inv.find(f); *has = it != d.inv.end() && !it->second.pos.empty(); return *has ? it->second.pos.rbegin()->first : ""; }
struct SortModel {
    Ctx &c; vector<SK> k; vector<int> type;   // type resolved
    SortModel(Ctx &c_, const vector<SK> &k_) : c(c_), k(k_) {
        for (auto &s : k) {
            int t = s.type;
            if (t == 6) { const string &x = c.terms_of(s.f)[0]; int i, n = 0; float fl; sscanf(x.c_str(), "%d%n", &i, &n); if (n == (int)x.size()) t = 3; else { n = 0; sscanf(x.c_str(), "%f%n", &fl, &n); t = n == (int)x.size() ? 4 : 5; } }
            type.push_back(t);
        }
    }
    long ival(const DV &d, const string &f) { bool has; string t = last_term(d, f, &has); long v = 0; if (has) sscanf(t.c_str(), "%ld", &v); return v; }
    float fval(const DV &d, const string &f) { bool has; string t = last_term(d, f, &has); float v = 0; if (has) sscanf(t.c_str(), "%g", &v); return v; }
    long rank(const DV &d, const string &f) { bool has; string t = last_term(d, f, &has); if (!has) return 0; auto &v = c.terms_of(f); return 1 + (std::lower_bound(v.begin(), v.end(), t) - v.begin()); }
    int cmp1(size_t i, const DV &a, float sa, const DV &b, float sb) {
        const string &f = k[i].f;
        switch (type[i]) {
        case 0: return sa > sb ? -1 : sa < sb;
        case 1: return a.doc < b.doc ? -1 : a.doc > b.doc;
        case 2: { long x = rank(a, f), y = rank(b, f); return x < y ? -1 : x > y; }
        case 3: { long x = ival(a, f), y = ival(b, f); return x < y ? -1 : x > y; }
        case 4: { float x = fval(a, f), y = fval(b, f); return x < y ? -1 : x > y; }
        default: { bool ha, hb; string x = last_term(a, f, &ha), y = last_term(b, f, &hb); if (!ha || !hb) return ha ? -1 : hb ? 1 : 0; int r = x.compare(y); return r < 0 ? -1 : r > 0; }
        }
    }
    int cmp(const DV &a, float sa, const DV &b, float sb) {
        for (size_t i = 0; i < k.size(); i++) { int r = cmp1(i, a, sa, b, sb); if (k[i].rev) r = -r; if (r) return r; }
        return a.doc < b.doc ? -1 : a.doc > b.doc;
    }
};
static float pf_func(int doc, float, FrtSearcher *, void *arg) { static const float f[] = {1, 0, 0.5f, 1, 0.25f, 0}; return f[(doc * 7 + *(int *)arg) % 6]; }
static void check_hits(Corpus &co, QGen &g, Rng &r) {
    Ctx &c = co.c; FrtSearcher *sea = c.sea; if (c.d.empty()) return;
    Q q = r.chance(1, 4) ? g.base(Q_MAQ) : r.chance(1, 2) ? g.leaf() : g.gen(2);
    QG b(build(q));
    bool usef = r.chance(1, 3), usep = r.chance(1, 4); int pfarg = r.range(0, 5); FrtPostFilter pf = {pf_func, &pfarg};
    Q fq = g.gen(1); FG f{usef ? frt_qfilt_new_nr(build(fq)) : nullptr};
    // what must be returned
    Hits raw, want; sea->search_each(sea, b.q, NULL, NULL, each_cb, &raw);
    std::set<int> in; bool unk = false; if (usef) { QG fb(build(fq)); Hits fh; sea->search_each(sea, fb.q, NULL, NULL, each_cb, &fh); for (auto &x : fh) in.insert(x.first); }
    for (auto &x : raw) { if (usef && !in.count(x.first)) continue; float s = x.second; if (usep) { float k = pf_func(x.first, s, sea, &pfarg); if (!k) continue; s *= k; } want.push_back({x.first, s}); if (!c.back.count(x.first)) unk = true; }
    CHECK(!unk, "deleted-hit", "%s returns a deleted document", qs(q).c_str());
    { Hits e; sea->search_each(sea, b.q, f.f, usep ? &pf : NULL, each_cb, &e); CHECK(same_hits(e, want), "each-filtered", "%s: search_each with filter %s%s gives %zu hits, expected %zu", qs(q).c_str(), usef ? qs(fq).c_str() : "none", usep ? " and a post filter" : "", e.size(), want.size()); }
    // how they are sorted
    vector<SK> ks; SG sort{nullptr}; bool sorted = r.chance(3, 4);
    if (sorted) {
        sort.s = frt_sort_new(); int n = r.chance(1, 12) ? r.range(4, 9) : r.range(1, 3);
        while (n--) {
            static const char *flds[] = {"n", "n", "s", "k", "id", "a", "o"};
            SK k; k.type = r.below(7); k.rev = r.chance(1, 3); k.f = k.type < 2 ? "" : flds[r.below(7)];
            if (k.type >= 2 && (c.terms_of(k.f).empty())) { k.type = 1; k.f = ""; }
            ks.push_back(k);
            static const SortType ty[] = {FRT_SORT_TYPE_SCORE, FRT_SORT_TYPE_DOC, FRT_SORT_TYPE_BYTE, FRT_SORT_TYPE_INTEGER, FRT_SORT_TYPE_FLOAT, FRT_SORT_TYPE_STRING, FRT_SORT_TYPE_AUTO};
            frt_sort_add_sort_field(sort.s, frt_sort_field_new(k.type < 2 ? NULL : SYM(k.f), ty[k.type], k.rev));
        }
    }
    string ss; for (auto &k : ks) ss += fmt("%s:%d%s ", k.f.c_str(), k.type, k.rev ? "!" : ""); if (sorted) { char *t = frt_sort_to_s(sort.s); free(t); }
    SortModel sm(c, sorted ? ks : vector<SK>{{"", 0, false}});
    note("%s %s%s sort[%s]: %zu hits", qs(q).c_str(), usef ? ("filter " + qs(fq)).c_str() : "", usep ? " post filter" : "", ss.c_str(), want.size());
    sig(qs(q)); sig(ss); sig(want.size()); if (want.size() > 1) nontrivial(); count("searches");
    float mx = 0; for (auto &x : want) mx = std::max(mx, x.second);
    auto dv = [&](int doc) -> const DV & { return c.d[c.back[doc]]; };
    bool ld = r.chance(1, 4);
    TD full{sea->search(sea, b.q, 0, r.chance(1, 4) ? INT_MAX : c.max_doc + 3, f.f, sort.s, usep ? &pf : NULL, ld && sorted)};
    auto check_td = [&](FrtTopDocs *t, const char *how, int size) {
        CHECK(t->total_hits == (int)want.size(), "total-hits", "%s %s sort[%s]: total_hits %d, expected %zu", how, qs(q).c_str(), ss.c_str(), t->total_hits, want.size());
        CHECK(score_eq(t->max_score, mx), "max-score", "%s %s: max_score %g, expected %g", how, qs(q).c_str(), t->max_score, mx);
        CHECK(t->size == size, "page-size", "%s %s sort[%s]: %d hits returned, expected %d", how, qs(q).c_str(), ss.c_str(), t->size, size);
    };
    check_td(full.td, "search", (int)want.size());
    map<int, float> wm; for (auto &x : want) wm[x.first] = x.second;
    for (int i = 0; i < full.td->size; i++) {
        FrtHit *x = full.td->hits[i];
        CHECK(wm.count(x->doc) && score_eq(wm[x->doc], x->score), "hit", "%s sort[%s]: hit %d is document %d score %g, expected score %g", qs(q).c_str(), ss.c_str(), i, x->doc, x->score, wm.count(x->doc) ? wm[x->doc] : -1);
        if (i) { FrtHit *y = full.td->hits[i - 1]; CHECK(y->doc != x->doc && sm.cmp(dv(y->doc), y->score, dv(x->doc), x->score) < 0, "order", "%s sort[%s]: hit %d (document %d, %g) comes before hit %d (document %d, %g)", qs(q).c_str(), ss.c_str(), i - 1, y->doc, y->score, i, x->doc, x->score); count("ordered_pairs"); }
        if (ld && sorted) {
            FrtFieldDoc *fd = (FrtFieldDoc *)x; CHECK(fd->size == (int)ks.size(), "field-doc", "field doc has %d values for %zu sort keys", fd->size, ks.size());
            for (size_t j = 0; j < ks.size(); j++) {
                FrtComparable &cm = fd->comparables[j]; bool has, ok = true; const DV &d = dv(x->doc);
                switch (sm.type[j]) { case 0: ok = cm.val.f == x->score; break; case 1: ok = cm.val.l == x->doc; break; case 2: ok = cm.val.l == sm.rank(d, ks[j].f); break; case 3: ok = cm.val.l == sm.ival(d, ks[j].f); break; case 4: ok = cm.val.f == sm.fval(d, ks[j].f); break; default: { string t = last_term(d, ks[j].f, &has); ok = has ? cm.val.s && t == cm.val.s : !cm.val.s; } }
                CHECK(ok, "sort-value", "document %d: loaded sort value %zu of [%s] is wrong", x->doc, j, ss.c_str()); count("sort_values");
            }
        }
    }
    for (int k = 0; k < 3; k++) {
        int fd = r.chance(1, 3) ? 0 : r.range(0, (int)want.size() + 2), nd = r.chance(1, 8) ? INT_MAX : r.range(1, 12);
        int sz = std::max(0, std::min((int)want.size() - fd, nd)); bool viaw = r.chance(1, 3);
        WG w{viaw ? sea->create_weight(sea, b.q) : nullptr};
        TD t{viaw ? sea->search_w(sea, w.w, fd, nd, f.f, sort.s, usep ? &pf : NULL, 0) : sea->search(sea, b.q, fd, nd, f.f, sort.s, usep ? &pf : NULL, r.chance(1, 4) && sorted)};
        check_td(t.td, "page", sz);
        for (int i = 0; i < sz; i++) CHECK(t.td->hits[i]->doc == full.td->hits[fd + i]->doc, "page", "%s sort[%s]: page [%d,%d) hit %d is document %d, the full list has %d there", qs(q).c_str(), ss.c_str(), fd, nd, i, t.td->hits[i]->doc, full.td->hits[fd + i]->doc);
        count("pages"); { char *s = frt_td_to_s(t.td); free(s); }
    }
    // the values a field is sorted by, one document at a time
    if (r.chance(1, 4)) {
        static const char *flds[] = {"n", "n", "s", "k", "id", "a"}; string vf = flds[r.below(6)];
        if (!c.terms_of(vf).empty()) {
            FrtFieldIndex *fi = frt_field_index_get(c.ir, SYM(vf), &FRT_INTEGER_FIELD_INDEX_CLASS), *ff = frt_field_index_get(c.ir, SYM(vf), &FRT_FLOAT_FIELD_INDEX_CLASS), *fs = frt_field_index_get(c.ir, SYM(vf), &FRT_STRING_FIELD_INDEX_CLASS);
            for (auto &d : c.d) {
                bool has; string t = last_term(d, vf, &has); const char *gs = frt_get_string_value(fs, d.doc);
                CHECK(has ? gs && t == gs : !gs, "sort-value", "string value of %s in document %d is %s, expected %s", vf.c_str(), d.doc, gs ? gs : "none", has ? t.c_str() : "none");
                CHECK(frt_get_integer_value(fi, d.doc) == sm.ival(d, vf), "sort-value", "integer value of %s in document %d is %ld, expected %ld", vf.c_str(), d.doc, frt_get_integer_value(fi, d.doc), sm.ival(d, vf));
                CHECK(frt_get_float_value(ff, d.doc) == sm.fval(d, vf), "sort-value", "float value of %s in document %d is %g, expected %g", vf.c_str(), d.doc, frt_get_float_value(ff, d.doc), sm.fval(d, vf)); count("field_values");
            }
            CHECK(frt_get_integer_value(fs, 0) == 0 && frt_get_float_value(fi, 0) == 0 && !frt_get_string_value(ff, 0) && !frt_get_string_value(fs, -1) && !frt_get_string_value(fs, c.max_doc + 5), "sort-value", "a value of another type");
        }
    }
    // refused arguments leave everything usable
    if (r.chance(1, 6)) {
        int bad = r.below(4); SG bs{frt_sort_new()}; frt_sort_add_sort_field(bs.s, frt_sort_field_new(SYM("nosuchfield"), bad == 2 ? FRT_SORT_TYPE_AUTO : FRT_SORT_TYPE_STRING, 0)); string why;
        FrtTopDocs *t = nullptr; QG m(frt_maq_new());
        int code = guarded([&] { t = bad == 0 ? sea->search(sea, m.q, -1, 10, NULL, NULL, NULL, 0) : bad == 1 ? sea->search(sea, m.q, 0, 0, NULL, NULL, NULL, 0) : sea->search(sea, m.q, 0, 10, NULL, bs.s, NULL, 0); }, &why);
        if (t) frt_td_destroy(t);
        CHECK(code == FRT_ARG_ERROR, "bad-argument", "a search with %s raised %d", bad == 0 ? "first_doc -1" : bad == 1 ? "num_docs 0" : "an unknown sort field", code); count("refused_searches");
    }
}
MODE(hits) {
    Corpus co(rng, 60, 24, false, rng.chance(1, 15)); QGen g{rng, co.vocab}; g.classes = 3;
    for (int i = 0; i < 10; i++) check_hits(co, g, rng);
    sample(R.trace.empty() ? "" : R.trace.back());
}

// ------------------------------------------------------------------ highlighting (C23)
typedef vector<pair<int, int>> Ranges;
// the positions the query matches in one field of one document; *exact false where only the text is checked
static void mranges(const Q &q, const DV &d, const string &field, Ctx &c, Ranges &out, bool *exact) {
    auto fi = d.inv.find(field); double w;
    switch (q.t) {
    case Q_BOOL: for (size_t i = 0; i < q.k.size(); i++) if (q.occ[i] != 2) mranges(q.k[i], d, field, c, out, exact); return;
    case Q_CSQ: case Q_FQ: case Q_MAQ: return;
    case Q_PHRASE: {
        if (q.f != field || fi == d.inv.end() || q.ph.empty()) return;
        PhraseView v = phrase_view(q, d); if (v.empty) return;
        int mn = INT_MAX, mx = 0; for (int p : q.pos) { mn = std::min(mn, p); mx = std::max(mx, p); }
        if (q.ph.size() == 1) { for (int p : v.raw[0]) out.push_back({p, p}); return; }
        if (q.slop) { *exact = false; return; }
        for (int p : v.adj[0]) { bool ok = true; for (auto &a : v.adj) if (!std::count(a.begin(), a.end(), p)) ok = false; if (ok) out.push_back({p + mn, p + mx}); }
        return; }
    case S_TERM: case S_MT: case S_PREFIX: case S_FIRST: case S_OR: case S_NOT: case S_NEAR: {
        if (q.f != field || fi == d.inv.end()) return;
        set<string> ts; span_terms(q, c, ts); Spans sp = spans(q, d);
        for (auto &kv : fi->second.pos) if (ts.count(kv.first)) for (int p : kv.second) for (auto &s : sp) if (p >= s.first && p < s.second) { out.push_back({p, p}); break; }
        return; }
    default:
        if (q.f != field || fi == d.inv.end()) return;
        for (auto &kv : fi->second.pos) { Tri m = term_pred(q, kv.first, &w); if (m == UNK) *exact = false; if (m == YES) for (int p : kv.second) out.push_back({p, p}); }
    }
}
static void check_highlight(Corpus &co, QGen &g, Rng &r) {
    Ctx &c = co.c; FrtSearcher *sea = c.sea; if (c.d.empty()) return;
    Q q = r.chance(1, 3) ? g.gen(2) : r.chance(1, 4) ? g.span("a", 2) : g.leaf();
    QG b(build(q));
    for (int n = 0; n < 3; n++) {
        const DV &d = c.d[r.below((uint32_t)c.d.size())]; string f = r.chance(3, 5) ? "a" : r.chance(1, 3) ? "n" : r.chance(1, 2) ? "b" : r.chance(1, 2) ? "s" : "k";
        static const char *tags[][3] = {{"\x01", "\x02", "\x03"}, {"\x01\x01\x01", "\x02\x02", "\x03\x03\x03"}, {"\x01", "\x02", ""}};
        const char **tg = tags[r.below(3)]; int el = r.chance(1, 6) ? INT_MAX / 2 : r.chance(2, 3) ? r.range(4, 16) : r.range(5, 90), ne = el > 1000 ? 1 : r.range(1, 4);
        const MField *mf = nullptr; for (auto &x : d.m->fields) if (x.name == f) mf = &x;
        string text; if (mf) for (size_t i = 0; i < mf->vals.size(); i++) text += (i ? " " : "") + mf->vals[i];
        FCfg fc = co.w.S.cfg(f); auto fi = d.inv.find(f);
        bool able = mf && fc.store && fc.tv == 7 && fi != d.inv.end() && !fi->second.pos.empty();
        char **ex = frt_searcher_highlight(sea, b.q, d.doc, SYM(f), el, ne, tg[0], tg[1], tg[2]);
        vector<string> got; if (ex) { for (int i = 0; i < frt_ary_sz(ex); i++) got.push_back(ex[i]); frt_ary_destroy_i((void **)ex, free); }
        string all; for (auto &x : got) all += esc(x, 400) + " ";
        string ctx = fmt("%s in field %s of document %d ('%s'), length %d x %d: ", qs(q).c_str(), f.c_str(), d.doc, text.c_str(), el, ne) + all;
        note("%s", ctx.c_str()); count("highlights");
        bool exact = true; Ranges rs, m; if (mf && fi != d.inv.end()) mranges(q, d, f, c, rs, &exact); std::sort(rs.begin(), rs.end());
        {   // the same as positions
            FrtMatchVector *mv = frt_searcher_get_match_vector(sea, b.q, d.doc, SYM(f)); frt_matchv_sort(mv);
            set<pair<int, int>> have, want(rs.begin(), rs.end()); for (int i = 0; i < mv->size; i++) have.insert({mv->matches[i].start, mv->matches[i].end}); frt_matchv_destroy(mv);
            if (!(fc.tv & 2)) want.clear();
            if (exact) CHECK(have == want, "match-vector", "%s: the match vector has %zu ranges, expected %zu", ctx.c_str(), have.size(), want.size()); count("match_vectors");
        }
        if (!able) { CHECK(!ex, "highlight-null", "%s: excerpts of a field without stored text, positions and offsets", ctx.c_str()); continue; }
        for (auto &x : rs) if (!m.empty() && x.first <= m.back().second) m.back().second = std::max(m.back().second, x.second); else m.push_back(x);
        vector<pair<long, long>> mo; for (auto &x : m) mo.push_back({fi->second.offs[x.first].first, fi->second.offs[x.second].second});
        bool whole = (long)text.size() < (long)el * ne;
        if (whole) CHECK(got.size() == 1, "highlight-whole", "%s: %zu excerpts for a short field", ctx.c_str(), got.size());
        else if (exact) CHECK(m.empty() ? !ex : ex && !got.empty(), "highlight-none", "%s: %zu matches", ctx.c_str(), m.size());
        if (!ex) continue;
        CHECK((int)got.size() <= ne, "highlight-count", "%s: too many excerpts", ctx.c_str());
        if (m.size() > 1) nontrivial(); sig(ctx);
        size_t from = 0;
        for (size_t k = 0; k < got.size(); k++) {
            string s = got[k], bare; vector<pair<long, long>> marks; bool lead = false, tail = false; size_t lp = strlen(tg[0]), lq = strlen(tg[1]), le = strlen(tg[2]);
            // an excerpt may be empty (the next word does not fit into it): its one ellipsis says nothing about its place
            if (le && s == tg[2]) { count("empty_excerpts"); continue; }
            if (le && s.compare(0, le, tg[2]) == 0) { lead = true; s = s.substr(le); }
            if (le && s.size() >= le && s.compare(s.size() - le, le, tg[2]) == 0) { tail = true; s.resize(s.size() - le); }
            bool open = false;
            for (size_t i = 0; i < s.size();) {
                if (s.compare(i, lp, tg[0]) == 0) { CHECK(!open, "highlight-tags", "%s: nested tags", ctx.c_str()); open = true; marks.push_back({(long)bare.size(), 0}); i += lp; }
                else if (s.compare(i, lq, tg[1]) == 0) { CHECK(open, "highlight-tags", "%s: stray closing tag", ctx.c_str()); open = false; marks.back().second = (long)bare.size(); i += lq; }
                else bare += s[i++];
            }
            CHECK(!open, "highlight-tags", "%s: unclosed tag", ctx.c_str());
            if (whole) { CHECK(bare == text && !lead && !tail, "highlight-text", "%s: excerpt is not the field", ctx.c_str()); if (exact) CHECK(marks == mo, "highlight-marks", "%s: %zu regions marked, expected %zu", ctx.c_str(), marks.size(), mo.size()); count("whole_fields"); continue; }
            // find a placement consistent with the marks
            bool ok = false, okm = false; size_t at = text.find(bare, exact ? from : 0), hit = 0;
            for (; at != string::npos; at = text.find(bare, at + 1)) {
                if (le && (lead != (at > 0))) continue;
                ok = true; set<pair<long, long>> want; bool cut = false;
                for (auto &x : mo) if (x.first >= (long)at && x.second <= (long)(at + bare.size())) want.insert({x.first - (long)at, x.second - (long)at}); else if (x.first < (long)(at + bare.size()) && x.second > (long)at) cut = true;
                set<pair<long, long>> have(marks.begin(), marks.end());
                (void)cut;
                if (have == want || !exact) { okm = true; hit = at; break; }
            }
            CHECK(ok, "highlight-text", "%s: excerpt %zu is no part of the field", ctx.c_str(), k);
            CHECK(okm, "highlight-marks", "%s: the marks of excerpt %zu are not the matches inside it", ctx.c_str(), k);
            if (exact) { CHECK(hit >= from, "highlight-order", "%s: excerpt %zu starts at %zu, inside or before the one before it, which ends at %zu", ctx.c_str(), k, hit, from); from = hit + bare.size(); }
            count("excerpts"); count("marks", (long)marks.size());
        }
    }
}
MODE(highlight) {
    Corpus co(rng, 20, rng.chance(1, 3) ? 24 : 80, true); QGen g{rng, co.vocab}; g.classes = 7;
    for (int i = 0; i < 12; i++) check_highlight(co, g, rng);
    sample(R.trace.empty() ? "" : R.trace.back());
}
