// A random corpus in a store, random queries on it, and small helpers for running them.
#pragma once
#include "q.h"

static string slong(Rng &r) {      // long words, a few edits apart
    string s; for (int i = 0, k = 17 + (int)r.below(8); i < k; i++) s += "abc"[i % 3];
    for (int i = r.below(5); i > 0; i--) s[r.below((uint32_t)s.size())] = "abc"[r.below(3)];
    return s;
}
static string sword(Rng &r, int vocab) {
    // few letters, shared prefixes, skewed so that some words are frequent
    uint32_t x = r.below(3) ? r.below(6) : r.below((uint32_t)vocab);
    static const char *common[] = {"a", "b", "ab", "c", "ba", "abc"};
    if (x < 6) return common[x];
    string s; uint64_t h = x * 2654435761u; int n = 1 + (h >> 20) % 5;
    if (x % 11 == 7) return slong(r);
    for (int i = 0; i < n; i++) { s += "abc"[(h >> (3 + 2 * i)) % 3]; }
    return s;
}
static string stext(Rng &r, int vocab, int maxw, bool big = false) {
    string s; int n = big ? r.range(0, maxw) : r.skew(maxw);
    for (int i = 0; i < n; i++) {
        if (i) s += " ";
        int x = r.below(30);
        if (x == 0) s += "="; else if (x == 1) s += "+"; else if (x == 2) s += "#";
        s += sword(r, vocab);
    }
    return s;
}
static string snum(Rng &r) {
    static const char *odd[] = {"-5", "-a", "12x", "1e2", "0.5", "x", "007", "-0", "+3", "1000000", "-2.25", "abc", "10", "9", "-", "3.0"};
    if (r.chance(1, 3)) return odd[r.below(16)];
    if (r.chance(1, 5)) {   // numbers that do not fit smaller types, or differ far to the right
        static const char *big[] = {"3000000000", "3000000001", "-3000000000", "4294967297", "9007199254740993", "123456.75", "123456.5", "1234567.25", "-1234567.5", "0.00000012", "0.00000013", "100000000000", "1.0000001e10", "16777217"};
        return big[r.below(14)];
    }
    return fmt("%d", r.range(-12, 30));
}
static const char *SFIELDS[] = {"a", "b", "k", "n", "s", "o"};
struct Corpus {
    World w; int vocab;
    FrtIndexReader *ir = nullptr; FrtSearcher *sea = nullptr;
    Ctx c;
    Corpus(Rng &r, int maxdocs = 60, int maxw = 24, bool zip = false, bool big = false) : w(r, M_ALL) {
        Schema &S = w.S;
        S.dflt = FCfg(); S.dflt.store = 1; S.dflt.index = 3; S.dflt.tv = 7;
        auto addf = [&](const char *n, int index, int tv) { FCfg f; f.name = n; f.store = 1; f.index = index; f.tv = tv; static const float b[] = {1, 1, 1, 2, 0.5f}; f.boost = ix_norms(f) ? b[r.below(5)] : 1; S.f[n] = f; S.names.push_back(n); };
        addf("id", 1, 0); addf("a", 3, 7); addf("b", 3, r.chance(1, 2) ? 7 : 0); addf("k", 1, 0); addf("n", 1, zip && r.chance(1, 2) ? 7 : 0); addf("s", 1, zip && r.chance(1, 3) ? 7 : 0); addf("o", 7, 0);
        if (zip && r.chance(1, 4)) S.f["a"].store = 2;
        w.fs = r.chance(1, 8); if (w.fs) w.dir = fresh_dir("ix");
        w.open_store(); w.create();
        vocab = r.range(6, 40);
        int total = r.chance(1, 20) ? 0 : r.chance(1, 12) ? r.range(1, 2) : big ? r.range(100, 700) : r.range(3, maxdocs);
        if (big) { maxw = 5; count("large_indexes"); }
        w.open_writer();
        add_docs(r, total, maxw);
        w.commit();
        if (total && r.chance(1, 2)) { int k = r.range(1, 3); while (k--) w.del_ids(); w.commit(); }
        if (r.chance(1, 8)) w.optimize();
        w.close_writer();
        reopen();
        count("docs", (long)c.d.size()); if (ir->sis->size > 1) count("multi_segment_indexes"); if (ir->has_deletions(ir)) count("indexes_with_deletions");
    }
    int next_id = 0;
    void add_docs(Rng &r, int total, int maxw) {
        Schema &S = w.S; static const float bs[] = {1, 1, 1, 2, 0.5f, 1.5f};
        for (int i = 0; i < total; i++) {
            MDoc d; d.id = fmt("d%d", next_id++); d.boost = bs[r.below(6)];
            auto put = [&](const char *n, const string &v) { for (auto &f : d.fields) if (f.name == n) { f.vals.push_back(v); return; } MField f; f.name = n; f.vals.push_back(v); f.boost = ix_norms(S.cfg(n)) ? bs[r.below(6)] : 1; d.fields.push_back(f); };
            put("id", d.id);
            if (r.chance(9, 10)) { put("a", stext(r, vocab, maxw, maxw > 24)); if (r.chance(1, 6)) put("a", stext(r, vocab, 6)); }
            if (r.chance(2, 3)) put("b", stext(r, vocab, maxw / 2));
            if (r.chance(3, 4)) { put("k", sword(r, vocab)); if (r.chance(1, 6)) put("k", sword(r, vocab)); }
            if (r.chance(4, 5)) { put("n", snum(r)); if (r.chance(1, 8)) put("n", snum(r)); }
            if (r.chance(4, 5)) put("s", fmt("%s", sword(r, vocab).c_str()));
            if (r.chance(1, 2)) put("o", stext(r, vocab, 5));
            if (R.verbose) { string l; for (auto &f : d.fields) { l += f.name + "=["; for (auto &v : f.vals) l += esc(v, 200) + ","; l += fmt("]^%g ", f.boost); } note("add %s b%g %s", d.id.c_str(), d.boost, l.c_str()); }
            w.add_one(d);
            if (r.chance(1, total > 100 ? 120 : 15)) w.commit();
        }
    }
    void reopen() {
        if (sea) { FrtSearcher *s = sea; sea = nullptr; s->close(s); }
        ir = frt_ir_open(w.store); sea = frt_isea_new(ir);
        c = Ctx(); c.sea = sea; ctx_load(c, w.S, w.docs, ir);
    }
    // the index moves on; queries built before must follow
    void change(Rng &r) {
        w.open_writer(); if (r.chance(1, 2)) w.del_ids(); add_docs(r, r.range(1, 12), 24); w.commit(); if (r.chance(1, 5)) w.optimize(); w.close_writer();
        reopen(); count("index_changes");
    }
    ~Corpus() { if (sea) { FrtSearcher *s = sea; sea = nullptr; guarded([&] { s->close(s); }); } }
};

// ------------------------------------------------------------------ query generation
struct QGen {
    Rng &r; int vocab;
    string word() { return r.chance(1, 25) ? "zzz" : sword(r, vocab); }
    string tfield(bool omit) { int x = r.below(omit ? 6 : 5); return x < 3 ? "a" : x < 5 ? "b" : "o"; }
    float boost() { static const float b[] = {1, 1, 1, 1, 2, 0.5f, 3}; return b[r.below(7)]; }
    bool boosts = true, omit = true;
    Q base(QT t) { Q q; q.t = t; if (boosts) q.boost = boost(); return q; }
    Q term() { Q q = base(Q_TERM); if (r.chance(1, 5)) { q.f = r.chance(1, 8) ? "nofield" : "k"; } else q.f = tfield(omit); q.s = word(); return q; }
    Q mt() { Q q = base(Q_MT); q.f = r.chance(1, 5) ? "k" : tfield(omit); int n = r.range(1, 5); set<string> seen; static const float b[] = {1, 1, 0.5f, 0.25f}; while (n--) { string s = word(); if (seen.insert(s).second) q.mt.push_back({s, b[r.below(4)]}); } return q; }
    Q phrase() {
        Q q = base(Q_PHRASE); q.f = tfield(omit); int n = r.chance(1, 40) ? 0 : r.range(1, 4), p = r.chance(1, 6) ? r.range(0, 5) : 0;
        for (int i = 0; i < n; i++) {
            vector<string> alt; alt.push_back(word()); while (r.chance(1, 5) && alt.size() < 4) alt.push_back(word());
            if (i) p += r.chance(5, 6) ? 1 : r.range(0, 3);
            q.ph.push_back(alt); q.pos.push_back(p);
        }
        static const int sl[] = {0, 0, 0, 1, 2, 3, 6, 20}; q.slop = sl[r.below(8)];
        return q;
    }
    void bounds(Q &q, std::function<string()> gen) {
        q.has_lo = r.chance(3, 4); q.has_hi = !q.has_lo || r.chance(2, 3);
        if (q.has_lo) q.lo = gen(); if (q.has_hi) q.hi = gen();
        q.inc_lo = q.has_lo && r.chance(1, 2); q.inc_hi = q.has_hi && r.chance(1, 2);
    }
    // lower bound must not exceed the upper one and an empty interval is refused
    bool legal(const Q &q, bool typed) {
        if (!q.has_lo || !q.has_hi) return true;
        if (typed) { double l, h; if (as_num(q.lo, &l) && as_num(q.hi, &h)) return l < h || (l == h && q.inc_lo && q.inc_hi); }
        return q.lo < q.hi;
    }
    Q range(bool typed) {
        for (;;) {
            Q q = base(typed ? Q_TRANGE : Q_RANGE);
            if (typed || r.chance(1, 3)) { q.f = "n"; bounds(q, [&] { return r.chance(1, 40) ? string() : typed && !r.chance(1, 8) ? (r.chance(1, 3) ? fmt("%g", r.range(-50, 120) / 4.0) : fmt("%d", r.range(-12, 30))) : snum(r); }); }
            else { q.f = r.chance(1, 3) ? "s" : r.chance(1, 2) ? "k" : tfield(omit); bounds(q, [&] { return r.chance(1, 40) ? string() : word(); }); }
            if (legal(q, typed)) return q;
        }
    }
    Q prefix() { Q q = base(Q_PREFIX); q.f = r.chance(1, 4) ? "k" : tfield(omit); string w = word(); q.s = r.chance(1, 30) ? "" : w.substr(0, r.range(1, 3)); return q; }
    Q wild() {
        Q q = base(Q_WILD); q.f = r.chance(1, 4) ? "k" : tfield(omit); int n = r.range(1, 5);
        for (int i = 0; i < n; i++) { int x = r.below(6); q.s += x == 0 ? "*" : x == 1 ? "?" : string(1, "abc"[r.below(3)]); }
        return q;
    }
    Q fuzzy() { Q q = base(Q_FUZZY); q.f = r.chance(1, 4) ? "k" : tfield(omit); q.s = r.chance(1, 5) ? slong(r) : word(); static const float m[] = {0.5f, 0.5f, 0.25f, 0.1f, 0.75f, 0.3f, 0.62f}; q.min_sim = m[r.below(7)]; q.pre_len = r.chance(1, 2) ? 0 : r.range(0, 4); return q; }
    Q termy() { switch (r.below(5)) { case 0: return prefix(); case 1: return wild(); case 2: return fuzzy(); case 3: return range(false); default: return range(true); } }
    int classes = 1;   // 1 basic 2 termy 4 spans
    Q leaf() {
        vector<int> v; if (classes & 1) v.insert(v.end(), {0, 0, 0, 1, 2, 2, 3}); if (classes & 2) v.insert(v.end(), {4, 4, 4}); if (classes & 4) v.insert(v.end(), {5, 5, 5});
        switch (v[r.below((uint32_t)v.size())]) {
        case 0: return term(); case 1: return mt(); case 2: return phrase(); case 3: return base(Q_MAQ);
        case 4: return termy(); default: return span(tfield(omit), 2);
        }
    }
    void filter_of(Q &q, int d) {
        q.filt = r.chance(2, 3) ? 0 : r.range(1, 2);
        if (q.filt) { Q x = range(q.filt == 2); q.f = x.f; q.lo = x.lo; q.hi = x.hi; q.has_lo = x.has_lo; q.has_hi = x.has_hi; q.inc_lo = x.inc_lo; q.inc_hi = x.inc_hi; }
        else { Q k = gen(d - 1); q.k.push_back(k); }
    }
    Q gen(int d) {
        if (d <= 0 || r.chance(1, 3)) return leaf();
        int x = r.below(10);
        if (x < 7) {
            Q q = base(Q_BOOL); q.cd = r.chance(1, 6); int n = r.chance(1, 20) ? r.range(5, 9) : r.range(1, 4);
            int style = r.below(5);
            for (int i = 0; i < n; i++) { q.k.push_back(gen(d - 1)); q.occ.push_back(style == 0 ? 1 : style == 1 ? 0 : r.chance(1, 4) ? 2 : r.below(2)); }
            return q;
        }
        if (x < 8) { Q q = base(Q_CSQ); filter_of(q, d); return q; }
        if (x < 9) { Q q = base(Q_FQ); q.k.push_back(gen(d - 1)); filter_of(q, d); return q; }
        return leaf();
    }
    Q span(const string &f, int d) {
        int x = d <= 0 ? r.below(4) : r.below(12);
        Q q; if (boosts && r.chance(1, 3)) q.boost = boost(); q.f = f;
        switch (x) {
        case 0: case 1: q.t = S_TERM; q.s = word(); return q;
        case 2: { q.t = S_MT; int n = r.range(1, 4); set<string> s; while (n--) { string w = word(); if (s.insert(w).second) q.mt.push_back({w, 1}); } return q; }
        case 3: q.t = S_PREFIX; q.s = r.chance(1, 30) ? "" : word().substr(0, r.range(1, 2)); return q;
        case 4: case 5: q.t = S_FIRST; q.end = r.skew(12); q.k.push_back(span(f, d - 1)); return q;
        case 6: case 7: { q.t = S_OR; int n = r.range(1, 3); while (n--) q.k.push_back(span(f, d - 1)); return q; }
        case 8: case 9: q.t = S_NOT; q.k.push_back(span(f, d - 1)); q.k.push_back(span(f, d - 1)); return q;
        default: { q.t = S_NEAR; q.ordered = r.chance(1, 2); static const int sl[] = {0, 0, 1, 2, 5, 20}; q.slop = sl[r.below(6)]; int n = r.range(1, 3); while (n--) q.k.push_back(span(f, d - 1)); return q; }
        }
    }
};

// ------------------------------------------------------------------ running one query every way
struct TD { FrtTopDocs *td; ~TD() { if (td) frt_td_destroy(td); } };
struct SG { FrtSort *s; ~SG() { if (s) frt_sort_destroy(s); } };
struct FG { FrtFilter *f; ~FG() { if (f) frt_filt_deref(f); } };
struct WG { FrtWeight *w; ~WG() { if (w) w->destroy(w); } };
struct EG { FrtExplanation *e; ~EG() { if (e) frt_expl_destroy(e); } };
typedef vector<pair<int, float>> Hits;
static void each_cb(FrtSearcher *, int doc, float score, void *arg) { ((Hits *)arg)->push_back({doc, score}); }

static bool score_eq(double a, double b) { return fabs(a - b) <= 5e-4 * std::max(fabs(a), fabs(b)) + 1e-9; }
static bool same_hits(const Hits &a, const Hits &b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if (a[i].first != b[i].first || !score_eq(a[i].second, b[i].second)) return false;
    return true;
}

struct Expect { vector<int> yes, maybe; };
static Expect expect(const Q &q, Ctx &c) {
    Expect e; for (auto &d : c.d) { Tri m = match(q, d); if (m == YES) e.yes.push_back(d.doc); else if (m == UNK) e.maybe.push_back(d.doc); }
    return e;
}
static string ids(const vector<int> &v) { string s; for (size_t i = 0; i < v.size() && i < 30; i++) s += fmt("%d ", v[i]); return s + (v.size() > 30 ? ".." : ""); }
static void check_set(const char *how, const Q &q, const Expect &e, vector<int> got) {
    std::sort(got.begin(), got.end());
    for (size_t i = 1; i < got.size(); i++) CHECK(got[i] != got[i - 1], "duplicate-hit", "%s: %s returns document %d twice", how, qs(q).c_str(), got[i]);
    vector<int> miss, extra, ok = e.yes; ok.insert(ok.end(), e.maybe.begin(), e.maybe.end()); std::sort(ok.begin(), ok.end());
    std::set_difference(e.yes.begin(), e.yes.end(), got.begin(), got.end(), std::back_inserter(miss));
    std::set_difference(got.begin(), got.end(), ok.begin(), ok.end(), std::back_inserter(extra));
    CHECK(miss.empty() && extra.empty(), "wrong-matches", "%s: %s should match [%s], got [%s]: missing [%s] wrong [%s]", how, qs(q).c_str(), ids(e.yes).c_str(), ids(got).c_str(), ids(miss).c_str(), ids(extra).c_str());
}
static vector<int> td_docs(FrtTopDocs *td) { vector<int> v; for (int i = 0; i < td->size; i++) v.push_back(td->hits[i]->doc); return v; }
