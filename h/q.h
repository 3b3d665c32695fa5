// Query trees: an independent definition of what every query type matches and
// how it is scored, and the construction of the library's query objects.
#pragma once
#include "world.h"

enum QT { Q_TERM, Q_BOOL, Q_PHRASE, Q_MT, Q_MAQ, Q_CSQ, Q_FQ, Q_PREFIX, Q_WILD, Q_FUZZY, Q_RANGE, Q_TRANGE,
          S_TERM, S_MT, S_PREFIX, S_FIRST, S_OR, S_NOT, S_NEAR };
enum Tri { NO = 0, YES = 1, UNK = 2 };
static inline Tri t_not(Tri a) { return a == UNK ? UNK : a == YES ? NO : YES; }
static inline Tri t_and(Tri a, Tri b) { return (a == NO || b == NO) ? NO : (a == YES && b == YES) ? YES : UNK; }
static inline Tri t_or(Tri a, Tri b) { return (a == YES || b == YES) ? YES : (a == NO && b == NO) ? NO : UNK; }

struct Q {
    QT t = Q_TERM; string f, s; float boost = 1;
    vector<Q> k; vector<int> occ; bool cd = false;            // boolean
    vector<vector<string>> ph; vector<int> pos; int slop = 0;  // phrase / near
    vector<pair<string, float>> mt;                            // multi-term
    string lo, hi; bool has_lo = false, has_hi = false, inc_lo = false, inc_hi = false;
    float min_sim = 0.5f; int pre_len = 0, maxt = 0;           // maxt: how many terms to expand to
    int end = 0; bool ordered = false, dup = false;
    int filt = 0;       // csq / fq: 0 query filter over the last kid, 1 range filter, 2 typed range filter
    string fkey;        // cache of the filter object
};
static inline bool is_span(const Q &q) { return q.t >= S_TERM; }

static string qs(const Q &q) {
    string b = q.boost != 1 ? fmt("^%g", q.boost) : "";
    auto kids = [&] { string o; for (size_t i = 0; i < q.k.size(); i++) { if (i) o += " "; if (q.t == Q_BOOL) o += q.occ[i] == 1 ? "+" : q.occ[i] == 2 ? "-" : ""; o += qs(q.k[i]); } return o; };
    auto rng = [&] { return q.f + ":" + (q.inc_lo ? "[" : "{") + (q.has_lo ? esc(q.lo) : "*") + " " + (q.has_hi ? esc(q.hi) : "*") + (q.inc_hi ? "]" : "}"); };
    switch (q.t) {
    case Q_TERM: return q.f + ":" + esc(q.s) + b;
    case Q_BOOL: return string(q.cd ? "nocoord" : "") + "(" + kids() + ")" + b;
    case Q_PHRASE: { string o = q.f + ":\""; for (size_t i = 0; i < q.ph.size(); i++) { o += fmt("@%d", q.pos[i]); for (auto &t : q.ph[i]) o += esc(t) + "|"; o += " "; } return o + fmt("\"~%d", q.slop) + b; }
    case Q_MT: { string o = q.f + ":mt("; for (auto &m : q.mt) o += esc(m.first) + fmt("*%g ", m.second); return o + ")" + b; }
    case Q_MAQ: return "ALL" + b;
    case Q_CSQ: return "const(" + (q.filt ? (q.filt == 2 ? "T" : "") + rng() : kids()) + ")" + b;
    case Q_FQ: return "filtered(" + qs(q.k[0]) + " by " + (q.filt ? (q.filt == 2 ? "T" : "") + rng() : qs(q.k[1])) + ")" + b;
    case Q_PREFIX: return q.f + ":" + esc(q.s) + "*" + b;
    case Q_WILD: return q.f + ":wild" + esc(q.s) + b;
    case Q_FUZZY: return q.f + ":" + esc(q.s) + fmt("~%g/%d", q.min_sim, q.pre_len) + b;
    case Q_RANGE: return rng() + b;
    case Q_TRANGE: return "T" + rng() + b;
    case S_TERM: return "st(" + q.f + ":" + esc(q.s) + ")" + b;
    case S_MT: { string o = "smt(" + q.f + ":"; for (auto &m : q.mt) o += esc(m.first) + " "; return o + ")" + b; }
    case S_PREFIX: return "spre(" + q.f + ":" + esc(q.s) + ")" + b;
    case S_FIRST: return fmt("first%d(", q.end) + kids() + ")" + b;
    case S_OR: return "or(" + kids() + ")" + b;
    case S_NOT: return "not(" + kids() + ")" + b;
    case S_NEAR: return fmt("near%s%d(", q.ordered ? "O" : "U", q.slop) + kids() + ")" + b;
    }
    return "?";
}

// ------------------------------------------------------------------ construction
static FrtFilter *build_filter(const Q &q, size_t kid);
// where the library has several ways to make the same query, one of them, by the text of the query
static int variant(const Q &q) { unsigned h = 5381; for (char c : qs(q)) h = h * 33 + (unsigned char)c; return (h >> 4) & 1; }
static FrtQuery *build(const Q &q) {
    FrtQuery *r = nullptr; FrtSymbol f = q.f.empty() ? NULL : SYM(q.f);
    const char *lo = q.has_lo ? q.lo.c_str() : NULL, *hi = q.has_hi ? q.hi.c_str() : NULL;
    switch (q.t) {
    case Q_TERM: r = frt_tq_new(f, q.s.c_str()); break;
    case Q_BOOL: r = frt_bq_new(q.cd); for (size_t i = 0; i < q.k.size(); i++) { FrtQuery *k = build(q.k[i]); if (variant(q)) { frt_bq_add_query(r, k, (FrtBCType)q.occ[i]); frt_q_deref(k); } else frt_bq_add_query_nr(r, k, (FrtBCType)q.occ[i]); } break;
    case Q_PHRASE: r = frt_phq_new(f);
        for (size_t i = 0; i < q.ph.size(); i++) { frt_phq_add_term_abs(r, q.ph[i][0].c_str(), q.pos[i]); for (size_t j = 1; j < q.ph[i].size(); j++) frt_phq_append_multi_term(r, q.ph[i][j].c_str()); }
        frt_phq_set_slop(r, q.slop); break;
    case Q_MT: r = frt_multi_tq_new(f); for (auto &m : q.mt) { if (m.second == 1) frt_multi_tq_add_term(r, m.first.c_str()); else frt_multi_tq_add_term_boost(r, m.first.c_str(), m.second); } break;
    case Q_MAQ: r = frt_maq_new(); break;
    case Q_CSQ: r = frt_csq_new_nr(build_filter(q, 0)); break;
    case Q_FQ: r = frt_fq_new(build(q.k[0]), build_filter(q, 1)); break;
    case Q_PREFIX: r = frt_prefixq_new(f, q.s.c_str()); if (q.maxt) FrtMTQMaxTerms(r) = q.maxt; break;
    case Q_WILD: r = frt_wcq_new(f, q.s.c_str()); if (q.maxt) FrtMTQMaxTerms(r) = q.maxt; break;
    case Q_FUZZY: if (q.min_sim == 0.5f && !q.pre_len && !q.maxt && variant(q)) r = frt_fuzq_new(f, q.s.c_str()); else r = frt_fuzq_new_conf(f, q.s.c_str(), q.min_sim, q.pre_len, q.maxt ? q.maxt : 256); break;
    case Q_RANGE: r = !lo && variant(q) ? frt_rq_new_less(f, hi, q.inc_hi) : !hi && variant(q) ? frt_rq_new_more(f, lo, q.inc_lo) : frt_rq_new(f, lo, hi, q.inc_lo, q.inc_hi); break;
    case Q_TRANGE: r = !lo && variant(q) ? frt_trq_new_less(f, hi, q.inc_hi) : !hi && variant(q) ? frt_trq_new_more(f, lo, q.inc_lo) : frt_trq_new(f, lo, hi, q.inc_lo, q.inc_hi); break;
    case S_TERM: r = frt_spantq_new(f, q.s.c_str()); break;
    case S_MT: r = frt_spanmtq_new(f); for (auto &m : q.mt) frt_spanmtq_add_term(r, m.first.c_str()); break;
    case S_PREFIX: r = frt_spanprq_new(f, q.s.c_str()); break;
    case S_FIRST: if (variant(q)) { FrtQuery *k = build(q.k[0]); r = frt_spanfq_new(k, q.end); frt_q_deref(k); } else r = frt_spanfq_new_nr(build(q.k[0]), q.end); break;
    case S_OR: r = frt_spanoq_new(); for (auto &k : q.k) if (variant(q)) { FrtQuery *x = build(k); frt_spanoq_add_clause(r, x); frt_q_deref(x); } else frt_spanoq_add_clause_nr(r, build(k)); break;
    case S_NEAR: r = frt_spannq_new(q.slop, q.ordered); for (auto &k : q.k) if (variant(q)) { FrtQuery *x = build(k); frt_spannq_add_clause(r, x); frt_q_deref(x); } else frt_spannq_add_clause_nr(r, build(k)); break;
    case S_NOT: if (variant(q)) { FrtQuery *a = build(q.k[0]), *b = build(q.k[1]); r = frt_spanxq_new(a, b); frt_q_deref(a); frt_q_deref(b); } else r = frt_spanxq_new_nr(build(q.k[0]), build(q.k[1])); break;
    }
    r->boost = q.boost;
    return r;
}
static FrtFilter *build_filter(const Q &q, size_t kid) {
    const char *lo = q.has_lo ? q.lo.c_str() : NULL, *hi = q.has_hi ? q.hi.c_str() : NULL;
    if (q.filt == 1) return frt_rfilt_new(SYM(q.f), lo, hi, q.inc_lo, q.inc_hi);
    if (q.filt == 2) return frt_trfilt_new(SYM(q.f), lo, hi, q.inc_lo, q.inc_hi);
    return frt_qfilt_new_nr(build(q.k[kid]));
}
struct QG { FrtQuery *q; explicit QG(FrtQuery *x) : q(x) {} QG(const QG &) = delete; QG(QG &&o) : q(o.q) { o.q = nullptr; } ~QG() { if (q) frt_q_deref(q); } };

// ------------------------------------------------------------------ term predicates
static bool glob(const char *p, const char *t) {
    if (!*p) return !*t;
    if (*p == '*') { for (;; t++) { if (glob(p + 1, t)) return true; if (!*t) return false; } }
    if (!*t) return false;
    return (*p == '?' || *p == *t) && glob(p + 1, t + 1);
}
static int edit_dist(const string &a, const string &b) {
    vector<vector<int>> d(a.size() + 1, vector<int>(b.size() + 1));
    for (size_t i = 0; i <= a.size(); i++) for (size_t j = 0; j <= b.size(); j++) {
        if (!i) d[i][j] = (int)j; else if (!j) d[i][j] = (int)i;
        else d[i][j] = std::min({d[i - 1][j] + 1, d[i][j - 1] + 1, d[i - 1][j - 1] + (a[i - 1] != b[j - 1])});
    }
    return d[a.size()][b.size()];
}
static Tri fuzzy_sim(const Q &q, const string &term, double *sim) {
    *sim = 1;
    if (q.pre_len >= (int)q.s.size()) return term == q.s ? YES : NO;
    if (term.compare(0, q.pre_len, q.s, 0, q.pre_len) || (int)term.size() < q.pre_len) return NO;
    string a = q.s.substr(q.pre_len), b = term.substr(q.pre_len);
    double v;
    if (b.empty()) v = q.pre_len == 0 ? 0 : 1 - (double)a.size() / q.pre_len;
    else v = 1 - (double)edit_dist(a, b) / (q.pre_len + (double)std::min(a.size(), b.size()));
    *sim = v;
    if (fabs(v - q.min_sim) < 1e-5) {     // exactly at the threshold (strict) when it is representable
        return (q.min_sim == 0.5f || q.min_sim == 0.25f || q.min_sim == 0.0f || q.min_sim == 0.75f) && v == q.min_sim ? NO : UNK;
    }
    return v > q.min_sim ? YES : NO;
}
static bool as_num(const string &t, double *v) {
    if (t.empty()) return false;
    unsigned char c = t[0];
    if (!(c == '+' || c == '-' || c == '.' || (c >= '0' && c <= '9'))) return false;
    char *e; *v = strtod(t.c_str(), &e);
    return *e == 0;
}
static bool in_range(const Q &q, const string &t, bool typed) {
    if (typed) {
        double l = 0, h = 0, v;
        if ((!q.has_lo || as_num(q.lo, &l)) && (!q.has_hi || as_num(q.hi, &h))) {
            if (!as_num(t, &v)) return false;
            return (!q.has_lo || (q.inc_lo ? v >= l : v > l)) && (!q.has_hi || (q.inc_hi ? v <= h : v < h));
        }
    }
    return (!q.has_lo || (q.inc_lo ? t >= q.lo : t > q.lo)) && (!q.has_hi || (q.inc_hi ? t <= q.hi : t < q.hi));
}
static Tri term_pred(const Q &q, const string &t, double *w) {
    *w = 1;
    switch (q.t) {
    case Q_TERM: case S_TERM: return t == q.s ? YES : NO;
    case Q_MT: for (auto &m : q.mt) if (m.first == t) { *w = m.second; return YES; } return NO;
    case S_MT: for (auto &m : q.mt) if (m.first == t) return YES; return NO;
    case Q_PREFIX: case S_PREFIX: return t.compare(0, q.s.size(), q.s) == 0 && t.size() >= q.s.size() ? YES : NO;
    case Q_WILD: return glob(q.s.c_str(), t.c_str()) ? YES : NO;
    case Q_FUZZY: return fuzzy_sim(q, t, w);
    case Q_RANGE: return in_range(q, t, false) ? YES : NO;
    case Q_TRANGE: return in_range(q, t, true) ? YES : NO;
    default: return NO;
    }
}

// ------------------------------------------------------------------ documents as a reader sees them
struct DV { int doc; const MDoc *m; map<string, Inv> inv; };
struct Ctx {
    const Schema *S = nullptr; FrtIndexReader *ir = nullptr; FrtSearcher *sea = nullptr;
    vector<DV> d; map<int, int> back; int max_doc = 0;
    map<string, vector<string>> terms;                 // of the reader, with those of deleted documents
    map<string, vector<unsigned char>> norms;
    const vector<string> &terms_of(const string &f) {
        auto it = terms.find(f); if (it != terms.end()) return it->second;
        vector<string> v; int fn = frt_fis_get_field_num(ir->fis, SYM(f));
        if (fn >= 0) { FrtTermEnum *te = ir->terms(ir, fn); if (te) { while (char *t = te->next(te)) v.push_back(t); te->close(te); } }
        return terms[f] = v;
    }
    int df(const string &f, const string &t) { int fn = frt_fis_get_field_num(ir->fis, SYM(f)); return fn < 0 ? 0 : ir->doc_freq(ir, fn, t.c_str()); }
    double norm(const string &f, int doc) {
        auto it = norms.find(f);
        if (it == norms.end()) { vector<unsigned char> b(max_doc + 1, 0); frt_ir_get_norms_into(ir, SYM(f), b.data()); it = norms.emplace(f, b).first; }
        return norm_decode(it->second[doc]);
    }
};
static void ctx_load(Ctx &c, const Schema &S, const vector<MDoc> &docs, FrtIndexReader *ir) {
    c.S = &S; c.ir = ir; c.max_doc = ir->max_doc(ir);
    auto lv = live_docs(ir); size_t j = 0;
    for (auto &m : docs) if (!m.deleted) {
        CHECK(j < lv.size(), "content-live", "%zu live documents in the reader, more expected", lv.size());
        DV v; v.doc = lv[j]; v.m = &m;
        for (auto &f : m.fields) { FCfg fc = S.cfg(f.name); if (ix_indexed(fc)) v.inv[f.name] = invert(fc, f); }
        c.back[v.doc] = (int)j; c.d.push_back(v); j++;
    }
    CHECK(j == lv.size(), "content-live", "%zu live documents in the reader, %zu expected", lv.size(), j);
}

// ------------------------------------------------------------------ spans
typedef vector<pair<int, int>> Spans;
static Spans spans(const Q &q, const DV &d) {
    Spans out;
    auto fi = d.inv.find(q.f);
    switch (q.t) {
    case S_TERM: case S_MT: case S_PREFIX: {
        if (fi == d.inv.end()) return out;
        vector<int> p; double w;
        for (auto &kv : fi->second.pos) if (term_pred(q, kv.first, &w) == YES) p.insert(p.end(), kv.second.begin(), kv.second.end());
        std::sort(p.begin(), p.end());
        if (q.t != S_TERM) p.erase(std::unique(p.begin(), p.end()), p.end());
        for (int x : p) out.push_back({x, x + 1});
        return out; }
    case S_FIRST: for (auto &s : spans(q.k[0], d)) if (s.second <= q.end) out.push_back(s); return out;
    case S_OR: {
        vector<Spans> l; vector<size_t> at; for (auto &k : q.k) { l.push_back(spans(k, d)); at.push_back(0); }
        for (;;) {
            int b = -1;
            for (size_t i = 0; i < l.size(); i++) if (at[i] < l[i].size() && (b < 0 || l[i][at[i]] < l[b][at[b]])) b = (int)i;
            if (b < 0) return out;
            out.push_back(l[b][at[b]++]);
        } }
    case S_NOT: {
        Spans a = spans(q.k[0], d), x = spans(q.k[1], d);
        for (auto &s : a) { bool hit = false; for (auto &e : x) if (e.second > s.first && e.first < s.second) hit = true; if (!hit) out.push_back(s); }
        return out; }
    case S_NEAR: {
        vector<Spans> l; for (auto &k : q.k) l.push_back(spans(k, d));
        if (l.size() == 1) return l[0];
        for (auto &x : l) if (x.empty()) return out;
        vector<size_t> at(l.size(), 0);
        if (q.ordered) {
            for (size_t a = 0; a < l[0].size(); a++) {
                auto prev = l[0][a]; int len = prev.second - prev.first;
                for (size_t i = 1; i < l.size(); i++) {
                    while (at[i] < l[i].size() && l[i][at[i]] < prev) at[i]++;
                    if (at[i] == l[i].size()) return out;
                    prev = l[i][at[i]]; len += prev.second - prev.first;
                }
                if (prev.second - l[0][a].first - len <= q.slop) out.push_back({l[0][a].first, prev.second});
            }
            return out;
        }
        for (;;) {
            int mx = 0, mn = INT_MAX, len = 0; size_t mi = 0;
            for (size_t i = 0; i < l.size(); i++) { auto s = l[i][at[i]]; mx = std::max(mx, s.second); if (s.first < mn) { mn = s.first; mi = i; } len += s.second - s.first; }
            if (mx - mn - len <= q.slop) out.push_back({mn, mx});
            if (++at[mi] == l[mi].size()) return out;
        } }
    default: return out;
    }
}
// all kids of every near have one width, so that the near is plainly "some choice of spans satisfies the condition"
static int span_width(const Q &q) {
    switch (q.t) {
    case S_TERM: case S_MT: case S_PREFIX: return 1;
    case S_FIRST: return span_width(q.k[0]);
    case S_NOT: return span_width(q.k[0]) && span_width(q.k[1]) ? span_width(q.k[0]) : 0;
    case S_OR: { int w = -1; for (auto &k : q.k) { int x = span_width(k); if (!x || (w >= 0 && w != x)) return 0; w = x; } return w < 0 ? 1 : w; }
    case S_NEAR: return 0;
    default: return 0;
    }
}
// the definition, by search over all choices (top level near over fixed width clauses)
static bool near_exists(const Q &q, const DV &d) {
    vector<Spans> l; for (auto &k : q.k) { l.push_back(spans(k, d)); if (l.back().empty()) return false; }
    vector<size_t> at(l.size(), 0);
    for (;;) {
        int mx = 0, mn = INT_MAX, len = 0; bool ok = true;
        for (size_t i = 0; i < l.size(); i++) {
            auto s = l[i][at[i]]; mx = std::max(mx, s.second); mn = std::min(mn, s.first); len += s.second - s.first;
            if (q.ordered && i && s < l[i - 1][at[i - 1]]) ok = false;
        }
        if (q.ordered) { mn = l[0][at[0]].first; mx = l.back()[at.back()].second; }
        if (ok && mx - mn - len <= q.slop) return true;
        size_t i = 0; while (i < l.size() && ++at[i] == l[i].size()) at[i++] = 0;
        if (i == l.size()) return false;
    }
}

// ------------------------------------------------------------------ phrases
struct PhraseView { vector<vector<int>> adj, raw; bool empty = false, dup = false, repeats = false; };
static PhraseView phrase_view(const Q &q, const DV &d) {
    PhraseView v; auto fi = d.inv.find(q.f); set<string> seen; set<int> offs;
    for (size_t i = 0; i < q.ph.size(); i++) {
        vector<int> p; set<string> here(q.ph[i].begin(), q.ph[i].end());
        if (here.size() != q.ph[i].size()) v.repeats = v.dup = true;
        for (auto &t : here) {
            if (seen.count(t)) v.repeats = true; seen.insert(t);
            if (fi != d.inv.end()) { auto it = fi->second.pos.find(t); if (it != fi->second.pos.end()) p.insert(p.end(), it->second.begin(), it->second.end()); }
        }
        if (!offs.insert(q.pos[i]).second) v.dup = true;
        std::sort(p.begin(), p.end());
        if (std::unique(p.begin(), p.end()) != p.end()) v.dup = true;
        if (p.empty()) v.empty = true;
        v.raw.push_back(p); for (auto &x : p) x -= q.pos[i]; v.adj.push_back(p);
    }
    return v;
}
static int phrase_exact(const PhraseView &v) {
    int n = 0; set<int> done;
    if (v.adj.empty()) return 0;
    for (int p : v.adj[0]) { if (!done.insert(p).second) continue; bool ok = true; for (auto &a : v.adj) if (!std::count(a.begin(), a.end(), p)) ok = false; n += ok; }
    return n;
}
static bool phrase_sloppy(const PhraseView &v, int slop) {
    for (auto &a : v.adj) for (int lo : a) { bool ok = true; for (auto &b : v.adj) { bool in = false; for (int x : b) if (x >= lo && x <= lo + slop) in = true; if (!in) ok = false; } if (ok) return true; }
    return false;
}
// the sloppy frequency: windows that cannot be shortened from the left
static double phrase_sloppy_freq(const Q &q, const PhraseView &v, int slop) {
    size_t n = v.adj.size(); vector<size_t> at(n, 0); double f = 0; int last = INT_MIN;
    for (size_t i = 0; i < n; i++) last = std::max(last, v.adj[i][0]);
    for (bool done = false; !done;) {
        size_t m = 0; for (size_t i = 1; i < n; i++) { int a = v.adj[i][at[i]], b = v.adj[m][at[m]]; if (a < b || (a == b && q.pos[i] < q.pos[m])) m = i; }
        int next = INT_MAX; for (size_t i = 0; i < n; i++) if (i != m) next = std::min(next, v.adj[i][at[i]]);
        int start = v.adj[m][at[m]], pos = start;
        while (pos <= next) { start = pos; if (++at[m] == v.adj[m].size()) { at[m]--; done = true; break; } pos = v.adj[m][at[m]]; }
        if (last - start <= slop) f += 1.0 / (last - start + 1);
        last = std::max(last, v.adj[m][at[m]]);
    }
    return f;
}

// ------------------------------------------------------------------ matching
static Tri match(const Q &q, const DV &d) {
    switch (q.t) {
    case Q_MAQ: return YES;
    case Q_BOOL: {
        if (q.k.empty()) return NO;
        bool req = false, opt = false; Tri r = YES, o = NO;
        for (size_t i = 0; i < q.k.size(); i++) {
            Tri m = match(q.k[i], d);
            if (q.occ[i] == 1) { req = true; r = t_and(r, m); }
            else if (q.occ[i] == 2) r = t_and(r, t_not(m));
            else { opt = true; o = t_or(o, m); }
        }
        return (!req && opt) ? t_and(r, o) : r; }
    case Q_PHRASE: {
        if (q.ph.empty()) return NO;
        PhraseView v = phrase_view(q, d);
        if (v.empty) return NO;
        if (q.ph.size() == 1) return YES;
        bool ex = phrase_exact(v) > 0;
        if (!q.slop) return ex ? YES : NO;
        bool sl = phrase_sloppy(v, q.slop);
        if (!v.repeats) return sl ? YES : NO;
        return !sl ? NO : UNK; }
    case Q_CSQ: case Q_FQ: {
        Tri m = YES;
        if (q.filt) { m = NO; auto fi = d.inv.find(q.f); if (fi != d.inv.end()) for (auto &kv : fi->second.pos) if (in_range(q, kv.first, q.filt == 2)) m = YES; }
        for (auto &k : q.k) m = t_and(m, match(k, d));
        return m; }
    case S_TERM: case S_MT: case S_PREFIX: case S_FIRST: case S_OR: case S_NOT: case S_NEAR: {
        bool m = !spans(q, d).empty();
        if (q.t == S_NEAR && q.k.size() > 1) {
            bool fixed = true; double combos = 1;
            for (auto &k : q.k) { if (!span_width(k)) fixed = false; else combos *= spans(k, d).size() + 1.0; }
            if (fixed && combos < 5000 && near_exists(q, d) != m) throw Skip{"near reference"};
        }
        return m ? YES : NO; }
    default: {
        auto fi = d.inv.find(q.f); Tri m = NO; double w;
        if (fi != d.inv.end()) for (auto &kv : fi->second.pos) m = t_or(m, term_pred(q, kv.first, &w));
        return m; }
    }
}

// ------------------------------------------------------------------ scoring
static Q rewritten(const Q &q) {
    if (q.t == Q_BOOL) {
        if (q.k.size() == 1 && q.occ[0] != 2) { Q r = rewritten(q.k[0]); r.boost *= q.boost; return r; }
        Q r = q; bool np = false;
        for (size_t i = 0; i < r.k.size(); i++) { r.k[i] = rewritten(q.k[i]); if (r.occ[i] != 2) np = true; }
        if (!np && !r.k.empty()) { Q a; a.t = Q_MAQ; r.k.push_back(a); r.occ.push_back(1); }
        return r;
    }
    if (q.t == Q_PHRASE && q.ph.size() == 1) {
        Q r; r.f = q.f; r.boost = q.boost;
        if (q.ph[0].size() == 1) { r.t = Q_TERM; r.s = q.ph[0][0]; }
        else { r.t = Q_MT; set<string> seen; for (auto &t : q.ph[0]) { if (!seen.insert(t).second) r.dup = true; r.mt.push_back({t, 1}); } }
        return r;
    }
    if (q.t == Q_WILD && q.s.find_first_of("*?") == string::npos) { Q r = q; r.t = Q_TERM; return r; }
    if (q.t == Q_FUZZY && q.pre_len >= (int)q.s.size()) { Q r = q; r.t = Q_TERM; return r; }
    if (q.t == Q_FQ) { Q r = q; r.k[0] = rewritten(q.k[0]); return r; }
    return q;
}
static double idf_df(Ctx &c, double df) { return log((double)c.max_doc / (df + 1)) + 1.0; }
struct W { const Q *q; double idf = 1, boost = 1, qw = 0, value = 0; vector<W> k; };
static void span_terms(const Q &q, Ctx &c, set<string> &out) {
    double w;
    switch (q.t) {
    case S_TERM: out.insert(q.s); break;
    case S_MT: for (auto &m : q.mt) out.insert(m.first); break;
    case S_PREFIX: for (auto &t : c.terms_of(q.f)) if (term_pred(q, t, &w) == YES) out.insert(t); break;
    case S_NOT: span_terms(q.k[0], c, out); break;
    default: for (auto &k : q.k) span_terms(k, c, out);
    }
}
static W weight(const Q &q, Ctx &c) {
    W w; w.q = &q; w.boost = q.boost; double x;
    switch (q.t) {
    case Q_TERM: w.idf = idf_df(c, c.df(q.f, q.s)); break;
    case Q_PHRASE: w.idf = 0; for (auto &p : q.ph) for (auto &t : p) w.idf += idf_df(c, c.df(q.f, t)); break;
    case Q_MT: { double s = 0; for (auto &m : q.mt) s += c.df(q.f, m.first); w.idf = idf_df(c, s); break; }
    case Q_PREFIX: case Q_WILD: case Q_FUZZY: { double s = 0; for (auto &t : c.terms_of(q.f)) if (term_pred(q, t, &x) == YES) s += c.df(q.f, t); w.idf = idf_df(c, s); break; }
    case Q_BOOL: case Q_FQ: for (size_t i = 0; i < q.k.size() && (q.t == Q_BOOL || i == 0); i++) w.k.push_back(weight(q.k[i], c)); break;
    case Q_MAQ: case Q_CSQ: case Q_RANGE: case Q_TRANGE: w.idf = 1; break;
    default: { set<string> ts; span_terms(q, c, ts); w.idf = 0; for (auto &t : ts) w.idf += idf_df(c, c.df(q.f, t)); break; }
    }
    return w;
}
static double w_sumsq(W &w) {
    if (w.q->t == Q_BOOL) { double s = 0; for (size_t i = 0; i < w.k.size(); i++) if (w.q->occ[i] != 2) s += w_sumsq(w.k[i]); return s * w.boost * w.boost; }
    if (w.q->t == Q_FQ) return w_sumsq(w.k[0]) * w.boost * w.boost;
    w.qw = w.idf * w.boost; return w.qw * w.qw;
}
static void w_norm(W &w, double f) {
    if (w.q->t == Q_BOOL) { f *= w.boost; for (size_t i = 0; i < w.k.size(); i++) if (w.q->occ[i] != 2) w_norm(w.k[i], f); return; }
    if (w.q->t == Q_FQ) { w_norm(w.k[0], f * w.boost); return; }
    w.qw *= f; w.value = w.qw * w.idf;
}
// score of a matching document; *known becomes false where the definition leaves freedom
static double w_score(W &w, const DV &d, Ctx &c, bool *known) {
    const Q &q = *w.q; auto fi = d.inv.find(q.f);
    switch (q.t) {
    case Q_MAQ: case Q_CSQ: case Q_RANGE: case Q_TRANGE: return w.value;
    case Q_FQ: return w_score(w.k[0], d, c, known);
    case Q_BOOL: {
        double s = 0; int n = 0, mx = 0;
        for (size_t i = 0; i < q.k.size(); i++) if (q.occ[i] != 2) {
            mx++; Tri m = match(q.k[i], d); if (m == UNK) *known = false;
            if (m == YES) { n++; s += w_score(w.k[i], d, c, known); }
        }
        return q.cd ? s : s * n / mx; }
    case Q_PHRASE: {
        PhraseView v = phrase_view(q, d); double f = 0;
        if (v.dup || v.empty) { *known = false; return 0; }
        if (!q.slop) f = phrase_exact(v); else if (v.repeats) *known = false; else f = phrase_sloppy_freq(q, v, q.slop);
        return sqrt(f) * w.value * c.norm(q.f, d.doc); }
    case Q_TERM: case Q_MT: case Q_PREFIX: case Q_WILD: case Q_FUZZY: {
        double s = 0, x;
        if (q.dup || fi == d.inv.end()) { *known = false; return 0; }
        for (auto &kv : fi->second.pos) { Tri m = term_pred(q, kv.first, &x); if (m == UNK) *known = false; if (m == YES) s += sqrt((double)kv.second.size()) * (q.t == Q_MT || q.t == Q_FUZZY ? x : 1); }
        return s * w.value * c.norm(q.f, d.doc); }
    default: {
        double f = 0; for (auto &s : spans(q, d)) f += 1.0 / (s.second - s.first + 1);
        return sqrt(f) * w.value * c.norm(q.f, d.doc); }
    }
}
static bool near_eq(double a, double b, double rel = 2e-4) { return fabs(a - b) <= rel * std::max(fabs(a), fabs(b)) + 1e-12; }
