// Abstract model of an index: what a sequence of documents must look like through
// any reader, as canonical text lines, and the reader-side dump producing the same.
#pragma once
#include "common.h"

enum { M_ST = 1, M_TV = 2, M_TM = 4, M_NM = 8, M_DL = 16, M_ALL = 31 };

static inline FrtSymbol SYM(const string &s) { return frt_intern(s.c_str()); }

// ------------------------------------------------------------------ schema
struct FCfg { string name; int store = 1, index = 3, tv = 0; float boost = 1.0f; };
struct Schema {
    FCfg dflt;
    map<string, FCfg> f;
    vector<string> names;      // declared, in order
    vector<string> extra;      // undeclared names documents may use
    const FCfg cfg(const string &n) const {
        auto it = f.find(n);
        if (it != f.end()) return it->second;
        FCfg c = dflt; c.name = n; c.boost = 1.0f; return c;
    }
    vector<string> all() const { vector<string> v = names; v.insert(v.end(), extra.begin(), extra.end()); return v; }
};
static inline bool ix_indexed(const FCfg &c) { return c.index & 1; }
static inline bool ix_tokenized(const FCfg &c) { return c.index == 3 || c.index == 7; }
static inline bool ix_norms(const FCfg &c) { return c.index == 1 || c.index == 3; }

struct MField { string name; vector<string> vals; float boost = 1.0f; };
struct MDoc {
    string id; float boost = 1.0f; vector<MField> fields;
    bool deleted = false, gone = false;
    map<string, int> norm_set;
    const MField *get(const string &n) const { for (auto &x : fields) if (x.name == n) return &x; return nullptr; }
};

// ------------------------------------------------------------------ script analyzer
// words separated by spaces; '=' '+' '#' before a word: position increment 0, 2, 5
struct Tok { string text; long start, end; int inc; };
static inline vector<Tok> script_tokens(const string &v) {
    vector<Tok> out; size_t i = 0;
    while (i < v.size()) {
        while (i < v.size() && v[i] == ' ') i++;
        if (i >= v.size()) break;
        int inc = 1;
        if (v[i] == '=') { inc = 0; i++; } else if (v[i] == '+') { inc = 2; i++; } else if (v[i] == '#') { inc = 5; i++; }
        size_t b = i;
        while (i < v.size() && v[i] != ' ') i++;
        if (out.empty() && inc == 0) inc = 1;
        out.push_back({v.substr(b, std::min<size_t>(i - b, 254)), (long)b, (long)i, inc});
    }
    return out;
}
struct ScriptTS { FrtTokenStream super; FrtToken tk; };
static FrtToken *script_next(FrtTokenStream *ts) {
    char *t = ts->t; bool first = true;
    for (char *p = ts->text; p < t; p++) if (*p != ' ') { first = false; break; }
    while (*t == ' ') t++;
    if (!*t) { ts->t = t; return NULL; }
    int inc = 1;
    if (*t == '=') { inc = 0; t++; } else if (*t == '+') { inc = 2; t++; } else if (*t == '#') { inc = 5; t++; }
    char *b = t;
    while (*t && *t != ' ') t++;
    if (first && inc == 0) inc = 1;
    ts->t = t;
    return frt_tk_set(&((ScriptTS *)ts)->tk, b, (int)(t - b), b - ts->text, t - ts->text, inc);
}
static FrtTokenStream *script_clone(FrtTokenStream *ts) { return frt_ts_clone_size(ts, sizeof(ScriptTS)); }
static inline FrtAnalyzer *script_analyzer() {
    FrtTokenStream *ts = frt_ts_new_i(sizeof(ScriptTS));
    ts->next = &script_next; ts->clone_i = &script_clone;
    return frt_analyzer_new(ts, NULL, NULL);
}

// ------------------------------------------------------------------ inverted view of one field of one document
struct Inv {
    map<string, vector<int>> pos;                 // std::string compares bytes unsigned
    vector<pair<long, long>> offs;
    int num_terms = 0;
};
static inline Inv invert(const FCfg &c, const MField &f) {
    Inv r; long base = 0;
    if (ix_tokenized(c)) {
        int p = -1;
        for (auto &v : f.vals) {
            for (auto &t : script_tokens(v)) {
                p += t.inc;
                r.pos[t.text].push_back(p);
                if ((int)r.offs.size() <= p) r.offs.resize(p + 1, {0, 0});
                r.offs[p] = {base + t.start, base + t.end};
                r.num_terms++;
            }
            base += (long)v.size() + 1;
        }
    } else {
        int i = 0;
        for (auto &v : f.vals) {
            r.pos[v.substr(0, 254)].push_back(i);
            r.offs.push_back({base, base + (long)v.size()});
            base += (long)v.size() + 1; i++; r.num_terms++;
        }
    }
    return r;
}

// independent encoding of a float in the 3-bit-mantissa norm byte
static inline float norm_decode(int b) { return b == 0 ? 0.0f : ldexpf(1.0f + (b & 3) / 4.0f, (b >> 2) - 31); }
static inline int norm_encode(float x) {
    if (!(x > 0)) return 0;
    int r = 1;                                    // smallest positive code
    for (int b = 1; b < 256; b++) if (norm_decode(b) <= x) r = b;
    return r;
}
static inline int norm_expect(const Schema &s, const MDoc &d, const MField &f, int num_terms) {
    auto it = d.norm_set.find(f.name);
    if (it != d.norm_set.end()) return it->second;
    float b = s.cfg(f.name).boost * d.boost * f.boost * (float)(1.0 / sqrt((double)num_terms));
    return norm_encode(b);
}

typedef vector<string> Snap;

static inline string fp(const string &s) { return s.size() <= 100 ? esc(s, 100) : fmt("%s#%zu:%llx", esc(s.substr(0, 24)).c_str(), s.size(), (unsigned long long)fnv(s)); }

static inline Snap snap_model(const Schema &S, const vector<MDoc> &docs, int mask) {
    Snap out;
    vector<const MDoc *> live;
    for (auto &d : docs) if (!d.deleted) live.push_back(&d);
    out.push_back(fmt("live %zu", live.size()));
    auto names = S.all();
    if (mask & M_ST) for (size_t i = 0; i < live.size(); i++) {
        string l = fmt("doc %zu:", i);
        for (auto &f : live[i]->fields) if (S.cfg(f.name).store) {
            l += " " + f.name + "=[";
            for (auto &v : f.vals) l += fp(v) + ",";
            l += "]";
        }
        out.push_back(l);
    }
    vector<map<string, Inv>> invs(live.size());
    if (mask & (M_TV | M_TM | M_NM)) for (size_t i = 0; i < live.size(); i++)
        for (auto &f : live[i]->fields) { FCfg c = S.cfg(f.name); if (ix_indexed(c)) invs[i][f.name] = invert(c, f); }
    if (mask & M_TV) for (size_t i = 0; i < live.size(); i++) for (auto &n : names) {
        FCfg c = S.cfg(n); if (!c.tv || !invs[i].count(n)) continue;
        auto &v = invs[i][n];
        string l = fmt("tv %zu %s:", i, n.c_str());
        for (auto &kv : v.pos) {
            l += " " + fp(kv.first) + fmt("x%zu", kv.second.size());
            if (c.tv & 2) for (int p : kv.second) l += fmt("@%d", p);
        }
        if ((c.tv & 4) && v.pos.size()) for (auto &o : v.offs) l += fmt(" <%ld,%ld>", o.first, o.second);
        out.push_back(l);
    }
    if (mask & M_TM) for (auto &n : names) {
        map<string, string> terms;
        for (size_t i = 0; i < live.size(); i++) {
            auto it = invs[i].find(n); if (it == invs[i].end()) continue;
            for (auto &kv : it->second.pos) {
                string &l = terms[kv.first];
                l += fmt(" %zu/%zu", i, kv.second.size());
                for (int p : kv.second) l += fmt(",%d", p);
            }
        }
        for (auto &kv : terms) out.push_back("term " + n + ":" + fp(kv.first) + kv.second);
    }
    if (mask & M_NM) for (size_t i = 0; i < live.size(); i++) for (auto &n : names) {
        FCfg c = S.cfg(n);
        if (!ix_norms(c)) { if (ix_indexed(c)) out.push_back(fmt("norm %zu %s 0", i, n.c_str())); continue; }
        auto it = invs[i].find(n); if (it == invs[i].end() || it->second.num_terms == 0) continue;
        out.push_back(fmt("norm %zu %s %d", i, n.c_str(), norm_expect(S, *live[i], *live[i]->get(n), it->second.num_terms)));
    }
    return out;
}

// ------------------------------------------------------------------ the reader side
static inline vector<int> live_docs(FrtIndexReader *ir) {
    vector<int> v; int n = ir->max_doc(ir);
    for (int i = 0; i < n; i++) if (!ir->is_deleted(ir, i)) v.push_back(i);
    return v;
}
static inline string doc_line(FrtDocument *d, size_t i) {
    string l = fmt("doc %zu:", i);
    for (int k = 0; k < d->size; k++) {
        FrtDocField *df = d->fields[k];
        l += " " + string(FRT_S(df->name)) + "=[";
        for (int j = 0; j < df->size; j++) {
            CHECK(df->data[j][df->lengths[j]] == 0, "stored-not-terminated", "stored value %d of %s is not NUL terminated", j, FRT_S(df->name));
            l += fp(string(df->data[j], df->lengths[j])) + ",";
        }
        l += "]";
        if (k == 0) {
            string want = string(FRT_S(df->name)) + ": "; if (df->size > 1) want += "["; for (int j = 0; j < df->size; j++) want += (j ? ", \"" : "\"") + string(df->data[j], df->lengths[j]) + "\""; if (df->size > 1) want += "]";
            char *s = frt_df_to_s(df); bool same = !memcmp(s, want.c_str(), want.size() + 1); free(s); CHECK(same, "field-text", "df_to_s of %s is not %s", FRT_S(df->name), esc(want).c_str());
            s = frt_doc_to_s(d); free(s);
        }
        CHECK(frt_doc_get_field(d, df->name) == df, "doc-dict", "field %s not found by name", FRT_S(df->name));
    }
    return l;
}
static inline string tv_line(FrtTermVector *tv, size_t i, const FCfg &c) {
    string l = fmt("tv %zu %s:", i, c.name.c_str());
    for (int k = 0; k < tv->term_cnt; k++) {
        FrtTVTerm *t = &tv->terms[k];
        if (k) CHECK(strcmp(tv->terms[k - 1].text, t->text) < 0, "tv-order", "term vector terms out of order: %s %s", esc(tv->terms[k - 1].text).c_str(), esc(t->text).c_str());
        l += " " + fp(t->text) + fmt("x%d", t->freq);
        if (c.tv & 2) { CHECK(t->positions || !t->freq, "tv-positions", "positions missing"); for (int p = 0; p < t->freq; p++) l += fmt("@%d", t->positions[p]); }
        else CHECK(!t->positions, "tv-positions", "positions stored though not configured");
    }
    if (c.tv & 4) for (int k = 0; k < tv->offset_cnt; k++) l += fmt(" <%ld,%ld>", (long)tv->offsets[k].start, (long)tv->offsets[k].end);
    else CHECK(!tv->offsets, "tv-offsets", "offsets stored though not configured");
    return l;
}
// the settings of the fields as text
static inline string fis_text(FrtFieldInfos *fis, const Schema &S) {
    static const char *st[] = {":no", ":yes", ":compressed"}, *ix[] = {":no", ":untokenized", "", ":yes", "", ":untokenized_omit_norms", "", ":omit_norms"}, *tv[] = {":no", ":yes", "", ":with_positions", "", ":with_offsets", "", ":with_positions_offsets"};
    string o = fmt("default:\n  store: %s\n  index: %s\n  term_vector: %s\nfields:\n", st[S.dflt.store], ix[S.dflt.index], tv[S.dflt.tv]);
    for (int i = 0; i < fis->size; i++) { string n = FRT_S(fis->fields[i]->name); FCfg c = S.cfg(n); o += "  " + n + fmt(":\n    boost: %f\n    store: %s\n    index: %s\n    term_vector: %s\n", c.boost, st[c.store], ix[c.index], tv[c.tv]); }
    return o;
}
static inline Snap snap_reader(const Schema &S, FrtIndexReader *ir, int mask, bool *phantom = nullptr) {
    Snap out;
    vector<int> live = live_docs(ir);
    out.push_back(fmt("live %zu", live.size()));
    CHECK(ir->num_docs(ir) == (int)live.size(), "num-docs", "num_docs %d but %zu documents are not deleted (max_doc %d)", ir->num_docs(ir), live.size(), ir->max_doc(ir));
    if (!live.empty() || ir->max_doc(ir)) CHECK((live.size() == (size_t)ir->max_doc(ir)) || ir->has_deletions(ir), "has-deletions", "has_deletions false with %d deleted", ir->max_doc(ir) - (int)live.size());
    map<int, int> back; for (size_t i = 0; i < live.size(); i++) back[live[i]] = (int)i;
    auto names = S.all();
    if (mask & M_ST) for (size_t i = 0; i < live.size(); i++) {
        FrtDocument *d = ir->get_doc(ir, live[i]);
        struct G { FrtDocument *d; ~G() { frt_doc_destroy(d); } } g{d};
        out.push_back(doc_line(d, i));
    }
    if (mask & M_TV) for (size_t i = 0; i < live.size(); i++) {
        FrtHash *h = ir->term_vectors(ir, live[i]);
        struct G { FrtHash *h; ~G() { if (h) frt_h_destroy(h); } } g{h};
        int found = 0;
        for (auto &n : names) {
            FCfg c = S.cfg(n);
            FrtTermVector *tv = ir->term_vector(ir, live[i], SYM(n));
            struct G2 { FrtTermVector *t; ~G2() { if (t) frt_tv_destroy(t); } } g2{tv};
            FrtTermVector *tv2 = h ? (FrtTermVector *)frt_h_get(h, SYM(n)) : NULL;
            CHECK(!tv == !tv2, "tv-agree", "term_vector %p and term_vectors %p disagree on %s of doc %d", (void *)tv, (void *)tv2, n.c_str(), live[i]);
            if (!tv) continue;
            found++;
            CHECK(c.tv, "tv-unexpected", "field %s has a term vector though not configured", n.c_str());
            string l = tv_line(tv, i, c), l2 = tv_line(tv2, i, c);
            CHECK(l == l2, "tv-agree", "term_vector %s and term_vectors %s differ", l.c_str(), l2.c_str());
            CHECK(string(FRT_S(tv->field)) == n, "tv-field", "term vector of %s says %s", n.c_str(), FRT_S(tv->field));
            for (int k = 0; k < tv->term_cnt; k++) {
                CHECK(frt_tv_get_tv_term(tv, tv->terms[k].text) == &tv->terms[k], "tv-lookup", "lookup of %s fails", esc(tv->terms[k].text).c_str());
            }
            CHECK(frt_tv_get_term_index(tv, "\x01nope") < 0, "tv-lookup", "absent term found");
            out.push_back(l);
        }
        CHECK(!h || h->size == found, "tv-extra", "term_vectors lists %d fields, term_vector finds %d", h ? h->size : 0, found);
    }
    if (mask & M_TM) {
        for (auto &n : names) {
            int fn = frt_fis_get_field_num(ir->fis, SYM(n));
            if (fn < 0 || !fi_is_indexed(ir->fis->fields[fn])) continue;
            FrtTermEnum *te = ir->terms(ir, fn);
            if (!te) continue;
            struct G { FrtTermEnum *t; ~G() { t->close(t); } } g{te};
            FrtTermDocEnum *tp = ir->term_positions(ir);
            struct G3 { FrtTermDocEnum *t; ~G3() { t->close(t); } } g3{tp};
            string last; bool first = true;
            while (char *t = te->next(te)) {
                string term = t;
                CHECK(te->curr_term_len == (int)term.size(), "term-len", "curr_term_len %d for %s", te->curr_term_len, esc(term).c_str());
                CHECK(first || last < term, "term-order", "terms of %s out of order: %s then %s", n.c_str(), esc(last).c_str(), esc(term).c_str());
                first = false; last = term;
                tp->seek(tp, fn, term.c_str());
                string l; int lastdoc = -1, nd = 0;
                while (tp->next(tp)) {
                    int d = tp->doc_num(tp), f = tp->freq(tp);
                    CHECK(d > lastdoc, "posting-order", "postings of %s:%s not increasing: %d after %d", n.c_str(), esc(term).c_str(), d, lastdoc);
                    lastdoc = d; nd++;
                    CHECK(back.count(d), "posting-deleted", "posting of %s:%s for deleted or out-of-range doc %d", n.c_str(), esc(term).c_str(), d);
                    l += fmt(" %d/%d", back[d], f);
                    for (int k = 0; k < f; k++) l += fmt(",%d", tp->next_position(tp));
                }
                int df = ir->doc_freq(ir, fn, term.c_str());
                CHECK(df >= nd, "doc-freq", "doc_freq of %s:%s is %d, %d live postings", n.c_str(), esc(term).c_str(), df, nd);
                CHECK(df <= nd + ir->max_doc(ir) - (int)live.size(), "doc-freq", "doc_freq of %s:%s is %d: %d live postings, %d deleted docs", n.c_str(), esc(term).c_str(), df, nd, ir->max_doc(ir) - (int)live.size());
                CHECK(te->curr_ti.doc_freq == df, "doc-freq", "enumerated doc_freq %d differs from %d", te->curr_ti.doc_freq, df);
                if (nd) out.push_back("term " + n + ":" + fp(term) + l);
                else if (phantom) *phantom = true;
            }
            // exhausted enumerators stay exhausted
        }
    }
    if (mask & M_NM) {
        map<string, string> cache;
        for (auto &n : names) {
            int fn = frt_fis_get_field_num(ir->fis, SYM(n));
            FCfg c = S.cfg(n);
            if (!ix_indexed(c)) continue;
            if (fn < 0) { cache[n] = string(ir->max_doc(ir), 0); continue; }
            string into(ir->max_doc(ir) + 1, (char)0x5a);
            frt_ir_get_norms_into(ir, SYM(n), (frt_uchar *)&into[0]);
            CHECK((unsigned char)into[ir->max_doc(ir)] == 0x5a, "norms-into-overrun", "get_norms_into wrote past max_doc");
            frt_uchar *nb = frt_ir_get_norms(ir, SYM(n));
            cache[n] = string((char *)nb, ir->max_doc(ir));
            for (int d : live) if (nb[d] != (unsigned char)into[d]) {
                // get_norms_into leaves omit-norms fields of multi readers unspecified only if both say none
                fail("norms-agree", "get_norms %d and get_norms_into %d differ for %s doc %d", nb[d], (unsigned char)into[d], n.c_str(), d);
            }
        }
        for (size_t i = 0; i < live.size(); i++) for (auto &n : names) {
            if (!cache.count(n)) continue;
            out.push_back(fmt("norm %zu %s %d", i, n.c_str(), (unsigned char)cache[n][live[i]]));
        }
    }
    return out;
}
// norm lines of documents without the field are unspecified: drop those the model does not list
static inline string norm_prefix(const string &l) { return l.substr(0, l.rfind(' ')); }
static inline bool snap_diff(const Snap &want, const Snap &got0, string &msg) {
    set<string> wn;
    for (auto &l : want) if (l.compare(0, 5, "norm ") == 0) wn.insert(norm_prefix(l));
    Snap got;
    for (auto &l : got0) if (l.compare(0, 5, "norm ") != 0 || wn.count(norm_prefix(l))) got.push_back(l);
    for (size_t i = 0; i < want.size() || i < got.size(); i++) {
        string w = i < want.size() ? want[i] : "(nothing)", g = i < got.size() ? got[i] : "(nothing)";
        if (w != g) { msg = "expected " + w.substr(0, 600) + " but found " + g.substr(0, 600); return true; }
    }
    return false;
}
static inline void snap_check(const Schema &S, const vector<MDoc> &docs, FrtIndexReader *ir, int mask, const char *when, bool no_phantom = false) {
    bool ph = false;
    Snap got = snap_reader(S, ir, mask, &ph), want = snap_model(S, docs, mask);
    string m;
    if (snap_diff(want, got, m)) {
        string kind = m.substr(9, m.find_first_of(": ", 9) - 9);
        fail(("content-" + kind).c_str(), "%s: %s", when, m.c_str());
    }
    if (no_phantom) CHECK(!ph, "phantom-term", "%s: a term without any document is listed in an optimized index", when);
    count("lines_compared", (long)want.size());
}

// ------------------------------------------------------------------ generators
static inline string gen_word(Rng &r, int vocab) {
    static const char *pre[] = {"", "a", "ab", "abc", "zz", "\xc3\xa9", "\xff", "\x7f", "A", "_"};
    int k = r.below(vocab);
    string w = string(pre[k % 10]) + fmt("%c%d", 'a' + (k / 10) % 6, k % 23);
    return w;
}
static inline string gen_text(Rng &r, int vocab, int maxw) {
    int n = r.skew(maxw); string s;
    if (r.chance(1, 12)) s += string(r.below(4), ' ');
    for (int i = 0; i < n; i++) {
        if (i) s += string(1 + (r.chance(1, 10) ? r.below(5) : 0), ' ');
        int p = r.below(20);
        if (p == 0) s += "="; else if (p == 1) s += "+"; else if (p == 2) s += "#";
        if (r.chance(1, 60)) s += string(200 + r.below(110), 'a' + r.below(3)) + fmt("%d", r.below(5));
        else s += gen_word(r, vocab);
    }
    if (r.chance(1, 20)) s += "  ";
    return s;
}
static inline string gen_bytes(Rng &r, int maxlen) {
    int n; int k = r.below(12);
    if (k < 7) n = r.below(40); else if (k < 11) n = r.below(std::min(maxlen, 3000) + 1); else n = r.below(maxlen + 1);
    string s(n, 0);
    int kind = r.below(3);
    for (auto &c : s) c = kind == 0 ? (char)r.below(256) : kind == 1 ? (char)('a' + r.below(4)) : 'q';
    return s;
}
static inline Schema gen_schema(Rng &r, int mask) {
    Schema S;
    auto rnd = [&](const string &n) {
        FCfg c; c.name = n;
        c.store = r.below(3);
        static const int ix[] = {0, 1, 3, 3, 3, 5, 7};
        c.index = ix[r.below(7)];
        static const int tv[] = {0, 1, 3, 5, 7, 7};
        c.tv = c.index ? tv[r.below(6)] : 0;
        static const float b[] = {1, 1, 1, 2, 0.5f, 1.5f, 4};
        c.boost = b[r.below(7)];
        return c;
    };
    S.dflt = rnd("dflt"); S.dflt.boost = 1;
    FCfg id; id.name = "id"; id.store = 1; id.index = 1; id.tv = 0;
    if (r.chance(1, 3)) { FCfg c = rnd("pre"); S.f["pre"] = c; S.names.push_back("pre"); }
    S.f["id"] = id; S.names.push_back("id");
    int n = r.chance(1, 6) ? r.range(9, 18) : r.range(2, 6);
    for (int i = 0; i < n; i++) { FCfg c = rnd(fmt("f%d", i)); S.f[c.name] = c; S.names.push_back(c.name); }
    int e = r.below(3);
    for (int i = 0; i < e; i++) S.extra.push_back(fmt("u%d", i));
    (void)mask;
    return S;
}
static inline FrtFieldInfos *make_fis(const Schema &S) {
    FrtFieldInfos *fis = frt_fis_new((FrtStoreValue)S.dflt.store, (FrtIndexValue)S.dflt.index, (FrtTermVectorValue)S.dflt.tv);
    for (auto &n : S.names) {
        const FCfg &c = S.f.at(n);
        FrtFieldInfo *fi = frt_fi_new(SYM(n), (FrtStoreValue)c.store, (FrtIndexValue)c.index, (FrtTermVectorValue)c.tv);
        fi->boost = c.boost;
        frt_fis_add_field(fis, fi);
    }
    return fis;
}
struct GenOpt { int vocab = 40, maxw = 12, maxbytes = 3000; bool boosts = true; bool odd_values = true; };
static inline MDoc gen_doc(Rng &r, const Schema &S, long serial, const GenOpt &o) {
    MDoc d; d.id = fmt("d%ld", serial);
    vector<string> names = S.all();
    vector<string> use;
    for (auto &n : names) if (n != "id" && (names.size() > 9 ? r.chance(1, 3) : r.chance(3, 4))) use.push_back(n);
    use.push_back("id");
    for (size_t i = use.size(); i > 1; i--) std::swap(use[i - 1], use[r.below((uint32_t)i)]);
    static const float b[] = {1, 1, 1, 1, 2, 0.5f, 1.5f, 3};
    if (o.boosts) d.boost = b[r.below(8)];
    for (auto &n : use) {
        MField f; f.name = n; FCfg c = S.cfg(n);
        if (n == "id") f.vals.push_back(d.id);
        else {
            if (o.boosts) f.boost = b[r.below(8)];
            int nv = r.chance(1, 25) && o.odd_values ? 0 : r.chance(2, 3) ? 1 : r.range(1, 4);
            for (int i = 0; i < nv; i++) {
                if (!ix_indexed(c)) f.vals.push_back(gen_bytes(r, o.maxbytes));
                else if (ix_tokenized(c)) f.vals.push_back(r.chance(1, 30) ? "" : gen_text(r, o.vocab, o.maxw));
                else {
                    string v = r.chance(1, 40) ? string(250 + r.below(12), 'k') + (r.chance(1, 2) ? "x" : "")
                             : r.chance(1, 4) ? gen_text(r, o.vocab, 4) : gen_word(r, o.vocab);
                    if (r.chance(1, 60) && o.odd_values) v = "";
                    f.vals.push_back(v);
                }
            }
        }
        d.fields.push_back(f);
    }
    return d;
}
static inline FrtDocument *make_doc(const MDoc &m) {
    FrtDocument *d = frt_doc_new();
    d->boost = m.boost;
    for (auto &f : m.fields) {
        FrtDocField *df = frt_df_new(SYM(f.name));
        df->boost = f.boost; df->destroy_data = 1;
        for (auto &v : f.vals) {
            char *p = (char *)malloc(v.size() + 1);
            memcpy(p, v.data(), v.size()); p[v.size()] = 0;
            frt_df_add_data_len(df, p, (int)v.size());
        }
        frt_doc_add_field(d, df);
    }
    return d;
}
static inline FrtConfig gen_config(Rng &r) {
    FrtConfig c = frt_default_config;
    static const int chunk[] = {1 << 20, 1 << 14, 2048, 1024};
    c.chunk_size = chunk[r.below(4)];
    static const int mult[] = {16, 1, 2, 4};
    c.max_buffer_memory = c.chunk_size * mult[r.below(4)];
    static const int ii[] = {1, 2, 3, 4, 16, 128};
    c.index_interval = ii[r.below(6)];
    static const int si[] = {1, 2, 3, 4, 16};
    c.skip_interval = si[r.below(5)];
    static const int mf[] = {2, 2, 3, 4, 10};
    c.merge_factor = mf[r.below(5)];
    static const int mb[] = {2, 3, 5, 10, 50, 500};
    c.max_buffered_docs = mb[r.below(6)];
    static const int mm[] = {0x7fffffff, 0x7fffffff, 4, 20};
    c.max_merge_docs = mm[r.below(4)];
    c.max_field_length = 100000;
    c.use_compound_file = r.chance(1, 2);
    return c;
}
static inline string cfg_s(const FrtConfig &c) {
    return fmt("chunk=%d mem=%d ii=%d si=%d mf=%d mbd=%d mmd=%d cfs=%d", c.chunk_size, c.max_buffer_memory, c.index_interval, c.skip_interval, c.merge_factor, c.max_buffered_docs, c.max_merge_docs, (int)c.use_compound_file);
}
