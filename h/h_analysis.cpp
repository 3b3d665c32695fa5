// Analyzers and token filters (C12): well-formed tokens for any text, exact tokens where a definition exists.
#include "common.h"
#include <clocale>
#include <set>
extern "C" { struct sb_stemmer; struct sb_stemmer *sb_stemmer_new(const char *, const char *); void sb_stemmer_delete(struct sb_stemmer *);
             const unsigned char *sb_stemmer_stem(struct sb_stemmer *, const unsigned char *, int); int sb_stemmer_length(struct sb_stemmer *); }

enum { MAXT = 254 };
struct Tok { string text; long start, end; int pos; bool operator==(const Tok &o) const { return text == o.text && start == o.start && end == o.end && pos == o.pos; } };
typedef vector<Tok> Toks;
static string ts_s(const Toks &t) { string o; for (size_t i = 0; i < t.size() && i < 60; i++) o += fmt("[%s %ld-%ld +%d]", esc(t[i].text, 80).c_str(), t[i].start, t[i].end, t[i].pos); return o; }

// ---------------------------------------------------------------- texts
static const char *MBC[] = {"\xc3\xa9", "\xc3\x89", "\xc3\x9f", "\xd0\x96", "\xd1\x8f", "\xe6\x97\xa5", "\xe2\x84\xaa", "\xc8\xba", "\xc4\xb0", "\xf0\x9d\x94\x84", "\xc2\xa0", "\xe2\x80\x83", "\xe3\x80\x80", "\xc2\xab", "\xef\xbf\xbd", "\xe1\xba\x9e", "\xe2\xb1\xbe"};
static const char *BADC[] = {"\xff", "\xc3", "\xe2\x84", "\x80", "\xf0\x9d", "\xc0\x80", "\xed\xa0\x80", "\xfe", "\xf8\x88\x80\x80\x80"};
static string noise_piece(Rng &r) {
    static const char P[] = ".,-_'/:@&+!#$%^*()[]{}|<>=~`\"\\;?";
    string s; int n;
    switch (r.below(16)) {
    case 0: case 1: case 2: n = r.range(1, 8); for (int i = 0; i < n; i++) s += "abcxyzABSTs019"[r.below(14)]; return s;
    case 3: n = r.range(1, 4); for (int i = 0; i < n; i++) s += P[r.below(sizeof P - 1)]; return s;
    case 4: case 5: s = string(1, " \t\n\r\v\f"[r.below(6)]); return s;
    case 6: n = r.range(1, 4); for (int i = 0; i < n; i++) s += MBC[r.below(17)]; return s;
    case 7: s = BADC[r.below(9)]; return s;
    case 8: n = r.range(1, 6); for (int i = 0; i < n; i++) s += (char)r.range(1, 255); return s;
    case 9: { static const char *k[] = {"http://", "ftp:///", "file:///", "https://", "svn://", "www.", ".com", "'s", "'S", "@x.org", "T.N.T.", "-5", "+5.25", "e-mail", "AT&T", "://", "\"a b\"@c.de"}; return k[r.below(17)]; }
    case 10: { int m = r.below(12); n = m == 0 ? r.range(4080, 4110) : m == 1 ? r.range(2040, 2060) : m < 6 ? r.range(250, 260) : r.range(20, 600);
               string u = r.chance(1, 2) ? string(1, "aA9 -.'_@!/"[r.below(11)]) : r.chance(3, 4) ? MBC[r.below(17)] : BADC[r.below(9)];
               while ((int)s.size() < n) s += u; return s; }
    case 11: n = r.range(2, 5); for (int i = 0; i < n; i++) { if (i) s += "-_.'"[r.below(4)]; int m = r.range(0, 4); for (int j = 0; j < m; j++) s += "abAB19"[r.below(6)]; } return s;
    case 12: n = r.range(0, 300); for (int i = 0; i < n; i++) s += "ab1"[r.below(3)]; s += r.pick(vector<string>{"://", ".a", ".b.c", "'s", "-x", "@a.b", "&b", "/", ".com/x"}); return s;
    default: n = r.range(1, 5); for (int i = 0; i < n; i++) s += (char)r.range(32, 126); return s;
    }
}
static string noise(Rng &r) { string s; int n = r.skew(30); for (int i = 0; i < n; i++) s += noise_piece(r); return s; }

// ---------------------------------------------------------------- running a stream
struct Text { char *p; size_t n; explicit Text(const string &s) : p((char *)malloc(s.size() + 1)), n(s.size()) { memcpy(p, s.c_str(), n + 1); } ~Text() { free(p); } Text(const Text &) = delete; };
static Tok take(FrtToken *t, const Text &x, const char *what) {
    CHECK(t->len >= 0 && t->len <= MAXT, "token-length", "%s: token of length %d", what, t->len);
    CHECK(t->text[t->len] == 0 && (int)strlen(t->text) == t->len, "token-terminated", "%s: token of length %d holds %zu bytes", what, t->len, strnlen(t->text, 255));
    CHECK(t->start >= 0 && t->start <= t->end && t->end <= (off_t)x.n, "token-offsets", "%s: token %s at %ld-%ld of a text of %zu bytes %s", what, esc(t->text, 60).c_str(), (long)t->start, (long)t->end, x.n, esc(x.p, 300).c_str());
    CHECK(t->pos_inc >= 0, "token-position", "%s: position increment %d", what, t->pos_inc);
    count("tokens");
    return Tok{string(t->text, t->len), (long)t->start, (long)t->end, t->pos_inc};
}
static Toks drain(FrtTokenStream *ts, const Text &x, const char *what, int limit = -1) {
    Toks o; FrtToken *t; long last = 0;
    while ((limit < 0 || (int)o.size() < limit) && (t = ts->next(ts))) {
        o.push_back(take(t, x, what));
        CHECK(o.size() <= 2 * x.n + 2, "token-endless", "%s: more tokens than bytes for %s", what, esc(x.p, 200).c_str());
        if (o.back().pos > 0 && false) last = o.back().start;
    }
    (void)last;
    if (limit < 0) CHECK(!ts->next(ts) && !ts->next(ts), "token-after-end", "%s: a token after the end of the stream", what);
    return o;
}

// ---------------------------------------------------------------- tokenizers with a definition
struct Ch { long s, e; wint_t wc; };
static vector<Ch> chars(const string &t) {                       // characters of the locale; undecodable bytes belong to the character after them
    vector<Ch> o; size_t p = 0, s = 0;
    while (p < t.size()) {
        mbstate_t st; memset(&st, 0, sizeof st); wchar_t w; size_t n = mbrtowc(&w, t.c_str() + p, MB_CUR_MAX, &st);
        if (n == (size_t)-1 || n == (size_t)-2) { p++; continue; }
        if (n == 0) break;
        o.push_back(Ch{(long)s, (long)(p + n), (wint_t)w}); p += n; s = p;
    }
    return o;
}
struct Undefined {};
static string lower(const vector<wint_t> &w) {
    string o; for (wint_t c : w) { char b[MB_LEN_MAX]; mbstate_t st; memset(&st, 0, sizeof st); size_t n = wcrtomb(b, towlower(c), &st); if (n == (size_t)-1) throw Undefined(); if (o.size() + n > MAXT) break; o.append(b, n); }
    return o;
}
static bool a_space(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool a_alpha(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool a_alnum(unsigned char c) { return a_alpha(c) || (c >= '0' && c <= '9'); }
static Toks m_ascii(const string &t, bool letter) {
    Toks o; size_t i = 0;
    auto in = [&](size_t k) { return letter ? a_alpha(t[k]) : !a_space(t[k]); };
    while (i < t.size()) { if (!in(i)) { i++; continue; } size_t s = i; while (i < t.size() && in(i)) i++; o.push_back(Tok{t.substr(s, std::min<size_t>(i - s, MAXT)), (long)s, (long)i, 1}); }
    return o;
}
static Toks m_mb(const string &t, bool letter, bool low) {
    Toks o; vector<Ch> c = chars(t); size_t i = 0;
    auto in = [&](size_t k) { return letter ? iswalpha(c[k].wc) : !iswspace(c[k].wc); };
    while (i < c.size()) {
        if (!in(i)) { i++; continue; }
        size_t s = i; vector<wint_t> w; while (i < c.size() && in(i)) w.push_back(c[i++].wc);
        long a = c[s].s, b = c[i - 1].e;
        o.push_back(Tok{low ? lower(w) : t.substr(a, std::min<long>(b - a, MAXT)), a, b, 1});
    }
    return o;
}
enum Base { NON, WS, LET, MBWS, MBWSL, MBLET, MBLETL, STD, MBSTD, UTF, LEG, MBLEG, NBASE };
static const char *BASE[] = {"non", "whitespace", "letter", "mb_whitespace", "mb_whitespace(lower)", "mb_letter", "mb_letter(lower)", "standard", "mb_standard", "utf8_standard", "legacy", "mb_legacy"};
static FrtTokenStream *base_new(int b) {
    switch (b) {
    case NON: return frt_non_tokenizer_new(); case WS: return frt_whitespace_tokenizer_new(); case LET: return frt_letter_tokenizer_new();
    case MBWS: case MBWSL: return frt_mb_whitespace_tokenizer_new(b == MBWSL); case MBLET: case MBLETL: return frt_mb_letter_tokenizer_new(b == MBLETL);
    case STD: return frt_standard_tokenizer_new(); case MBSTD: return frt_mb_standard_tokenizer_new(); case UTF: return frt_utf8_standard_tokenizer_new();
    case LEG: return frt_legacy_standard_tokenizer_new(); default: return frt_mb_legacy_standard_tokenizer_new();
    }
}
static bool base_model(int b, const string &t, Toks &o) {
    if (b == NON) { o = {Tok{t.substr(0, MAXT), 0, (long)t.size(), 1}}; return true; }
    if (b == WS || b == LET) { o = m_ascii(t, b == LET); return true; }
    if (b >= MBWS && b <= MBLETL) { try { o = m_mb(t, b >= MBLET, b == MBWSL || b == MBLETL); return true; } catch (Undefined &) { return false; } }
    return false;
}
// a tokenizer without a full model: one token after the other, each a part of its source
static void check_std(int b, const string &t, const Toks &o) {
    long last = 0; size_t k = 0;
    for (auto &x : o) {
        CHECK(x.start >= last && x.end > x.start, "tokens-order", "%s on %s: token %s at %ld-%ld after one ending at %ld", BASE[b], esc(t, 300).c_str(), esc(x.text, 60).c_str(), x.start, x.end, last);
        CHECK(!x.text.empty() && x.pos == 1, "token-empty", "%s on %s: token %s with position increment %d", BASE[b], esc(t, 300).c_str(), esc(x.text, 60).c_str(), x.pos);
        string src = t.substr(x.start, x.end - x.start); size_t i = 0, j = 0; for (; i < src.size() && j < x.text.size(); i++) if (src[i] == x.text[j]) j++;
        CHECK(j == x.text.size(), "token-source", "%s on %s: token %s is not made of its source %s", BASE[b], esc(t, 300).c_str(), esc(x.text, 300).c_str(), esc(src, 300).c_str());
        last = x.end; k++;
    }
    // no ASCII letter or digit is left out (undecodable bytes may take what follows them along)
    bool ascii = true; for (unsigned char c : t) if (c >= 128) ascii = false;
    if (ascii) { size_t x = 0; for (size_t i = 0; i < t.size(); i++) if (a_alnum(t[i])) { while (x < o.size() && o[x].end <= (long)i) x++; CHECK(x < o.size() && o[x].start <= (long)i, "token-missed", "%s on %s: no token for '%c' at %zu: %s", BASE[b], esc(t, 300).c_str(), t[i], i, ts_s(o).c_str()); } }
}

// ---------------------------------------------------------------- filters with a definition
static vector<string> english() { vector<string> w; for (const char **p = FRT_FULL_ENGLISH_STOP_WORDS; *p; p++) w.push_back(*p); return w; }
struct Filt { bool dflt = false; int k; vector<string> words; vector<pair<string, string>> maps; };
static const char *FILT[] = {"lower", "mb_lower", "stop", "hyphen", "map", "stem"};
static Filt rand_filt(Rng &r) {
    Filt f; f.k = r.below(6);
    if (f.k == 2 && r.chance(1, 5)) { f.dflt = true; f.words = english(); }
    else if (f.k == 2) { int n = r.range(0, 6); static const char *w[] = {"a", "ab", "b", "the", "x", "e", "A", "s", "c", "abc", "T", "\xc3\xa9", "and"}; for (int i = 0; i < n; i++) f.words.push_back(w[r.below(13)]); }
    if (f.k == 4) { static const char *from[] = {"b", "-", "x", "9", "Z", "."}; static const char *to[] = {"", "B", "yy", "a-b", "\xc3\x9f\xc3\x9f", "0123456789"};
                    for (int i = 0; i < 6; i++) if (r.chance(1, 3)) f.maps.push_back({from[i], to[r.below(6)]}); if (f.maps.empty()) f.maps.push_back({"b", "cc"});
                    static const char *pat[] = {"ab", "bc", "abc", "aa", "ba", "cab", "the", "he", "\xc3\xa9", "a-", "xx", "caba"};
                    for (int i = r.chance(1, 2) ? r.range(1, 5) : 0; i > 0; i--) { string p = pat[r.below(12)]; bool dup = false; for (auto &m : f.maps) if (m.first == p) dup = true; if (!dup) f.maps.push_back({p, r.chance(1, 3) ? pat[r.below(12)] : to[r.below(6)]}); } }
    return f;
}
static FrtTokenStream *mk_filt(const Filt &f, FrtTokenStream *s) {
    switch (f.k) {
    case 0: return frt_lowercase_filter_new(s); case 1: return frt_mb_lowercase_filter_new(s);
    case 2: { if (f.dflt) return frt_stop_filter_new(s); vector<const char *> w; for (auto &x : f.words) w.push_back(x.c_str()); w.push_back(NULL); return f.words.size() & 1 ? frt_stop_filter_new_with_words(s, w.data()) : frt_stop_filter_new_with_words_len(s, w.data(), (int)f.words.size()); }
    case 3: return frt_hyphen_filter_new(s);
    case 4: { FrtTokenStream *t = frt_mapping_filter_new(s); for (auto &m : f.maps) frt_mapping_filter_add(t, m.first.c_str(), m.second.c_str()); return t; }
    default: return frt_stem_filter_new(s, "English", "utf-8");
    }
}
static Toks filt_model(const Filt &f, const Toks &in) {
    Toks o; int carry = 0; struct sb_stemmer *st = f.k == 5 ? sb_stemmer_new("english", "UTF_8") : nullptr;
    for (Tok t : in) switch (f.k) {
    case 0: for (auto &c : t.text) if (c >= 'A' && c <= 'Z') c += 32; o.push_back(t); break;
    case 1: { wchar_t w[300]; size_t n = mbstowcs(w, t.text.c_str(), 299); if (n != (size_t)-1 && n > 0) { try { t.text = lower(vector<wint_t>(w, w + n)); } catch (Undefined &) { t.text = "BAD_DATA"; } } o.push_back(t); break; }
    case 2: if (std::find(f.words.begin(), f.words.end(), t.text) != f.words.end()) { carry += t.pos; break; } t.pos += carry; carry = 0; o.push_back(t); break;
    case 3: {
        bool hy = false, other = false, some = false;
        for (size_t i = 1; i < t.text.size(); i++) { if (t.text[i] == '-') hy = true; else if (!a_alpha(t.text[i])) other = true; }
        for (char c : t.text) if (c != '-') some = true;
        if (!hy || other || !some) { o.push_back(t); break; }
        Tok whole = t; whole.text.clear(); for (char c : t.text) if (c != '-') whole.text += c; o.push_back(whole);
        bool same = t.end - t.start == (long)t.text.size(), first = true; size_t i = 0;
        while (i < t.text.size()) {
            if (t.text[i] == '-') { i++; continue; }
            size_t s = i; while (i < t.text.size() && t.text[i] != '-') i++;
            o.push_back(Tok{t.text.substr(s, i - s), same ? t.start + (long)s : t.start, same ? t.start + (long)i : t.end, first ? 0 : 1}); first = false;
        }
        break; }
    case 4: {
        // the longest pattern that ends here, within the text since the last replacement, is replaced
        string x, cur;
        for (char c : t.text) {
            if (x.size() >= MAXT) break;
            cur += c; const pair<string, string> *best = nullptr;
            for (auto &m : f.maps) if (m.first.size() <= cur.size() && cur.compare(cur.size() - m.first.size(), m.first.size(), m.first) == 0 && (!best || m.first.size() > best->first.size())) best = &m;
            if (best) { x.resize(x.size() + 1 - best->first.size()); x += best->second; if (x.size() > MAXT) x.resize(MAXT); cur.clear(); } else x += c;
        }
        t.text = x; o.push_back(t); break; }
    default: { const unsigned char *p = sb_stemmer_stem(st, (const unsigned char *)t.text.data(), (int)t.text.size()); t.text.assign((const char *)p, std::min(sb_stemmer_length(st), (int)MAXT)); o.push_back(t); }
    }
    if (st) sb_stemmer_delete(st);
    return o;
}
struct TS { FrtTokenStream *t; ~TS() { if (t) frt_ts_deref(t); } };
struct AN { FrtAnalyzer *a; ~AN() { if (a) frt_a_deref(a); } };
static void pick_locale(Rng &r) { const char *l = r.chance(4, 5) ? "C.UTF-8" : "C"; CHECK(setlocale(LC_CTYPE, l), "harness-locale", "no locale %s", l); note("locale %s", l); }
static void same(const Toks &got, const Toks &want, const char *key, const char *what, const string &t) {
    if (got == want) return;
    size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
    Toks g(got.begin() + i, got.begin() + std::min(got.size(), i + 4)), w(want.begin() + i, want.begin() + std::min(want.size(), i + 4));
    fail(key, "%s on %s: token %zu on: got %s, expected %s", what, esc(t, 500).c_str(), i, ts_s(g).c_str(), ts_s(w).c_str());
}

MODE(tokens) {
    pick_locale(rng); int b = rng.below(NBASE); vector<Filt> fs; int nf = rng.below(4); for (int i = 0; i < nf; i++) fs.push_back(rand_filt(rng));
    string name = BASE[b]; for (auto &f : fs) name += string("|") + FILT[f.k]; note("stream %s", name.c_str());
    TS raw{base_new(b)}, st{base_new(b)}; for (auto &f : fs) st.t = mk_filt(f, st.t);
    int rounds = rng.range(1, 6); vector<std::unique_ptr<Text>> keep; size_t total = 0;
    for (int k = 0; k < rounds; k++) {
        string t = noise(rng); sig(t); note("text %s", esc(t, 3000).c_str()); count("texts");
        keep.emplace_back(new Text(t)); Text &x = *keep.back();
        TS fresh{base_new(b)}; fresh.t->reset(fresh.t, x.p); Toks want = drain(fresh.t, x, BASE[b]);
        Toks m; if (base_model(b, t, m)) { same(want, m, "tokenizer", BASE[b], t); count("texts_exact"); }
        if (b >= STD) check_std(b, t, want);
        raw.t->reset(raw.t, x.p); int lim = rng.chance(1, 3) ? rng.below(4) : -1; Toks g0 = drain(raw.t, x, BASE[b], lim);
        if (lim < 0) same(g0, want, "tokenizer-reuse", (string(BASE[b]) + " used before").c_str(), t);
        for (auto &f : fs) want = filt_model(f, want);
        total += want.size();
        st.t->reset(st.t, x.p); Toks got = drain(st.t, x, name.c_str(), lim);
        if (lim >= 0 && (int)want.size() > lim) want.resize(lim);
        same(got, want, "filters", name.c_str(), t);
        if (rng.chance(1, 3)) { FrtTokenStream *c = frt_ts_clone(st.t); if (rng.chance(1, 2)) std::swap(c, st.t); frt_ts_deref(c); count("clones"); }
    }
    {   // tokens are ordered by where they start, where they end and their text, and equal when nothing differs
        auto mk = [&](int &s, int &e, string &w, int &p) { s = rng.below(3); e = s + rng.below(3); w = string(rng.below(3), (char)('a' + rng.below(2))); p = rng.below(2); FrtToken *t = frt_tk_new(); frt_tk_set_no_len(t, (char *)w.c_str(), s, e, p); return t; };
        int s1, e1, p1, s2, e2, p2; string w1, w2; FrtToken *a = mk(s1, e1, w1, p1), *c = mk(s2, e2, w2, p2); int want = s1 != s2 ? (s1 < s2 ? -1 : 1) : e1 != e2 ? (e1 < e2 ? -1 : 1) : w1 < w2 ? -1 : w1 > w2; int got = frt_tk_cmp(a, c); bool eq = frt_tk_eq(a, c);
        frt_tk_destroy(a); frt_tk_destroy(c);
        CHECK((got > 0) - (got < 0) == want, "token-cmp", "token %s at %d-%d compared with %s at %d-%d gives %d", w1.c_str(), s1, e1, w2.c_str(), s2, e2, got);
        CHECK(eq == (!want && p1 == p2), "token-eq", "token %s at %d-%d+%d and %s at %d-%d+%d are %s", w1.c_str(), s1, e1, p1, w2.c_str(), s2, e2, p2, eq ? "equal" : "different");
    }
    if (total > 1) nontrivial();
    sample(R.trace.empty() ? "" : R.trace.back());
}

// ---------------------------------------------------------------- analyzers: composition, fields, interleaved streams
MODE(analyzers) {
    pick_locale(rng); static const char *NAME[] = {"non", "whitespace", "mb_whitespace", "letter", "mb_letter", "standard", "mb_standard", "utf8_standard", "legacy_standard", "mb_legacy_standard"};
    struct A1 { AN a; int kind; bool low; vector<string> words; };
    auto make = [&](A1 &x) {
        x.kind = rng.below(10); x.low = rng.chance(1, 2); bool own = rng.chance(1, 2); if (x.kind >= 5) { if (own) x.words = {"a", "b", "the", "x"}; else x.words = english(); }
        vector<const char *> w; for (auto &s : x.words) w.push_back(s.c_str()); bool bylen = rng.chance(1, 2); w.push_back(bylen ? "zz" : NULL); int n = (int)x.words.size();   // counted words end before the last
        switch (x.kind) {
        case 0: x.a.a = frt_non_analyzer_new(); break; case 1: x.a.a = frt_whitespace_analyzer_new(x.low); break; case 2: x.a.a = frt_mb_whitespace_analyzer_new(x.low); break;
        case 3: x.a.a = frt_letter_analyzer_new(x.low); break; case 4: x.a.a = frt_mb_letter_analyzer_new(x.low); break;
        case 5: x.a.a = own ? bylen ? frt_standard_analyzer_new_with_words_len(w.data(), n, x.low) : frt_standard_analyzer_new_with_words(w.data(), x.low) : frt_standard_analyzer_new(x.low); break;
        case 6: x.a.a = own ? bylen ? frt_mb_standard_analyzer_new_with_words_len(w.data(), n, x.low) : frt_mb_standard_analyzer_new_with_words(w.data(), x.low) : frt_mb_standard_analyzer_new(x.low); break;
        case 7: x.a.a = own ? bylen ? frt_utf8_standard_analyzer_new_with_words_len(w.data(), n, x.low) : frt_utf8_standard_analyzer_new_with_words(w.data(), x.low) : frt_utf8_standard_analyzer_new(x.low); break;
        case 8: x.a.a = own ? bylen ? frt_legacy_standard_analyzer_new_with_words_len(w.data(), n, x.low) : frt_legacy_standard_analyzer_new_with_words(w.data(), x.low) : frt_legacy_standard_analyzer_new(x.low); break;
        default: x.a.a = own ? bylen ? frt_mb_legacy_standard_analyzer_new_with_words_len(w.data(), n, x.low) : frt_mb_legacy_standard_analyzer_new_with_words(w.data(), x.low) : frt_mb_legacy_standard_analyzer_new(x.low);
        }
    };
    auto expect = [&](A1 &x, const Text &t) {
        static const int B[] = {NON, WS, MBWS, LET, MBLET, STD, MBSTD, UTF, LEG, MBLEG}; int b = B[x.kind];
        if (x.low && (b == MBWS || b == MBLET)) b++;
        TS s{base_new(b)}; s.t->reset(s.t, t.p); Toks o = drain(s.t, t, BASE[b]);
        if (x.low && x.kind && x.kind != 2 && x.kind != 4) { Filt f; f.k = x.kind == 6 || x.kind == 7 || x.kind == 9; o = filt_model(f, o); }
        if (x.kind >= 5) { Filt f; f.k = 2; f.words = x.words; o = filt_model(f, o); f.k = 3; o = filt_model(f, o); }
        return o;
    };
    int na = rng.range(1, 3); vector<A1> as(na); for (auto &x : as) make(x);
    AN pfa{nullptr}; if (rng.chance(1, 2)) {
        FRT_REF(as[0].a.a); pfa.a = frt_per_field_analyzer_new(as[0].a.a);
        for (int i = 1; i < na; i++) { FRT_REF(as[i].a.a); frt_pfa_add_field(pfa.a, frt_intern(fmt("f%d", i).c_str()), as[i].a.a); }
    }
    // several streams, open at the same time, advanced in random order
    struct Run { std::unique_ptr<Text> t; Toks want, got; TS s; string name; bool done = false; };
    vector<std::unique_ptr<Run>> runs; int n = rng.range(1, 5); size_t total = 0;
    for (int i = 0; i < n; i++) {
        auto r = std::make_unique<Run>(); int k = rng.below(na); string t = noise(rng); sig(t); sig(k); r->t.reset(new Text(t)); r->want = expect(as[k], *r->t); total += r->want.size();
        r->name = fmt("%s analyzer%s", NAME[as[k].kind], as[k].low ? " (lower)" : ""); note("%s on %s", r->name.c_str(), esc(t, 1000).c_str());
        string fld = fmt("f%d", k ? k : (int)rng.below(1) * 9);
        r->s.t = pfa.a ? pfa.a->get_ts(pfa.a, frt_intern(fld.c_str()), r->t->p) : as[k].a.a->get_ts(as[k].a.a, frt_intern("f"), r->t->p);
        runs.push_back(std::move(r)); count("texts");
    }
    if (rng.chance(1, 4)) { for (auto &x : as) { FrtAnalyzer *a = x.a.a; x.a.a = nullptr; frt_a_deref(a); } if (pfa.a) { FrtAnalyzer *a = pfa.a; pfa.a = nullptr; frt_a_deref(a); } count("analyzers_closed_early"); }
    for (int open = n; open > 0;) {
        auto &r = *runs[rng.below(n)]; if (r.done) continue;
        for (int m = rng.range(1, 6); m-- && !r.done;) { FrtToken *t = r.s.t->next(r.s.t); if (!t) { r.done = true; open--; } else r.got.push_back(take(t, *r.t, r.name.c_str())); CHECK(r.got.size() <= 2 * r.t->n + 2, "token-endless", "%s: more tokens than bytes", r.name.c_str()); }
    }
    for (auto &r : runs) same(r->got, r->want, "analyzer", r->name.c_str(), r->t->p);
    if (total > 1) nontrivial();
}

// ---------------------------------------------------------------- the standard tokenizers on what they are documented to recognise
MODE(standard) {
    CHECK(setlocale(LC_CTYPE, "C.UTF-8"), "harness-locale", "no C.UTF-8");
    int b = rng.range(STD, MBLEG); bool uni = b == MBSTD || b == UTF || b == MBLEG, leg = b >= LEG; string t; Toks want;
    auto letter = [&](bool any) -> string { static const char *U[] = {"\xc3\xa9", "\xd0\xb6", "\xc3\xbc", "\xc3\x89"}; if (any && uni && rng.chance(1, 8)) return U[rng.below(4)]; return string(1, "abcdefgxyzABZ"[rng.below(13)]); };
    auto word = [&](int lo, int hi, bool any = true) { string s; int n = rng.range(lo, hi); for (int i = 0; i < n; i++) s += letter(any); return s; };
    auto alnum = [&](int lo, int hi) { string s = word(1, 1, false); int n = rng.range(lo, hi) - 1; for (int i = 0; i < n; i++) s += "abcXYZ0189"[rng.below(10)]; return s; };
    auto num = [&] { string s; int n = rng.range(1, 6); for (int i = 0; i < n; i++) s += "0123456789"[rng.below(10)]; return s; };
    auto host = [&] { string s = alnum(3, 8); int n = rng.range(0, 2); for (int i = 0; i < n; i++) s += "." + alnum(2, 6); static const char *d[] = {".com", ".org", ".net", ".de", ".info"}; return s + d[rng.below(5)]; };
    int n = rng.range(1, 40);
    for (int i = 0; i < n; i++) {
        if (rng.chance(1, 60)) { int m = rng.range(1, 5000); for (int j = 0; j < m; j++) t += " ;"[rng.below(2)]; t += " "; }
        string s, x; int head = 0, tail = 0;
        switch (rng.below(15)) {
        case 0: case 1: s = x = word(1, 9); break;
        case 2: s = x = alnum(2, 9); break;
        case 3: x = word(2, rng.chance(1, 30) ? 240 : 8, false); s = x + (rng.chance(1, 2) ? "'s" : "'S"); break;
        case 4: x = word(2, rng.chance(1, 30) ? 240 : 8, false); s = x + "'"; break;
        case 5: { string r = word(2, 6, false); s = x = word(1, 4, false) + "'" + r; break; }
        case 6: s = x = alnum(1, 5) + "-" + alnum(1, 5) + (rng.chance(1, 3) ? "_" + alnum(1, 4) : ""); break;
        case 7: s = x = num(); break;
        case 8: s = x = (rng.chance(1, 2) ? "" : "-") + num() + (rng.chance(1, 2) ? "" : "." + num()); break;
        case 9: { int m = rng.chance(1, 10) ? rng.range(20, 120) : rng.range(2, 6); for (int j = 0; j < m; j++) { string l = word(1, 1, false); x += l; s += (j ? "." : "") + l; } if (rng.chance(1, 2)) { s += "."; tail = 1; } break; }
        case 10: s = x = word(1, rng.chance(1, 30) ? 120 : 5, false) + "&" + word(1, 5, false); break;
        case 11: s = x = alnum(2, 6) + "@" + host(); break;
        case 12: { static const char *p[] = {"http://", "https://", "ftp://", "file://"}; string h = p[rng.below(4)]; x = host(); if (rng.chance(1, 2)) x += "/" + alnum(1, 6) + (rng.chance(1, 2) ? "/" + alnum(1, 9) : ""); s = h + x; if (rng.chance(1, 3)) s += "/"; break; }
        case 13: s = x = "svn://" + host() + (rng.chance(1, 2) ? "/" + alnum(1, 9) : ""); break;
        case 14: { int m = rng.range(1, 3); for (int j = 0; j < m; j++) s += "!#$%*()=;?"[rng.below(10)]; break; }
        }
        if (!x.empty()) { if (rng.chance(1, 25) && s == x && a_alpha(s[0]) && x.find_first_not_of("abcdefgxyzABZ") == string::npos) { while (s.size() < 400) s += x; x = s; }
            long p = (long)t.size() + head; want.push_back(Tok{x.substr(0, MAXT), p, p + (long)s.size() - tail, 1}); }
        t += s; t += rng.chance(1, 10) ? "\n\t" : " ";
    }
    (void)leg; sig(t); sig(b); note("%s on %s", BASE[b], esc(t, 4000).c_str()); count("texts");
    Text tx(t); TS ts{base_new(b)}; ts.t->reset(ts.t, tx.p); Toks got = drain(ts.t, tx, BASE[b]);
    if (leg) for (auto &w : want) if (t[w.end - 1] == '/') for (auto &g : got) if (g.start == w.start && g.end == w.end - 1) w.end--;   // a final slash is not part of the source there
    same(got, want, "standard", BASE[b], t);
    if (want.size() > 1) nontrivial();
}

// stems of the published algorithm
MODE(stems) {
    static const char *W[][2] = {{"running", "run"}, {"ponies", "poni"}, {"caresses", "caress"}, {"relational", "relat"}, {"generously", "generous"}, {"knots", "knot"}, {"flies", "fli"}, {"agreed", "agre"}, {"hopping", "hop"}, {"happy", "happi"}, {"nationally", "nation"}, {"communism", "communism"}, {"arguing", "argu"}, {"debate", "debat"}};
    string t; Toks want; int n = rng.range(1, 20);
    for (int i = 0; i < n; i++) { int k = rng.below(14); want.push_back(Tok{W[k][1], (long)t.size(), (long)(t.size() + strlen(W[k][0])), 1}); t += W[k][0]; t += " "; }
    TS ts{frt_stem_filter_new(frt_whitespace_tokenizer_new(), "english", rng.chance(1, 2) ? "UTF-8" : NULL)}; Text tx(t); sig(t); note("%s", t.c_str());
    if (rng.chance(1, 2)) { FrtTokenStream *c = frt_ts_clone(ts.t); std::swap(c, ts.t); frt_ts_deref(c); }
    ts.t->reset(ts.t, tx.p); same(drain(ts.t, tx, "stem"), want, "stem", "stem filter", t); nontrivial();
}
