// Containers against std:: models (C22), byte float encoding (C27), exceptions (C28).
#include "common.h"
#include <unordered_map>

// ---------------------------------------------------------------- ownership ledger
static std::unordered_map<void *, int> ledger; // pointer -> times the container freed it
static vector<void *> ledger_mem;
static string ledger_err;
static void ledger_reset() {
    for (void *p : ledger_mem) free(p);
    ledger_mem.clear(); ledger.clear(); ledger_err.clear();
}
static void *ledger_alloc(const string &s) {
    char *p = (char *)malloc(s.size() + 1);
    memcpy(p, s.c_str(), s.size() + 1);
    ledger[p] = 0; ledger_mem.push_back(p);
    return p;
}
extern "C" void ledger_free(void *p) {
    auto it = ledger.find(p);
    if (it == ledger.end()) ledger_err = "destructor called on a pointer that was never given";
    else if (++it->second > 1) ledger_err = "destructor called twice on one element";
}
#define LEDGER_OK() CHECK(ledger_err.empty(), "ownership", "%s", ledger_err.c_str())
#define FREED(p) (ledger[(void *)(p)])

static string rand_key(Rng &rng, int universe) {
    int k = rng.below(universe);
    if (k == 0) return "";
    string s = fmt("k%d", k);
    if (k % 7 == 0) s += string(k % 40, 'x');
    if (k % 11 == 0) s = fmt("\xc3\xa9%d", k);
    return s;
}

extern "C" unsigned long weak_hash(const void *p) { return strlen((const char *)p) & 3; }
extern "C" unsigned long const_hash(const void *p) { (void)p; return 42; }
extern "C" unsigned long high_hash(const void *p) { return frt_str_hash((const char *)p) << 40; }
extern "C" int streq(const void *a, const void *b) { return strcmp((const char *)a, (const char *)b) == 0; }

struct EachCtx { std::multiset<pair<string, void *>> seen; bool is_int; };
extern "C" void each_cb(void *k, void *v, void *arg) {
    EachCtx *c = (EachCtx *)arg;
    c->seen.insert({c->is_int ? "" : string((char *)k), v});
}
static void *clone_key(void *p) { return ledger_alloc((char *)p); }
static void *clone_val(void *p) { return ledger_alloc((char *)p); }

MODE(hash) {
    ledger_reset();
    int variant = rng.below(6); // 0,1: str  2: weak  3: const  4: int  5: high
    bool is_int = variant == 4;
    FrtHash *h = is_int ? frt_h_new_int(ledger_free)
               : variant == 2 ? frt_h_new(weak_hash, streq, ledger_free, ledger_free)
               : variant == 3 ? frt_h_new(const_hash, streq, ledger_free, ledger_free)
               : variant == 5 ? frt_h_new(high_hash, streq, ledger_free, ledger_free)
                              : frt_h_new_str(ledger_free, ledger_free);
    map<string, pair<char *, char *>> m;      // key text -> (key ptr, value ptr)
    map<unsigned long, char *> mi;
    int universe = rng.pick(vector<int>{3, 8, 12, 40, 300, 2000});
    if (variant == 2 || variant == 3) universe = std::min(universe, 60);
    int nops = rng.range(10, universe >= 300 ? 1500 : 400);
    unsigned long stride = rng.pick(vector<unsigned long>{1, 8, 64, 1ul << 33, 0x9E3779B97F4A7C15ul});
    bool readded = false, grew = false;
    set<string> removed; int vn = 0;
    note("hash variant %d universe %d ops %d", variant, universe, nops);
    for (int i = 0; i < nops; i++) {
        string ks = rand_key(rng, universe);
        unsigned long ki = rng.below(universe) * stride;
        string id = is_int ? fmt("%lu", ki) : ks;
        bool there = is_int ? mi.count(ki) : m.count(ks);
        char *oldk = !is_int && there ? m[ks].first : nullptr;
        char *oldv = there ? (is_int ? mi[ki] : m[ks].second) : nullptr;
        int op = rng.below(100);
        sig(op / 10 * 131 + fnv(id) % 1000003);
        if (op < 35) { // set
            char *v = (char *)ledger_alloc(fmt("v%d", vn++));
            if (is_int) {
                int r = frt_h_set_int(h, ki, v);
                CHECK((r != 0) == there, "hash-set", "set_int(%lu) status %d, present %d", ki, r, there);
                if (there) CHECK(FREED(oldv) == 1, "ownership", "replaced value freed %d times", FREED(oldv));
                mi[ki] = v;
            } else {
                bool same = there && rng.chance(1, 4);
                char *k = same ? oldk : (char *)ledger_alloc(ks);
                if (same && rng.chance(1, 3)) { FREED(v) = 1; v = oldv; }
                FrtHashKeyStatus r = frt_h_set(h, k, v);
                FrtHashKeyStatus want = !there ? FRT_HASH_KEY_DOES_NOT_EXIST : same ? FRT_HASH_KEY_SAME : FRT_HASH_KEY_EQUAL;
                CHECK(r == want, "hash-set", "set(%s) status %d want %d", esc(ks).c_str(), r, want);
                if (there && v != oldv) CHECK(FREED(oldv) == 1, "ownership", "replaced value freed %d times", FREED(oldv));
                if (there && !same) CHECK(FREED(oldk) == 1, "ownership", "replaced key freed %d times", FREED(oldk));
                m[ks] = {k, v};
            }
            if (removed.count(id)) readded = true;
        } else if (op < 45) { // set_safe
            char *v = (char *)ledger_alloc("s");
            if (is_int) { int r = frt_h_set_safe_int(h, ki, v); CHECK(!!r == !there, "hash-set-safe", "set_safe_int %d", r); if (!there) mi[ki] = v; else FREED(v) = 1; }
            else {
                char *k = (char *)ledger_alloc(ks);
                int r = frt_h_set_safe(h, k, v);
                CHECK(!!r == !there, "hash-set-safe", "set_safe(%s) %d present %d", ks.c_str(), r, there);
                if (!there) m[ks] = {k, v}; else { FREED(k) = 1; FREED(v) = 1; }
            }
        } else if (op < 60) { // del
            int r = is_int ? frt_h_del_int(h, ki) : frt_h_del(h, ks.c_str());
            CHECK(!!r == there, "hash-del", "del(%s) %d present %d", id.c_str(), r, there);
            if (there) {
                CHECK(FREED(oldv) == 1, "ownership", "deleted value freed %d times", FREED(oldv));
                if (!is_int) { CHECK(FREED(oldk) == 1, "ownership", "deleted key freed %d times", FREED(oldk)); m.erase(ks); }
                else mi.erase(ki);
                removed.insert(id);
            }
        } else if (op < 70) { // rem
            bool dk = rng.chance(1, 2);
            void *r = is_int ? frt_h_rem_int(h, ki) : frt_h_rem(h, ks.c_str(), dk);
            CHECK(r == (void *)oldv, "hash-rem", "rem(%s) wrong value", id.c_str());
            if (there) {
                CHECK(FREED(oldv) == 0, "ownership", "rem freed the value");
                FREED(oldv) = 1;
                if (!is_int) { CHECK(FREED(oldk) == (dk ? 1 : 0), "ownership", "rem(del_key=%d) freed key %d times", dk, FREED(oldk)); FREED(oldk) = 1; m.erase(ks); }
                else mi.erase(ki);
                removed.insert(id);
            }
        } else if (op < 85) { // get / has
            void *g = is_int ? frt_h_get_int(h, ki) : frt_h_get(h, ks.c_str());
            CHECK(g == (void *)oldv, "hash-get", "get(%s) returned %s", id.c_str(), g ? "another value" : "nothing");
            int hk = is_int ? frt_h_has_key_int(h, ki) : (int)frt_h_has_key(h, ks.c_str());
            CHECK(!!hk == there, "hash-has", "has_key(%s) %d present %d", id.c_str(), hk, there);
            if (!is_int && there) CHECK(frt_h_has_key(h, oldk) == FRT_HASH_KEY_SAME, "hash-has", "has_key(same pointer) is not SAME");
        } else if (op < 87 && rng.chance(1, 3)) { // clear
            frt_h_clear(h);
            for (auto &e : m) { CHECK(FREED(e.second.first) == 1 && FREED(e.second.second) == 1, "ownership", "clear freed %d/%d", FREED(e.second.first), FREED(e.second.second)); }
            for (auto &e : mi) CHECK(FREED(e.second) == 1, "ownership", "clear freed %d", FREED(e.second));
            m.clear(); mi.clear();
        } else if (op < 92 && !is_int) { // clone
            FrtHash *c = frt_h_clone(h, clone_key, clone_val);
            CHECK(c->size == (int)m.size(), "hash-clone", "clone size %d want %zu", c->size, m.size());
            for (auto &e : m) {
                char *v = (char *)frt_h_get(c, e.first.c_str());
                CHECK(v && strcmp(v, e.second.second) == 0 && v != e.second.second, "hash-clone", "clone misses %s", e.first.c_str());
            }
            frt_h_destroy(c);
        } else { // each
            EachCtx c; c.is_int = is_int;
            frt_h_each(h, each_cb, &c);
            std::multiset<pair<string, void *>> want;
            for (auto &e : m) want.insert({e.first, e.second.second});
            for (auto &e : mi) want.insert({"", e.second});
            CHECK(c.seen == want, "hash-each", "each visited %zu entries, want %zu", c.seen.size(), want.size());
        }
        LEDGER_OK();
        CHECK(h->size == (int)(is_int ? mi.size() : m.size()), "hash-size", "size %d want %zu", h->size, is_int ? mi.size() : m.size());
        if (h->size > 8) grew = true;
    }
    for (auto &e : m) CHECK(frt_h_get(h, e.first.c_str()) == e.second.second, "hash-get", "final get(%s)", e.first.c_str());
    for (auto &e : mi) CHECK(frt_h_get_int(h, e.first) == e.second, "hash-get", "final get(%lu)", e.first);
    frt_h_destroy(h);
    LEDGER_OK();
    for (auto &e : ledger) CHECK(e.second == 1, "ownership", "element '%s' was freed %d times over its life", (char *)e.first, e.second);
    count("hash.ops", nops);
    nontrivial(grew || readded);
    sample(fmt("hash variant %d, %d operations over %d keys, %zu left", variant, nops, universe, m.size() + mi.size()));
}

MODE(hashset) {
    ledger_reset();
    bool is_ptr = rng.chance(1, 4);
    auto mk = [&]() { return is_ptr ? frt_hs_new_ptr(ledger_free) : frt_hs_new_str(ledger_free); };
    FrtHashSet *hs = mk();
    vector<char *> order; // model: insertion order
    int universe = rng.pick(vector<int>{2, 5, 20, 200});
    int nops = rng.range(10, 400);
    vector<char *> pool;
    if (is_ptr) for (int i = 0; i < universe; i++) pool.push_back((char *)ledger_alloc(fmt("p%d", i)));
    auto find = [&](const char *k) -> int {
        for (size_t i = 0; i < order.size(); i++) if (is_ptr ? order[i] == k : strcmp(order[i], k) == 0) return (int)i;
        return -1;
    };
    bool readd = false; set<string> removed;
    for (int i = 0; i < nops; i++) {
        string ks = rand_key(rng, universe);
        int op = rng.below(100);
        sig(op / 10 * 31 + fnv(ks) % 65537);
        char *probe;
        string tmp = ks;
        probe = is_ptr ? pool[rng.below(universe)] : (char *)tmp.c_str();
        int at = find(probe);
        if (is_ptr && FREED(probe)) continue; // gone for good
        if (op < 40) {
            char *e = is_ptr ? probe : (char *)ledger_alloc(ks);
            if (at >= 0 && !is_ptr && rng.chance(1, 4)) { FREED(e) = 1; e = order[at]; }
            FrtHashKeyStatus r = frt_hs_add(hs, e);
            if (at < 0) { CHECK(r == FRT_HASH_KEY_DOES_NOT_EXIST, "hs-add", "add new returned %d", r); order.push_back(e); if (removed.count(ks)) readd = true; }
            else if (e == order[at]) { CHECK(is_ptr ? r != 0 : r == FRT_HASH_KEY_SAME, "hs-add", "add same returned %d", r); CHECK(is_ptr || FREED(e) == 0, "ownership", "add same freed it"); }
            else { CHECK(r == FRT_HASH_KEY_EQUAL, "hs-add", "add equal returned %d", r); CHECK(FREED(e) == 1, "ownership", "equal element freed %d times", FREED(e)); }
        } else if (op < 50) {
            char *e = is_ptr ? probe : (char *)ledger_alloc(ks);
            int r = frt_hs_add_safe(hs, e);
            if (at < 0) { CHECK(r, "hs-add-safe", "refused a new element"); order.push_back(e); }
            else if (!is_ptr) { CHECK(!r, "hs-add-safe", "accepted an equal element"); CHECK(FREED(e) == 0, "ownership", "add_safe freed its argument"); FREED(e) = 1; }
        } else if (op < 65) {
            char *old = at >= 0 ? order[at] : nullptr;
            int r = frt_hs_del(hs, probe);
            CHECK(!!r == (at >= 0), "hs-del", "del returned %d, present %d", r, at >= 0);
            if (old) { CHECK(FREED(old) == 1, "ownership", "del freed %d times", FREED(old)); order.erase(order.begin() + at); removed.insert(ks); }
        } else if (op < 75) {
            char *old = at >= 0 ? order[at] : nullptr;
            void *r = frt_hs_rem(hs, probe);
            CHECK(r == (void *)old, "hs-rem", "rem returned the wrong element");
            if (old) { CHECK(FREED(old) == 0, "ownership", "rem freed the element"); order.erase(order.begin() + at); if (!is_ptr) FREED(old) = 1; removed.insert(ks); }
        } else if (op < 90) {
            CHECK((frt_hs_exists(hs, probe) != 0) == (at >= 0), "hs-exists", "exists(%s) wrong", ks.c_str());
            void *o = frt_hs_orig(hs, probe);
            CHECK(o == (at >= 0 ? (void *)order[at] : nullptr), "hs-orig", "orig wrong");
        } else if (op < 96 && !is_ptr) {
            FrtHashSet *o = mk();
            vector<char *> oo;
            int k = rng.below(12);
            for (int j = 0; j < k; j++) {
                string s = rand_key(rng, universe);
                bool dup = false;
                for (char *c : oo) if (s == c) dup = true;
                if (dup) continue;
                char *e = (char *)ledger_alloc(s);
                frt_hs_add(o, e); oo.push_back(e);
            }
            FrtHashSet *r = frt_hs_merge(hs, o);
            CHECK(r == hs, "hs-merge", "merge returned another set");
            for (char *e : oo) {
                if (find(e) < 0) { CHECK(FREED(e) == 0, "ownership", "merge freed an added element"); order.push_back(e); }
                else CHECK(FREED(e) == 1, "ownership", "merge freed a duplicate %d times", FREED(e));
            }
        } else if (rng.chance(1, 6) && !is_ptr) {
            frt_hs_clear(hs);
            for (char *e : order) CHECK(FREED(e) == 1, "ownership", "clear freed %d times", FREED(e));
            order.clear();
        }
        LEDGER_OK();
        CHECK(hs->size == (int)order.size(), "hs-size", "size %d want %zu", hs->size, order.size());
        size_t n = 0; FrtHashSetEntry *prev = nullptr;
        for (FrtHashSetEntry *e = hs->first; e; prev = e, e = e->next, n++) {
            CHECK(n < order.size() && e->elem == order[n], "hs-order", "iteration order differs at %zu", n);
            CHECK(e->prev == prev, "hs-order", "broken back link at %zu", n);
        }
        CHECK(n == order.size() && hs->last == prev, "hs-order", "iteration gives %zu of %zu elements", n, order.size());
    }
    bool keep = rng.chance(1, 4);
    if (keep) { frt_hs_free(hs); for (char *e : order) { CHECK(FREED(e) == 0, "ownership", "hs_free freed an element"); } }
    else { frt_hs_destroy(hs); for (char *e : order) CHECK(FREED(e) == 1, "ownership", "destroy freed %d times", FREED(e)); }
    LEDGER_OK();
    count("hashset.ops", nops);
    nontrivial(order.size() > 4 || readd);
    sample(fmt("hashset ptr=%d, %d operations over %d elements, %zu left", is_ptr, nops, universe, order.size()));
}

// ---------------------------------------------------------------- bit vector
struct BVM { set<int> flips; bool ones = false;   // bit value = ones ^ flips.count
    bool get(int b) const { return ones ^ (flips.count(b) > 0); }
    void set(int b, bool v) { if (v == ones) flips.erase(b); else flips.insert(b); } };
static void bv_compare(FrtBitVector *bv, const BVM &m, int maxbit, Rng &rng, const char *what) {
    for (int b = 0; b <= maxbit + 70; b++) CHECK((frt_bv_get(bv, b) != 0) == m.get(b), "bv-get", "%s: bit %d is %d (size %d capa %d)", what, b, frt_bv_get(bv, b), bv->size, bv->capa);
    if (!m.ones) {
        CHECK(bv->count == (int)m.flips.size(), "bv-count", "%s: count %d want %zu", what, bv->count, m.flips.size());
        // full scan
        frt_bv_scan_reset(bv);
        vector<int> got; int b;
        while ((b = frt_bv_scan_next(bv)) >= 0) { got.push_back(b); if (got.size() > m.flips.size() + 5) break; }
        CHECK(got == vector<int>(m.flips.begin(), m.flips.end()), "bv-scan", "%s: scan gives %zu bits want %zu", what, got.size(), m.flips.size());
        int from = rng.below(maxbit + 40);
        auto it = m.flips.lower_bound(from);
        b = frt_bv_scan_next_from(bv, from);
        CHECK(b == (it == m.flips.end() ? -1 : *it), "bv-scan", "%s: scan_next_from(%d) = %d", what, from, b);
    } else {
        CHECK(bv->count == (int)m.flips.size(), "bv-count", "%s: a negated vector counts %d unset bits, want %zu", what, bv->count, m.flips.size());
        frt_bv_scan_reset(bv);
        vector<int> got; int b;
        while ((b = frt_bv_scan_next_unset(bv)) >= 0) { got.push_back(b); if (got.size() > m.flips.size() + 5) break; }
        CHECK(got == vector<int>(m.flips.begin(), m.flips.end()), "bv-scan-unset", "%s: unset scan gives %zu bits want %zu", what, got.size(), m.flips.size());
    }
}
MODE(bitvector) {
    const int N = 3;
    FrtBitVector *bv[N]; BVM m[N];
    int maxbit = rng.pick(vector<int>{31, 32, 63, 127, 128, 255, 256, 300, 700, 1024});
    for (int i = 0; i < N; i++) bv[i] = rng.chance(1, 2) ? frt_bv_new() : frt_bv_new_capa(rng.below(maxbit + 1));
    int nops = rng.range(5, 150);
    bool bulk = false, difflen = false;
    auto clean = [&]() { for (int i = 0; i < N; i++) frt_bv_destroy(bv[i]); };
    for (int i = 0; i < nops; i++) {
        int a = rng.below(N), b = rng.below(N), c = rng.below(N);
        int bit = rng.chance(1, 4) ? (rng.range(0, maxbit) | 31) : rng.range(0, maxbit);
        if (bit > maxbit) bit = maxbit;
        int op = rng.below(100);
        sig(op / 5 * 100003 + bit * 7 + a);
        if (op < 45) { frt_bv_set(bv[a], bit); m[a].set(bit, true); note("set %d %d", a, bit); }
        else if (op < 60) { frt_bv_unset(bv[a], bit); m[a].set(bit, false); note("unset %d %d", a, bit); }
        else if (op < 63) { frt_bv_clear(bv[a]); m[a] = BVM(); note("clear %d", a); }
        else if (op < 75) {
            BVM r; r.ones = false;
            int k = rng.below(3);
            if (k == 0) r.ones = m[a].ones && m[b].ones; else if (k == 1) r.ones = m[a].ones || m[b].ones; else r.ones = m[a].ones ^ m[b].ones;
            for (int x = 0; x <= maxbit + 1; x++) { bool va = m[a].get(x), vb = m[b].get(x); r.set(x, k == 0 ? va && vb : k == 1 ? va || vb : va ^ vb); }
            if (bv[a]->size != bv[b]->size) difflen = true;
            FrtBitVector *n = k == 0 ? frt_bv_and(bv[a], bv[b]) : k == 1 ? frt_bv_or(bv[a], bv[b]) : frt_bv_xor(bv[a], bv[b]);
            note("%d = %s %d %d", c, k == 0 ? "and" : k == 1 ? "or" : "xor", a, b);
            frt_bv_destroy(bv[c]); bv[c] = n; m[c] = r; bulk = true;
            a = c;
        } else if (op < 84) {
            BVM r; int k = rng.below(3);
            if (k == 0) r.ones = m[a].ones && m[b].ones; else if (k == 1) r.ones = m[a].ones || m[b].ones; else r.ones = m[a].ones ^ m[b].ones;
            for (int x = 0; x <= maxbit + 1; x++) { bool va = m[a].get(x), vb = m[b].get(x); r.set(x, k == 0 ? va && vb : k == 1 ? va || vb : va ^ vb); }
            if (bv[a]->size != bv[b]->size) difflen = true;
            note("%d %s= %d", a, k == 0 ? "and" : k == 1 ? "or" : "xor", b);
            if (k == 0) frt_bv_and_x(bv[a], bv[b]); else if (k == 1) frt_bv_or_x(bv[a], bv[b]); else frt_bv_xor_x(bv[a], bv[b]);
            m[a] = r; bulk = true;
        } else if (op < 90) {
            bool x = rng.chance(1, 2);
            note("%s %d", x ? "not_x" : "not", a);
            if (x) frt_bv_not_x(bv[a]); else { FrtBitVector *n = frt_bv_not(bv[a]); frt_bv_destroy(bv[a]); bv[a] = n; }
            m[a].ones = !m[a].ones; bulk = true;
        } else if (op < 95) {
            bool eq = m[a].ones == m[b].ones && m[a].flips == m[b].flips;
            int r = frt_bv_eq(bv[a], bv[b]);
            CHECK(!!r == eq, "bv-eq", "eq(%d,%d)=%d want %d", a, b, r, eq);
            if (eq) CHECK(frt_bv_hash(bv[a]) == frt_bv_hash(bv[b]), "bv-hash", "equal vectors hash differently");
        } else {
            int n = frt_bv_recount(bv[a]);
            CHECK(n == (int)m[a].flips.size(), "bv-count", "recount %d want %zu", n, m[a].flips.size());
        }
        bv_compare(bv[a], m[a], maxbit, rng, fmt("after op %d on %d", i, a).c_str());
    }
    clean();
    count("bitvector.ops", nops);
    nontrivial(bulk && difflen);
    sample(fmt("3 bit vectors up to bit %d, %d operations, bulk=%d", maxbit, nops, bulk));
}

// ---------------------------------------------------------------- priority queue
extern "C" fbool pq_lt(const void *a, const void *b) { return atoi((const char *)a) < atoi((const char *)b); }
MODE(pq) {
    ledger_reset();
    int capa = rng.pick(vector<int>{1, 2, 5, 20, 126, 127, 128, 129, 300});
    FrtPriorityQueue *pq = frt_pq_new(capa, pq_lt, ledger_free);
    std::multiset<int> m; int maxv = rng.pick(vector<int>{3, 50, 100000});
    int nops = rng.range(5, capa * 3 + 60); bool overflowed = false, popped = false;
    for (int i = 0; i < nops; i++) {
        int op = rng.below(100), v = rng.below(maxv);
        sig(op / 10 * 7 + v); note("op %d v %d size %zu", op, v, m.size());
        if (op < 70) {
            char *e = (char *)ledger_alloc(fmt("%d", v));
            FrtPriorityQueueInsertEnum r = frt_pq_insert(pq, e);
            if ((int)m.size() < capa) { CHECK(r == FRT_PQ_ADDED, "pq-insert", "not ADDED below capacity (%d)", r); m.insert(v); }
            else if (*m.begin() < v) { CHECK(r == FRT_PQ_INSERTED, "pq-insert", "not INSERTED (%d)", r); m.erase(m.begin()); m.insert(v); overflowed = true; }
            else { CHECK(r == FRT_PQ_DROPPED, "pq-insert", "not DROPPED (%d)", r); CHECK(FREED(e) == 1, "ownership", "dropped element freed %d times", FREED(e)); overflowed = true; }
        } else if (op < 85) {
            char *e = (char *)frt_pq_pop(pq);
            CHECK((e == nullptr) == m.empty(), "pq-pop", "pop null mismatch");
            if (e) { CHECK(atoi(e) == *m.begin(), "pq-pop", "popped %s, least is %d", e, *m.begin()); CHECK(FREED(e) == 0, "ownership", "pop freed"); FREED(e) = 1; m.erase(m.begin()); popped = true; }
        } else if (op < 90 && m.size()) { // change the top then pq_down
            char *e = (char *)frt_pq_top(pq);
            int nv = *m.begin() + rng.below(maxv);
            char *n = (char *)ledger_alloc(fmt("%d", nv));
            FREED(e) = 1; pq->heap[1] = n; frt_pq_down(pq);
            m.erase(m.begin()); m.insert(nv);
        } else if (op < 94) {
            FrtPriorityQueue *c = frt_pq_clone(pq);
            for (int x : m) { char *e = (char *)frt_pq_pop(c); CHECK(e && atoi(e) == x, "pq-clone", "clone order"); }
            CHECK(c->size == 0, "pq-clone", "clone has extra elements");
            frt_pq_free(c);
        } else if (op < 96 && (int)m.size() < capa) {
            char *e = (char *)ledger_alloc(fmt("%d", v)); frt_pq_push(pq, e); m.insert(v);
        }
        CHECK(pq->size == (int)m.size(), "pq-size", "size %d want %zu", pq->size, m.size());
        char *t = (char *)frt_pq_top(pq);
        CHECK((t == nullptr) == m.empty() && (!t || atoi(t) == *m.begin()), "pq-top", "top is %s want %d", t ? t : "-", m.empty() ? -1 : *m.begin());
        LEDGER_OK();
    }
    if (rng.chance(1, 2)) for (int x : m) { char *e = (char *)frt_pq_pop(pq); CHECK(e && atoi(e) == x, "pq-drain", "drain order"); FREED(e) = 1; }
    frt_pq_destroy(pq);
    LEDGER_OK();
    for (auto &e : ledger) CHECK(e.second == 1, "ownership", "element %s freed %d times", (char *)e.first, e.second);
    count("pq.ops", nops);
    nontrivial(overflowed && popped);
    sample(fmt("priority queue capacity %d, %d operations", capa, nops));
}

// ---------------------------------------------------------------- arrays
MODE(array) {
    ledger_reset();
    void **a = rng.chance(1, 2) ? frt_ary_new() : frt_ary_new_capa(rng.range(1, 20));
    vector<void *> m; int nops = rng.range(5, 300); bool grew = false, mid = false;
    for (int i = 0; i < nops; i++) {
        int op = rng.below(100), idx = rng.range(-(int)m.size() - 2, (int)m.size() + 6);
        void *v = (void *)(uintptr_t)(rng.next() | 1);
        sig(op / 10 * 101 + idx + 10);
        if (op < 35) { frt_ary_push(a, v); m.push_back(v); }
        else if (op < 45 && m.size()) { void *g = frt_ary_pop(a); CHECK(g == m.back(), "ary-pop", "pop"); m.pop_back(); }
        else if (op < 55) { frt_ary_unshift(a, v); m.insert(m.begin(), v); mid = true; }
        else if (op < 65 && m.size()) { void *g = frt_ary_shift(a); CHECK(g == m[0], "ary-shift", "shift"); m.erase(m.begin()); mid = true; }
        else if (op < 75) {
            int code = 0;
            code = guarded([&]() { frt_ary_set(a, idx, v); });
            int k = idx < 0 ? idx + (int)m.size() : idx;
            CHECK((code != 0) == (k < 0), "ary-set", "set(%d) of %zu raised %d", idx, m.size(), code);
            if (k >= 0) { if (k >= (int)m.size()) m.resize(k + 1, nullptr); m[k] = v; }
        } else if (op < 85) {
            void *g = frt_ary_get(a, idx);
            int k = idx < 0 ? idx + (int)m.size() : idx;
            CHECK(g == (k >= 0 && k < (int)m.size() ? m[k] : nullptr), "ary-get", "get(%d)", idx);
        } else if (op < 95) {
            void *g = frt_ary_remove(a, idx);
            bool in = idx >= 0 && idx < (int)m.size();
            CHECK(g == (in ? m[idx] : nullptr), "ary-remove", "remove(%d)", idx);
            if (in) { m.erase(m.begin() + idx); mid = true; }
        } else if (rng.chance(1, 3)) {
            int n = rng.below(40); frt_ary_resize(a, n); if (n + 1 > (int)m.size()) m.resize(n + 1, nullptr);
        }
        CHECK(frt_ary_size(a) == (int)m.size(), "ary-size", "size %d want %zu", frt_ary_size(a), m.size());
        for (size_t k = 0; k < m.size(); k++) CHECK(a[k] == m[k], "ary-content", "element %zu differs after op %d", k, i);
        if (m.size() > 8) grew = true;
    }
    frt_ary_free(a);
    // element destruction, exactly once each
    void **b = frt_ary_new(); int n = rng.below(40);
    for (int i = 0; i < n; i++) frt_ary_push(b, ledger_alloc("e"));
    if (n > 3) { int k = rng.below(n); void *e = b[k]; frt_ary_delete_i(b, k, ledger_free); CHECK(FREED(e) == 1, "ownership", "delete freed %d", FREED(e)); }
    frt_ary_destroy_i(b, ledger_free);
    LEDGER_OK();
    for (auto &e : ledger) CHECK(e.second == 1, "ownership", "array element freed %d times", e.second);
    count("array.ops", nops);
    nontrivial(grew && mid);
    sample(fmt("array, %d operations, final size %zu", nops, m.size()));
}

// ---------------------------------------------------------------- memory pool
MODE(mempool) {
    int chunk = rng.pick(vector<int>{64, 256, 1000, 65536});
    FrtMemoryPool *mp = chunk == 65536 ? frt_mp_new() : frt_mp_new_capa(chunk, rng.range(1, 5));
    int rounds = rng.range(1, 4); bool multi = false; long allocs = 0;
    for (int r = 0; r < rounds; r++) {
        vector<pair<unsigned char *, string>> m;
        int n = rng.range(1, 200);
        for (int i = 0; i < n; i++) {
            int sz = rng.chance(1, 12) ? chunk : rng.range(1, std::min(chunk, 60));
            string s(sz, 0); for (auto &c : s) c = (char)(rng.below(255) + 1);
            int k = rng.below(4); unsigned char *p;
            sig(sz * 4 + k);
            if (k == 0) { p = (unsigned char *)frt_mp_alloc(mp, sz); memcpy(p, s.data(), sz); }
            else if (k == 1) p = (unsigned char *)frt_mp_memdup(mp, s.data(), sz);
            else if (k == 2) { s = s.substr(0, sz - 1); s += '\0'; p = (unsigned char *)frt_mp_strdup(mp, s.c_str()); }
            else { string t = s.substr(0, sz - 1); p = (unsigned char *)frt_mp_strndup(mp, t.data(), (int)t.size()); s = t + string(1, '\0'); }
            for (auto &e : m) CHECK(p + s.size() <= e.first || e.first + e.second.size() <= p, "mp-overlap", "allocation %d of %zu bytes overlaps a live one", i, s.size());
            m.push_back({p, s}); allocs++;
        }
        for (auto &e : m) CHECK(memcmp(e.first, e.second.data(), e.second.size()) == 0, "mp-content", "an allocation changed");
        int total = 0; for (auto &e : m) total += (int)e.second.size();
        CHECK(frt_mp_used(mp) >= total, "mp-used", "used %d < allocated %d", frt_mp_used(mp), total);
        if (total > chunk) multi = true;
        frt_mp_reset(mp);
        CHECK(frt_mp_used(mp) == 0, "mp-used", "%d bytes used after a reset", frt_mp_used(mp));
    }
    frt_mp_destroy(mp);
    count("mempool.allocs", allocs);
    nontrivial(multi);
    sample(fmt("memory pool chunk %d, %d rounds, %ld allocations", chunk, rounds, allocs));
}

// ---------------------------------------------------------------- multi mapper
// Rewriting: the text is scanned once; whenever a pattern ends at the current byte (within
// the text since the last replacement) the longest such pattern is replaced.
static string mm_model(const vector<pair<string, string>> &pats, const string &s) {
    string out, cur; // cur: raw bytes since last replacement
    for (char c : s) {
        cur += c;
        int best = -1;
        for (int i = 0; i < (int)pats.size(); i++) {
            const string &p = pats[i].first;
            if (p.size() <= cur.size() && cur.compare(cur.size() - p.size(), p.size(), p) == 0)
                if (best < 0 || p.size() > pats[best].first.size() || (p == pats[best].first)) best = i;
        }
        if (best >= 0) { out += cur.substr(0, cur.size() - pats[best].first.size()) + pats[best].second; cur.clear(); }
    }
    return out + cur;
}
MODE(multimapper) {
    FrtMultiMapper *mm = frt_mulmap_new();
    static const char *alpha[] = {"ab", "abc", "a\xc3\xa9\xff""b", "abcdefgh"};
    string al = alpha[rng.below(4)];
    auto rs = [&](int lo, int hi) { string s; int n = rng.range(lo, hi); for (int i = 0; i < n; i++) s += al[rng.below(al.size())]; return s; };
    vector<pair<string, string>> pats; bool hit = false;
    int rounds = rng.range(1, 3);
    long maps = 0;
    for (int r = 0; r < rounds; r++) {
        int np = rng.chance(1, 20) ? rng.range(60, 200) : rng.range(1, 8);
        for (int i = 0; i < np; i++) {
            string p = rs(1, rng.chance(1, 8) ? 40 : 5);
            string t = rng.chance(1, 5) ? "" : (rng.chance(1, 2) ? rs(0, 3) : fmt("<%d>", i));
            bool dup = false; for (auto &q : pats) if (q.first == p) dup = true;
            if (dup) continue;
            frt_mulmap_add_mapping(mm, p.c_str(), t.c_str());
            pats.push_back({p, t}); sig(p + "\1" + t);
        }
        bool expl = rng.chance(1, 2);
        if (expl) frt_mulmap_compile(mm);
        for (int i = 0; i < 6; i++) {
            string s = rs(0, rng.chance(1, 6) ? 400 : 30);
            string want = mm_model(pats, s);
            if (want != s) hit = true;
            size_t capa = std::max(want.size(), s.size()) + 600;
            char *to = (char *)malloc(capa);
            char *from = strdup(s.c_str());
            if (rng.chance(1, 2)) { char *d = frt_mulmap_dynamic_map(mm, from); CHECK(want == d, "mm-dynamic", "dynamic_map(%s) = %s want %s", esc(s).c_str(), esc(d).c_str(), esc(want).c_str()); free(d); }
            int n = frt_mulmap_map_len(mm, to, from, (int)capa);
            if (rng.chance(1, 2)) { memset(to, 'x', capa); char *rt = frt_mulmap_map(mm, to, from, (int)capa); CHECK(rt == to, "mm-map", "mulmap_map does not return its destination"); }
            string got(to, strnlen(to, capa));
            CHECK(n == (int)got.size(), "mm-len", "map_len returned %d, string has %zu", n, got.size());
            CHECK(got == want, "mm-map", "map(%s) = %s want %s", esc(s).c_str(), esc(got).c_str(), esc(want).c_str());
            // truncation: never longer than the destination
            int small = rng.range(1, 12);
            char *t2 = (char *)malloc(small);
            n = frt_mulmap_map_len(mm, t2, from, small);
            CHECK(n <= small - 1 && t2[n] == 0, "mm-trunc", "capacity %d gave length %d", small, n);
            free(t2);
            char *d = frt_mulmap_dynamic_map(mm, from);
            CHECK(want == d, "mm-dynamic", "dynamic_map(%s) = %s want %s", esc(s).c_str(), esc(d).c_str(), esc(want).c_str());
            free(d); free(to); free(from); maps++;
        }
    }
    frt_mulmap_destroy(mm);
    count("multimapper.maps", maps);
    nontrivial(hit);
    sample(fmt("multi-mapper with %zu patterns over alphabet %s, %ld strings mapped", pats.size(), esc(al).c_str(), maps));
}
