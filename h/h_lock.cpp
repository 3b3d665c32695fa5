// C16: who holds the write lock
#include "model.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sched.h>
#include <atomic>
using std::multiset;

extern "C" { void __real_frt_micro_sleep(int); static int g_sleep_us = 0; void __wrap_frt_micro_sleep(int us) { if (g_sleep_us) __real_frt_micro_sleep(std::min(us, g_sleep_us)); } }

static FrtDocument *id_doc(const string &id) { FrtDocument *d = frt_doc_new(); FrtDocField *f = frt_df_new(SYM("id")); frt_df_add_data(f, frt_estrdup(id.c_str())); f->destroy_data = 1; frt_doc_add_field(d, f); return d; }
static void make_index(FrtStore *st) { FrtFieldInfos *fis = frt_fis_new(FRT_STORE_YES, FRT_INDEX_UNTOKENIZED, FRT_TERM_VECTOR_NO); frt_index_create(st, fis); frt_fis_deref(fis); }
static multiset<string> ids_of(FrtIndexReader *ir) { multiset<string> s; int n = ir->max_doc(ir); for (int i = 0; i < n; i++) if (!ir->is_deleted(ir, i)) { FrtDocument *d = ir->get_doc(ir, i); FrtDocField *f = frt_doc_get_field(d, SYM("id")); s.insert(f ? string(f->data[0], f->lengths[0]) : "?"); frt_doc_destroy(d); } return s; }

// ------------------------------------------------------------------ one process, many objects; a probing child process now and then
struct RState { FrtIndexReader *ir; long version; bool changed; multiset<string> ids; };
static int in_child(std::function<int()> f) {
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) { int r = 99; int c = guarded([&] { r = f(); }); _exit(c ? 100 + (c & 63) : r); }
    int st = 0; waitpid(p, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 255;
}
MODE(locks) {
    bool ram = rng.chance(1, 4);
    DirGuard dg("lk"); string dir = dg.d, alias = dg.d + "/.";
    vector<FrtStore *> stores; FrtStore *root = ram ? frt_open_ram_store() : frt_open_fs_store(dir.c_str());
    make_index(root);
    FrtIndexWriter *iw = nullptr; vector<RState> rs; int holder = -2;                       // -2 none, -1 the writer, i reader i
    multiset<string> committed, pend; long version = 0, serial = 0;
    set<string> created;
    auto store = [&]() { if (ram || rng.chance(2, 3)) return root; FrtStore *s = frt_open_fs_store(rng.chance(1, 2) ? alias.c_str() : dir.c_str()); stores.push_back(s); return s; };
    auto cfg = gen_config(rng); cfg.max_buffered_docs = 1000; cfg.max_buffer_memory = 1 << 24; cfg.chunk_size = 1 << 16;
    string why; int n = rng.range(5, 40), refusals = 0, takes = 0;
    for (int step = 0; step < n; step++) {
        int c = rng.below(17); string what;
        if (c < 4) {
            what = "open a writer"; FrtIndexWriter *w = nullptr; FrtStore *st = store();
            int e = guarded([&] { w = frt_iw_open(st, frt_non_analyzer_new(), &cfg); }, &why);
            if (holder == -2) { CHECK(!e, "lock-refused", "step %d: nobody holds the lock but opening a writer raises %d %s", step, e, why.c_str()); iw = w; holder = -1; pend = committed; takes++; }
            else { CHECK(e, "lock-two-holders", "step %d: a second writer was opened though %s holds the lock", step, holder == -1 ? "a writer" : "a reader with changes"); CHECK(e == FRT_LOCK_ERROR, "lock-wrong-error", "step %d: opening a second writer raises %d %s", step, e, why.c_str()); refusals++; }
        } else if (c < 6) { what = "add"; if (!iw) continue; string id = fmt("d%ld", serial++); FrtDocument *d = id_doc(id); frt_iw_add_doc(iw, d); frt_doc_destroy(d); pend.insert(id); created.insert(id); }
        else if (c < 7) { what = "commit the writer"; if (!iw) continue; frt_iw_commit(iw); if (pend != committed) version++; committed = pend; }
        else if (c < 9) { what = "close the writer"; if (!iw) continue; frt_iw_close(iw); iw = nullptr; if (pend != committed) version++; committed = pend; holder = -2; }
        else if (c < 10) { what = "open a reader"; RState r; r.ir = frt_ir_open(store()); if (rng.chance(1, 3)) { FrtIndexReader **sub = (FrtIndexReader **)malloc(sizeof(void *)); sub[0] = r.ir; r.ir = frt_mr_open(sub, 1); what += " through a reader of several indexes"; } r.version = version; r.changed = false; r.ids = ids_of(r.ir); CHECK(r.ids == committed, "lock-content", "step %d: a reader sees %zu documents, %zu are committed", step, r.ids.size(), committed.size()); rs.push_back(r); }
        else if (c < 13) {
            if (rs.empty()) continue; int i = rng.below((uint32_t)rs.size()); RState &r = rs[i]; int k = rng.below(3);
            what = fmt("change through reader %d", i);
            int target = -1; { int m = r.ir->max_doc(r.ir); for (int q = 0; q < m; q++) if (!r.ir->is_deleted(r.ir, q)) { target = q; if (rng.chance(1, 3)) break; } }
            if (target < 0) continue;
            string id; { FrtDocument *d = r.ir->get_doc(r.ir, target); FrtDocField *f = frt_doc_get_field(d, SYM("id")); id = string(f->data[0], f->lengths[0]); frt_doc_destroy(d); }
            int e = guarded([&] { if (k < 2) frt_ir_delete_doc(r.ir, target); else frt_ir_set_norm(r.ir, target, SYM("id"), 77); }, &why);
            bool stale = r.version != version;
            if (holder == i) { CHECK(!e, "lock-refused", "step %d: the reader that holds the lock cannot change the index: %d %s", step, e, why.c_str()); }
            else if (holder == -2 && !stale) { CHECK(!e, "lock-refused", "step %d: nobody holds the lock but a reader cannot change the index: %d %s", step, e, why.c_str()); holder = i; takes++; }
            else { CHECK(e == FRT_LOCK_ERROR || (stale && e == FRT_STATE_ERROR), e ? "lock-wrong-error" : "lock-two-holders", "step %d: a reader changed the index (%d %s) though %s", step, e, why.c_str(), stale ? "it is out of date" : "somebody else holds the lock"); refusals++; }
            if (!e) { r.changed = true; if (k < 2) r.ids.erase(r.ids.find(id)); }
            else CHECK(!r.ir->is_deleted(r.ir, target), "lock-changed", "step %d: a refused deletion happened all the same", step);
        } else if (c < 15) {
            if (rs.empty()) continue; int i = rng.below((uint32_t)rs.size()); bool close = rng.chance(1, 2); what = fmt("%s reader %d", close ? "close" : "commit", i);
            if (close) frt_ir_close(rs[i].ir); else frt_ir_commit(rs[i].ir);
            if (holder == i) { holder = -2; version++; committed = rs[i].ids; rs[i].version = version; rs[i].changed = false; }
            if (close) { rs.erase(rs.begin() + i); if (holder > i) holder--; }
        } else if (c < 16) { what = "ask"; bool l = frt_index_is_locked(store()); CHECK(l == (holder != -2), "lock-query", "step %d: index_is_locked says %d, but the lock is %sheld", step, l, holder != -2 ? "" : "not "); }
        else if (!stores.empty()) { what = "close a store"; frt_store_deref(stores.back()); stores.pop_back(); }
        note("%s (holder %d)", what.c_str(), holder); sig(what);
        // the lock is there exactly when somebody holds it, for another process too
        if (!ram) {
            bool there = false; for (auto &f : list_dir(dir)) if (f.size() > 4 && f.substr(f.size() - 4) == ".lck") there = true;
            CHECK(there == (holder != -2), holder != -2 ? "lock-lost" : "lock-left", "step %d, %s: the lock file %s", step, what.c_str(), holder != -2 ? "is gone though somebody holds the lock" : "is left though nobody holds the lock");
            if (rng.chance(1, 8)) {
                bool doc = rng.chance(1, 2);
                int r = in_child([&]() {
                    FrtStore *s = frt_open_fs_store((dir + "/./").c_str()); FrtIndexWriter *w = frt_iw_open(s, frt_non_analyzer_new(), &cfg); frt_store_deref(s);
                    if (doc) { FrtDocument *d = id_doc(fmt("c%d", step)); frt_iw_add_doc(w, d); frt_doc_destroy(d); }
                    frt_iw_close(w); return 7; });
                bool got = r == 7;
                CHECK(got == (holder == -2), got ? "lock-two-holders" : "lock-refused", "step %d: another process %s the lock (result %d) though %s", step, got ? "got" : "did not get", r, holder == -2 ? "nobody holds it" : "it is held here");
                CHECK(got || r == 100 + FRT_LOCK_ERROR, "lock-wrong-error", "step %d: another process failed with %d, not a lock error", step, r);
                if (got && doc) { committed.insert(fmt("c%d", step)); version++; }
                count("probes_from_another_process");
            }
        } else { bool there = false; auto chk = [](const char *nm, void *a) { string s = nm; if (s.size() > 4 && s.substr(s.size() - 4) == ".lck") *(bool *)a = true; }; (void)chk; (void)there; bool l = frt_index_is_locked(root); CHECK(l == (holder != -2), holder != -2 ? "lock-lost" : "lock-left", "step %d, %s: the lock is %s", step, what.c_str(), l ? "left though nobody holds it" : "gone though somebody holds it"); }
        count("steps");
    }
    if (iw) { frt_iw_close(iw); committed = pend; }
    for (size_t i = 0; i < rs.size(); i++) { frt_ir_close(rs[i].ir); if (holder == (int)i) committed = rs[i].ids; }
    { FrtIndexReader *r = frt_ir_open(root); auto got = ids_of(r); frt_ir_close(r); CHECK(got == committed, "lock-content", "at the end the index holds %zu documents, %zu were committed by lock holders", got.size(), committed.size()); }
    CHECK(!frt_index_is_locked(root), "lock-left", "everything is closed but the index is locked");
    for (auto s : stores) frt_store_deref(s);
    frt_store_deref(root);
    count("refusals", refusals); count("locks_taken", takes); nontrivial(refusals && takes > 1);
    sample(fmt("%d steps, %d locks taken, %d attempts refused, %s", n, takes, refusals, ram ? "RAM" : "file system"));
}

// ------------------------------------------------------------------ locks by themselves: any number of lock objects on a few names
MODE(objects) {
    bool ram = rng.chance(1, 3); DirGuard dg("lo"); string dir = dg.d, alias = dg.d + "/.";
    FrtStore *st[2] = {ram ? frt_open_ram_store() : frt_open_fs_store(dir.c_str()), nullptr}; if (!ram) st[1] = frt_open_fs_store(alias.c_str());
    struct L { FrtLock *l; int name; bool held; }; vector<L> ls; static const char *names[] = {"write", "commit", "x", "a-lock_2"};
    int n = rng.range(10, 60), refused = 0, taken = 0; auto holder = [&](int nm) { for (size_t i = 0; i < ls.size(); i++) if (ls[i].held && ls[i].name == nm) return (int)i; return -1; };
    auto make = [&](FrtStore *s, const char *f) { FrtOutStream *o = s->new_output(s, f); frt_os_write_byte(o, 'x'); frt_os_close(o); };
    for (int k = 0; k < n; k++) {
        int c = rng.below(12), i = ls.empty() ? -1 : (int)rng.below((uint32_t)ls.size()); FrtStore *s = ram ? st[0] : st[rng.below(2)];
        if (c < 3 || i < 0) { if (ls.size() > 6) continue; int nm = rng.below(4); ls.push_back({frt_open_lock(s, names[nm]), nm, false}); note("lock object %zu for %s", ls.size() - 1, names[nm]); }
        else if (c < 7) {
            int h = holder(ls[i].name); bool got = ls[i].l->obtain(ls[i].l); note("obtain %d (%s): %d", i, names[ls[i].name], got);
            CHECK(got == (h < 0), h < 0 ? "lock-refused" : "lock-two-holders", "step %d: lock object %d %s the lock %s though %s", k, i, got ? "got" : "did not get", names[ls[i].name], h < 0 ? "nobody holds it" : fmt("object %d holds it", h).c_str());
            if (got) { ls[i].held = true; taken++; } else refused++;
        } else if (c < 9) { if (!ls[i].held) continue; ls[i].l->release(ls[i].l); ls[i].held = false; note("release %d", i); }
        else if (c < 10) { if (ls[i].held && ram) { ls[i].l->release(ls[i].l); ls[i].held = false; } note("close %d (held %d)", i, ls[i].held); frt_close_lock(ls[i].l); ls.erase(ls.begin() + i); }
        else if (c < 11 && rng.chance(1, 2)) {     // run something while holding the lock; what is run may raise
            struct A { bool raise; int runs; } a{rng.chance(1, 2), 0}; int nm = ls[i].name, h = holder(nm); bool byname = rng.chance(1, 2);
            auto fn = +[](void *p) { A *x = (A *)p; x->runs++; if (x->raise) frt_xraise(FRT_STATE_ERROR, "raised while holding the lock"); };
            int e = guarded([&] { if (byname) frt_with_lock_name(s, names[nm], fn, &a); else frt_with_lock(ls[i].l, fn, &a); }); note("with_lock%s %s raise %d: error %d", byname ? "_name" : "", names[nm], a.raise, e);
            CHECK(a.runs == (h < 0), h < 0 ? "lock-refused" : "lock-two-holders", "step %d: with_lock ran its function %d times though the lock %s is %sheld", k, a.runs, names[nm], h < 0 ? "not " : "");
            CHECK(e == (h >= 0 ? FRT_LOCK_ERROR : a.raise ? FRT_STATE_ERROR : 0), "with-lock-error", "step %d: with_lock on %s raised %d", k, names[nm], e); count("with_lock");
            if (h >= 0) refused++; else taken++;
        }
        else if (c < 11) { note("clear the store, keeping locks"); make(s, "_1.fdt"); s->clear(s); CHECK(!s->exists(s, "_1.fdt"), "lock-clear", "step %d: clear left a file of the index", k); }
        else if (rng.chance(1, 3)) { note("clear all locks"); if (rng.chance(1, 2)) s->clear_locks(s); else s->clear_all(s); for (size_t j = 0; j < ls.size();) if (ls[j].held) { frt_close_lock(ls[j].l); ls.erase(ls.begin() + j); } else j++; }
        for (size_t j = 0; j < ls.size(); j++) {
            bool l = ls[j].l->is_locked(ls[j].l), h = holder(ls[j].name) >= 0;
            CHECK(l == h, h ? "lock-lost" : "lock-left", "step %d: lock %s is %sheld but object %zu says %d", k, names[ls[j].name], h ? "" : "not ", j, l);
        }
        if (!ram) { set<string> want, got; for (auto &x : ls) if (x.held) want.insert(string("ferret-") + names[x.name] + ".lck"); for (auto &f : list_dir(dir)) if (f.size() > 4 && f.substr(f.size() - 4) == ".lck") got.insert(f); CHECK(want.size() == got.size(), "lock-files", "step %d: %zu locks are held but there are %zu lock files", k, want.size(), got.size()); }
        count("steps"); sig(fmt("%d.%d.%zu", c, i, ls.size()));
    }
    while (!ls.empty()) { bool h = ls.back().held; FrtStore *s = ls.back().l->store; int nm = ls.back().name; frt_close_lock(ls.back().l); ls.pop_back(); if (h && !ram) { FrtLock *l = frt_open_lock(s, names[nm]); CHECK(!l->is_locked(l), "lock-left", "closing the lock object that held %s left it locked", names[nm]); frt_close_lock(l); } }
    if (st[1]) frt_store_deref(st[1]); frt_store_deref(st[0]);
    count("refusals", refused); count("locks_taken", taken); nontrivial(refused && taken > 1); sample(fmt("%d steps on %s locks: taken %d times, refused %d times", n, ram ? "RAM" : "file system", taken, refused));
}

// ------------------------------------------------------------------ several processes race for the lock
struct Shared { std::atomic<int> inside, overlap, taken, refused, errors, added, go; char msg[300]; };
MODE(contend) {
    DirGuard dg("ct"); string dir = dg.d;
    { FrtStore *st = frt_open_fs_store(dir.c_str()); make_index(st); frt_store_deref(st); }
    Shared *sh = (Shared *)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new (sh) Shared(); sh->msg[0] = 0;
    int procs = rng.range(2, 6), rounds = rng.range(2, 8), spread = rng.range(0, 400); int hold = rng.range(0, 300); uint64_t seed = rng.next();
    note("%d processes, %d rounds, holding for up to %d us", procs, rounds, hold); sig(seed);
    fflush(stdout); fflush(stderr);
    vector<pid_t> kids;
    for (int p = 0; p < procs; p++) {
        pid_t k = fork();
        if (k) { kids.push_back(k); continue; }
        Rng r(seed + p * 7919); g_sleep_us = 500;
        while (!sh->go) sched_yield();
        FrtStore *st = frt_open_fs_store(dir.c_str()); auto cfg = gen_config(r);
        for (int i = 0; i < rounds; i++) {
            usleep(r.below(spread + 1)); string why; bool by_reader = r.chance(1, 4), ask = r.chance(1, 3);
            if (ask) guarded([&] { frt_index_is_locked(st); });
            FrtIndexWriter *w = nullptr; FrtIndexReader *ir = nullptr;
            int e = 0;
            if (!by_reader) e = guarded([&] { w = frt_iw_open(st, frt_non_analyzer_new(), &cfg); }, &why);
            else {
                e = guarded([&] { ir = frt_ir_open(st); }, &why);
                if (!e) { int t = -1, m = ir->max_doc(ir); for (int q = 0; q < m; q++) if (!ir->is_deleted(ir, q)) t = q; if (t < 0) { frt_ir_close(ir); continue; } e = guarded([&] { frt_ir_set_norm(ir, t, SYM("id"), (frt_uchar)r.below(255)); }, &why); if (e) { int e2 = guarded([&] { frt_ir_close(ir); }); if (e2) e = e2; ir = nullptr; } }
            }
            if (e) { if (e == FRT_LOCK_ERROR || (by_reader && e == FRT_STATE_ERROR)) sh->refused++; else if (!sh->errors++) snprintf(sh->msg, 300, "error %d %s", e, why.c_str()); continue; }
            if (sh->inside.fetch_add(1) != 0) sh->overlap++;
            sh->taken++;
            if (hold) usleep(r.below(hold));
            if (w) e = guarded([&] { FrtDocument *d = id_doc(fmt("p%dr%d", p, i)); frt_iw_add_doc(w, d); frt_doc_destroy(d); if (r.chance(1, 3)) frt_iw_commit(w); }, &why);
            if (sh->inside.fetch_sub(1) != 1) sh->overlap++;
            int e2 = guarded([&] { if (w) frt_iw_close(w); else frt_ir_close(ir); }, &why);
            if (e || e2) { if (!sh->errors++) snprintf(sh->msg, 300, "while holding the lock: error %d/%d %s", e, e2, why.c_str()); }
            else if (w) sh->added++;
        }
        guarded([&] { frt_store_deref(st); });
        _exit(0);
    }
    sh->go = 1; int bad = 0;
    for (auto k : kids) { int st = 0; waitpid(k, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad++; }
    CHECK(!bad, "contend-died", "%d of %d processes died", bad, procs);
    CHECK(!sh->overlap.load(), "lock-two-holders", "two processes held the write lock at the same time, %d times in %d", sh->overlap.load(), sh->taken.load());
    CHECK(!sh->errors.load(), "contend-error", "%d unexpected errors, the first: %s", sh->errors.load(), sh->msg);
    FrtStore *st = frt_open_fs_store(dir.c_str());
    CHECK(!frt_index_is_locked(st), "lock-left", "all processes are gone but the index is locked");
    { FrtIndexReader *r = frt_ir_open(st); auto got = ids_of(r); frt_ir_close(r); set<string> u(got.begin(), got.end()); CHECK((int)got.size() == sh->added.load() && u.size() == got.size(), "contend-lost", "%d documents were added by lock holders, the index holds %zu (%zu different)", sh->added.load(), got.size(), u.size()); }
    frt_store_deref(st);
    count("locks_taken", sh->taken); count("refusals", sh->refused); count("processes", procs); nontrivial(sh->refused > 0 && sh->taken > 1);
    sample(fmt("%d processes: %d times taken, %d times refused", procs, sh->taken.load(), sh->refused.load()));
    munmap(sh, sizeof *sh);
}

// ------------------------------------------------------------------ a writer or changing reader that cannot start leaves no lock behind
static string slurp(FrtStore *st, const string &n) { FrtInStream *is = st->open_input(st, n.c_str()); string s((size_t)is->m->length_i(is), 0); if (!s.empty()) frt_is_read_bytes(is, (frt_uchar *)&s[0], (int)s.size()); frt_is_close(is); return s; }
static void spill(FrtStore *st, const string &n, const string &b) { FrtOutStream *os = st->new_output(st, n.c_str()); if (!b.empty()) frt_os_write_bytes(os, (const frt_uchar *)b.data(), (int)b.size()); frt_os_close(os); }
static void name_of(const char *n, void *arg) { ((vector<string> *)arg)->push_back(n); }
MODE(failed_open) {
    bool ram = rng.chance(1, 2);
    DirGuard dg("lf"); FrtStore *st = ram ? frt_open_ram_store() : frt_open_fs_store(dg.d.c_str());
    auto cfg = gen_config(rng); string why; int fails = 0; multiset<string> ids;
    FrtIndexReader *ir = nullptr;
    bool have = rng.chance(3, 4);
    if (have) {
        make_index(st); FrtIndexWriter *iw = frt_iw_open(st, frt_non_analyzer_new(), &cfg);
        for (int i = 0, n = rng.range(1, 5); i < n; i++) { string id = fmt("d%d", i); FrtDocument *d = id_doc(id); frt_iw_add_doc(iw, d); frt_doc_destroy(d); ids.insert(id); }
        frt_iw_close(iw); ir = frt_ir_open(st);
    }
    auto locked = [&] { FrtLock *l = frt_open_lock(st, FRT_WRITE_LOCK_NAME); bool b = l->is_locked(l); frt_close_lock(l); return b; };
    for (int round = 0, n = rng.range(1, 3); round < n; round++) {
        vector<string> names; st->each(st, name_of, &names);
        std::map<string, string> saved; for (auto &f : names) if (f.compare(0, 8, "segments") == 0) saved[f] = slurp(st, f);
        int how = rng.below(3);
        for (auto &f : saved) { if (how == 0) st->remove(st, f.first.c_str()); else if (how == 1) spill(st, f.first, f.second.substr(0, rng.below((uint32_t)f.second.size()))); else spill(st, f.first, ""); }
        note("round %d: %zu segments files %s\n", round, saved.size(), how == 0 ? "removed" : how == 1 ? "cut" : "emptied");
        for (int k = 0, m = rng.range(1, 3); k < m; k++) {
            bool by_reader = ir && how != 1 && rng.chance(1, 3); FrtIndexWriter *w = nullptr;
            int e = guarded([&] { if (by_reader) frt_ir_delete_doc(ir, 0); else w = frt_iw_open(st, frt_non_analyzer_new(), &cfg); }, &why);
            if (!e) { if (w) frt_iw_close(w); if (ir) frt_ir_close(ir); frt_store_deref(st); throw Skip{"the damaged index could be opened"}; }
            fails++; count("failed openings");
            CHECK(!locked(), "lock-left", "%s failed (%d %s) and left the write lock taken", by_reader ? "a deletion through a reader" : "opening a writer", e, why.c_str());
            if (by_reader) CHECK(!ir->is_deleted(ir, 0), "lock-changed", "a refused deletion happened all the same");
        }
        for (auto &f : saved) spill(st, f.first, f.second);
    }
    if (!have) make_index(st);
    FrtIndexWriter *iw = nullptr;
    int e = guarded([&] { iw = frt_iw_open(st, frt_non_analyzer_new(), &cfg); }, &why);
    CHECK(!e, "lock-refused", "nobody holds the lock but opening a writer raises %d %s", e, why.c_str());
    FrtDocument *d = id_doc("last"); frt_iw_add_doc(iw, d); frt_doc_destroy(d); ids.insert("last"); frt_iw_close(iw);
    FrtIndexReader *r = frt_ir_open(st); CHECK(ids_of(r) == ids, "lock-content", "%zu documents, expected %zu", ids_of(r).size(), ids.size()); frt_ir_close(r);
    if (ir) frt_ir_close(ir);
    frt_store_deref(st);
    sig((int)ram); sig(fails); sig((long)ids.size()); if (fails) nontrivial();
}
