// A store with an index, its model, and random update operations on both.
#pragma once
#include "model.h"

struct World {
    Rng &r; Schema S; GenOpt o; int mask;
    FrtStore *store = nullptr; bool fs = false; string dir;
    FrtIndexWriter *iw = nullptr; FrtConfig cfg;
    vector<MDoc> docs;
    long serial = 0;
    bool optimized = false;
    long commits = 0;

    World(Rng &r_, int mask_) : r(r_), mask(mask_) {}
    ~World() {
        if (iw) { FrtIndexWriter *x = iw; iw = nullptr; guarded([&] { frt_iw_close(x); }); }
        if (store) { FrtStore *s = store; store = nullptr; guarded([&] { frt_store_deref(s); }); }
        if (!dir.empty()) rm_rf(dir);
    }
    void open_store() { store = fs ? frt_open_fs_store(dir.c_str()) : frt_open_ram_store(); }
    void init(int fs_in = 3) {
        S = gen_schema(r, mask);
        fs = r.chance(1, fs_in);
        if (fs) dir = fresh_dir("ix");
        open_store();
        create();
    }
    void create() {
        FrtFieldInfos *fis = make_fis(S);
        frt_index_create(store, fis);
        CHECK(frt_ir_index_exists(store), "index-exists", "ir_index_exists says there is no index after one was created");
        frt_fis_deref(fis);
        docs.clear();
        string d;
        for (auto &n : S.names) { auto &c = S.f[n]; d += fmt("%s(s%d i%d v%d b%g) ", n.c_str(), c.store, c.index, c.tv, c.boost); }
        note("create %s dflt(s%d i%d v%d) %s", d.c_str(), S.dflt.store, S.dflt.index, S.dflt.tv, fs ? "fs" : "ram");
    }
    void open_writer() {
        cfg = gen_config(r);
        note("open writer %s", cfg_s(cfg).c_str());
        iw = frt_iw_open(store, script_analyzer(), &cfg);
    }
    void ensure_writer() { if (!iw) open_writer(); }
    void close_writer() { if (iw) { note("close writer"); FrtIndexWriter *x = iw; iw = nullptr; frt_iw_close(x); commits++; } }
    void add_one(const MDoc &m) {
        FrtDocument *d = make_doc(m);
        frt_iw_add_doc(iw, d);
        frt_doc_destroy(d);
        docs.push_back(m);
        optimized = false;
        // the writer counts what it holds, deleted documents until they are merged away
        int n = frt_iw_doc_count(iw), lv = live(); CHECK(lv == (int)docs.size() ? n == lv : n >= lv, "writer-count", "the writer counts %d documents after %s, %d are live", n, m.id.c_str(), lv);
    }
    void add(int n) {
        ensure_writer();
        for (int i = 0; i < n; i++) {
            MDoc m = gen_doc(r, S, serial++, o);
            if (R.verbose || n <= 3) { string l; for (auto &f : m.fields) { l += f.name + "=["; for (auto &v : f.vals) l += esc(v, 60) + ","; l += "] "; } note("add %s b%g %s", m.id.c_str(), m.boost, l.c_str()); }
            add_one(m);
        }
        note("added %d", n);
        count("docs_added", n);
    }
    int live() const { int n = 0; for (auto &d : docs) n += !d.deleted; return n; }
    string some_id() {
        if (docs.empty() || r.chance(1, 15)) return "nosuchid";
        return docs[r.below((uint32_t)docs.size())].id;
    }
    void model_delete(const string &field, const string &term) {
        FCfg c = S.cfg(field);
        if (!ix_indexed(c)) return;
        for (auto &d : docs) if (!d.deleted) {
            const MField *f = d.get(field);
            if (f && invert(c, *f).pos.count(term)) { d.deleted = true; count("docs_deleted"); optimized = false; }
        }
    }
    void del_ids() {
        ensure_writer();
        if (r.chance(1, 2)) {
            string id = some_id();
            note("delete id:%s", id.c_str());
            frt_iw_delete_term(iw, SYM("id"), id.c_str());
            model_delete("id", id);
        } else {
            vector<string> ids; int n = r.range(1, 5);
            for (int i = 0; i < n; i++) ids.push_back(some_id());
            vector<char *> p; string l;
            for (auto &s : ids) { p.push_back((char *)s.c_str()); l += s + " "; }
            note("delete ids %s", l.c_str());
            frt_iw_delete_terms(iw, SYM("id"), p.data(), n);
            for (auto &s : ids) model_delete("id", s);
        }
    }
    void del_content() {
        ensure_writer();
        auto names = S.all();
        string f = names[r.below((uint32_t)names.size())];
        if (!ix_indexed(S.cfg(f))) return;
        string t = gen_word(r, o.vocab);
        note("delete %s:%s", f.c_str(), esc(t).c_str());
        frt_iw_delete_term(iw, SYM(f), t.c_str());
        model_delete(f, t);
    }
    void commit() { ensure_writer(); note("commit"); frt_iw_commit(iw); commits++; }
    void optimize() {
        ensure_writer(); note("optimize"); frt_iw_optimize(iw); commits++; optimized = true;
    }
    void reopen_store() {
        if (!fs || !r.chance(1, 2)) return;
        note("reopen store");
        FrtStore *s = store; store = nullptr; frt_store_deref(s);
        open_store();
    }
    struct Reader { FrtIndexReader *ir; ~Reader() { if (ir) frt_ir_close(ir); } };

    // everything is committed: any reader must show exactly the model
    void verify(const char *when, int m) {
        FrtIndexReader *ir = frt_ir_open(store);
        Reader g{ir};
        snap_check(S, docs, ir, m, when, optimized);
        count("readers_checked");
        count(fmt("segments_%s", ir->sis->size == 0 ? "0" : ir->sis->size == 1 ? "1" : ir->sis->size < 4 ? "2-3" : "4+"));
        if (optimized) {
            CHECK(ir->max_doc(ir) == ir->num_docs(ir), "optimize-dense", "%s: optimized index has max_doc %d, num_docs %d", when, ir->max_doc(ir), ir->num_docs(ir));
            CHECK(ir->sis->size <= 1, "optimize-one-segment", "%s: optimized index has %d segments", when, ir->sis->size);
        }
        if (extra) extra(*this, ir);
    }
    std::function<void(World &, FrtIndexReader *)> extra;

    // deletions / undeletions / norms through a reader (writer must be closed)
    void reader_session(bool undelete, bool norms) {
        close_writer();
        FrtIndexReader *ir = frt_ir_open(store);
        Reader g{ir};
        int n = r.range(1, 8);
        set<string> here;       // deleted in this session: an undelete must bring them back
        for (int k = 0; k < n; k++) {
            vector<int> lv = live_docs(ir);
            vector<int> ml; for (size_t i = 0; i < docs.size(); i++) if (!docs[i].deleted) ml.push_back((int)i);
            CHECK(lv.size() == ml.size(), "content-live", "reader session: %zu live, expected %zu", lv.size(), ml.size());
            int op = r.below(10);
            if (op < 5 && !norms) {
                if (lv.empty()) continue;
                int i = r.below((uint32_t)lv.size());
                note("reader delete doc %d (%s)", lv[i], docs[ml[i]].id.c_str());
                frt_ir_delete_doc(ir, lv[i]);
                docs[ml[i]].deleted = true; here.insert(docs[ml[i]].id); optimized = false; count("docs_deleted");
                CHECK(ir->is_deleted(ir, lv[i]), "delete-visible", "doc %d not deleted for the deleting reader", lv[i]);
                if (r.chance(1, 4)) { frt_ir_delete_doc(ir, lv[i]); }   // deleting twice is harmless
                if (mask & M_ST) { int e = guarded([&] { FrtDocument *d = ir->get_doc(ir, lv[i]); frt_doc_destroy(d); }); CHECK(e, "deleted-readable", "get_doc of deleted doc %d succeeds", lv[i]); }
            } else if (op < 6 && undelete) {
                note("undelete all");
                int before = ir->max_doc(ir);
                frt_ir_undelete_all(ir);
                // which documents are physically there: read their ids
                CHECK(ir->num_docs(ir) == before, "undelete-count", "after undelete num_docs %d max_doc %d", ir->num_docs(ir), before);
                size_t j = 0;
                for (int d = 0; d < before; d++) {
                    FrtDocument *fd = ir->get_doc(ir, d);
                    FrtDocField *df = frt_doc_get_field(fd, SYM("id"));
                    string id = df ? string(df->data[0], df->lengths[0]) : "?";
                    frt_doc_destroy(fd);
                    while (j < docs.size() && docs[j].id != id) {
                        CHECK(docs[j].deleted, "undelete-lost", "live doc %s missing after undelete", docs[j].id.c_str());
                        CHECK(!here.count(docs[j].id), "undelete-lost", "doc %s deleted in this session not restored", docs[j].id.c_str());
                        docs[j].gone = true; j++;
                    }
                    CHECK(j < docs.size(), "undelete-unknown", "doc %d has id %s: unknown or out of order", d, esc(id).c_str());
                    CHECK(!docs[j].gone, "undelete-resurrected", "doc %s was merged away before and is back", id.c_str());
                    docs[j].deleted = false; j++;
                }
                for (; j < docs.size(); j++) { CHECK(docs[j].deleted && !here.count(docs[j].id), "undelete-lost", "doc %s missing after undelete", docs[j].id.c_str()); docs[j].gone = true; }
                optimized = false; count("undeletes");
            } else if (op < 8 && norms) {
                if (lv.empty()) continue;
                int i = r.below((uint32_t)lv.size());
                MDoc &d = docs[ml[i]];
                const MField &f = d.fields[r.below((uint32_t)d.fields.size())];
                FCfg c = S.cfg(f.name);
                if (!ix_indexed(c) || invert(c, f).num_terms == 0) continue;
                int b = r.below(256);
                note("set norm doc %d (%s) %s = %d", lv[i], d.id.c_str(), f.name.c_str(), b);
                frt_ir_set_norm(ir, lv[i], SYM(f.name), (frt_uchar)b);
                if (ix_norms(c)) d.norm_set[f.name] = b;
                count("norms_set");
            } else if (op == 8) {
                note("reader commit");
                frt_ir_commit(ir); commits++;
                if (r.chance(1, 2)) verify("after reader commit", mask);
            } else {
                snap_check(S, docs, ir, mask & (M_DL | M_NM | M_TM), "inside the reader session");
            }
        }
        snap_check(S, docs, ir, mask, "inside the reader session");
        note("reader close");
        g.ir = nullptr; frt_ir_close(ir); commits++;
    }
};
