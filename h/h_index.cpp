#include "world.h"

// ------------------------------------------------------------------ lazy documents agree with whole ones
static void check_lazy(World &w, FrtIndexReader *ir) {
    vector<int> lv = live_docs(ir);
    vector<MDoc *> ml; for (auto &d : w.docs) if (!d.deleted) ml.push_back(&d);
    for (size_t i = 0; i < lv.size(); i++) {
        if (lv.size() > 12 && !w.r.chance(12, (int)lv.size())) continue;
        FrtLazyDoc *ld = ir->get_lazy_doc(ir, lv[i]);
        struct G { FrtLazyDoc *l; ~G() { frt_lazy_doc_close(l); } } g{ld};
        vector<const MField *> want;
        for (auto &f : ml[i]->fields) if (w.S.cfg(f.name).store) want.push_back(&f);
        CHECK(ld->size == (int)want.size(), "lazy-size", "lazy doc %d has %d fields, expected %zu", lv[i], ld->size, want.size());
        for (size_t k = 0; k < want.size(); k++) {
            FrtLazyDocField *lf = ld->fields[k];
            CHECK(want[k]->name == FRT_S(lf->name), "lazy-name", "lazy field %zu is %s, expected %s", k, FRT_S(lf->name), want[k]->name.c_str());
            CHECK(frt_lazy_doc_get(ld, lf->name) == lf, "lazy-dict", "lazy field %s not found by name", FRT_S(lf->name));
            CHECK(lf->size == (int)want[k]->vals.size(), "lazy-count", "lazy field %s has %d values, expected %zu", FRT_S(lf->name), lf->size, want[k]->vals.size());
        }
        // interleave access paths over the fields in random order
        int steps = (int)want.size() * 3;
        for (int s = 0; s < steps; s++) {
            int k = w.r.below((uint32_t)want.size());
            FrtLazyDocField *lf = ld->fields[k];
            const MField &f = *want[k];
            if (f.vals.empty()) continue;
            string joined; for (size_t j = 0; j < f.vals.size(); j++) { if (j) joined += ' '; joined += f.vals[j]; }
            if (w.r.chance(1, 2)) {
                int j = w.r.below((uint32_t)f.vals.size());
                char *t = frt_lazy_df_get_data(lf, j);
                CHECK(t, "lazy-null", "lazy value %d of %s is NULL", j, f.name.c_str());
                CHECK(lf->data[j].length == (int)f.vals[j].size() && !memcmp(t, f.vals[j].data(), f.vals[j].size()) && t[f.vals[j].size()] == 0,
                      "lazy-value", "doc %d field %s value %d: lazy gives %s (%d bytes), stored was %s", lv[i], f.name.c_str(), j, fp(string(t, lf->data[j].length)).c_str(), lf->data[j].length, fp(f.vals[j]).c_str());
                CHECK(!frt_lazy_df_get_data(lf, (int)f.vals.size()) && !frt_lazy_df_get_data(lf, -1), "lazy-range", "out of range value not NULL");
                count("lazy_values");
            } else {
                int st, len;
                switch (w.r.below(6)) {
                    case 0: st = (int)joined.size(); len = 1; break;           // past the end
                    case 1: st = w.r.below((uint32_t)joined.size() + 1); len = (int)joined.size() - st + 1; break;
                    case 2: st = -1; len = 1; break;
                    default: if (joined.empty()) continue; st = w.r.below((uint32_t)joined.size()); len = 1 + w.r.below((uint32_t)joined.size() - st); break;
                }
                bool ok = st >= 0 && st < (int)joined.size() && len > 0 && st + len <= (int)joined.size();
                string buf(std::max(len, 1) + 1, (char)0x77);
                int e = guarded([&] { frt_lazy_df_get_bytes(lf, &buf[0], st, len); });
                CHECK(ok == (e == 0), "lazy-bytes-range", "get_bytes(%d,%d) of %zu bytes: error %d", st, len, joined.size(), e);
                if (ok) {
                    CHECK(!memcmp(buf.data(), joined.data() + st, len), "lazy-bytes", "doc %d field %s get_bytes(%d,%d) gives %s, expected %s", lv[i], f.name.c_str(), st, len, fp(buf.substr(0, len)).c_str(), fp(joined.substr(st, len)).c_str());
                    CHECK(buf[len] == 0x77, "lazy-bytes-overrun", "get_bytes wrote past the requested length");
                }
                count("lazy_ranges");
            }
        }
    }
}

// ------------------------------------------------------------------ postings through every access path
struct P { int doc, freq; vector<int> pos; };
static void check_postings(World &w, FrtIndexReader *ir) {
    Rng &r = w.r;
    auto names = w.S.all();
    FrtTermDocEnum *td = ir->term_docs(ir), *tp = ir->term_positions(ir);
    struct G { FrtTermDocEnum *a, *b; ~G() { a->close(a); b->close(b); } } g{td, tp};
    vector<int> lv = live_docs(ir);
    vector<MDoc *> ml; for (auto &d : w.docs) if (!d.deleted) ml.push_back(&d);
    // model postings
    map<string, map<string, vector<P>>> M;
    for (size_t i = 0; i < lv.size(); i++) for (auto &f : ml[i]->fields) {
        FCfg c = w.S.cfg(f.name); if (!ix_indexed(c)) continue;
        for (auto &kv : invert(c, f).pos) M[f.name][kv.first].push_back({lv[i], (int)kv.second.size(), kv.second});
    }
    for (int step = 0; step < 40; step++) {
        string n = names[r.below((uint32_t)names.size())];
        int fn = frt_fis_get_field_num(ir->fis, SYM(n));
        if (fn < 0 || !ix_indexed(w.S.cfg(n))) continue;
        auto &terms = M[n];
        string t;
        if (terms.empty() || r.chance(1, 5)) { t = gen_word(r, w.o.vocab * 2); if (r.chance(1, 3)) t += "x"; }
        else { auto it = terms.begin(); std::advance(it, r.below((uint32_t)terms.size())); t = it->first; }
        static const vector<P> none;
        const vector<P> &L = terms.count(t) ? terms[t] : none;
        int kind = r.below(5);
        const char *what = "";
        if (kind == 0) {                                  // bulk read
            what = "read"; td->seek(td, fn, t.c_str());
            vector<pair<int, int>> got; int buf = r.range(1, 7); vector<int> ds(buf), fs(buf);
            while (int k = td->read(td, ds.data(), fs.data(), buf)) {
                CHECK(k > 0 && k <= buf, "postings-read", "read returned %d of %d", k, buf);
                for (int i = 0; i < k; i++) got.push_back({ds[i], fs[i]});
                CHECK(got.size() <= L.size() + 1, "postings-read", "read of %s:%s returns too many postings", n.c_str(), esc(t).c_str());
            }
            bool ok = got.size() == L.size();
            for (size_t i = 0; ok && i < L.size(); i++) ok = got[i].first == L[i].doc && got[i].second == L[i].freq;
            CHECK(ok, "postings-read", "read of %s:%s gives %zu postings, expected %zu (or different ones)", n.c_str(), esc(t).c_str(), got.size(), L.size());
        } else if (kind <= 2) {                           // next / skip_to mixed, positions partially read
            FrtTermDocEnum *e = kind == 1 ? td : tp;
            what = kind == 1 ? "skip docs" : "skip positions";
            if (r.chance(1, 2)) e->seek(e, fn, t.c_str());
            else {
                FrtTermEnum *te = ir->terms_from(ir, fn, t.c_str());
                if (te) {
                    struct G2 { FrtTermEnum *t; ~G2() { t->close(t); } } g2{te};
                    if (te->curr_term_len == (int)t.size() && t == te->curr_term && L.size()) { e->seek_te(e, te); count("seek_te"); }
                    else e->seek(e, fn, t.c_str());
                } else e->seek(e, fn, t.c_str());
            }
            size_t at = 0; int last = -1; string trail;
            for (int k = 0; k < 60; k++) {
                bool has;
                if (r.chance(1, 2)) { has = e->next(e); trail += "n "; }
                else {
                    int target = last + 1 + (r.chance(1, 3) ? 0 : r.below(1 + ir->max_doc(ir) / 2));
                    trail += fmt("s%d ", target);
                    while (at < L.size() && L[at].doc < target) at++;
                    has = e->skip_to(e, target);
                    count("skips");
                }
                CHECK(has == (at < L.size()), "postings-skip", "%s:%s [%s] -> %d, expected %d", n.c_str(), esc(t).c_str(), trail.c_str(), (int)has, (int)(at < L.size()));
                if (!has) break;
                CHECK(e->doc_num(e) == L[at].doc && e->freq(e) == L[at].freq, "postings-skip", "%s:%s [%s] -> doc %d freq %d, expected %d freq %d", n.c_str(), esc(t).c_str(), trail.c_str(), e->doc_num(e), e->freq(e), L[at].doc, L[at].freq);
                if (kind == 2) {
                    int np = r.below(L[at].freq + 1);
                    for (int p = 0; p < np; p++) {
                        int x = e->next_position(e);
                        CHECK(x == L[at].pos[p], "postings-position", "%s:%s [%s] doc %d position %d is %d, expected %d", n.c_str(), esc(t).c_str(), trail.c_str(), L[at].doc, p, x, L[at].pos[p]);
                    }
                    trail += fmt("p%d ", np);
                }
                last = L[at].doc; at++;
            }
        } else if (kind == 3) {                           // seek point enumeration
            what = "terms_from";
            vector<string> all;
            { FrtTermEnum *te = ir->terms(ir, fn); if (!te) continue; while (char *x = te->next(te)) all.push_back(x); te->close(te); }
            string from = r.chance(1, 2) ? t : r.chance(1, 2) ? gen_word(r, w.o.vocab * 3) : string(1, (char)(1 + r.below(255)));
            if (r.chance(1, 12)) from = "";
            FrtTermEnum *te;
            int how = r.below(3);
            if (how == 0) te = ir->terms_from(ir, fn, from.c_str());
            else if (how == 1) te = frt_ir_terms_from(ir, SYM(n), from.c_str());
            else { te = ir->terms(ir, fn); te->skip_to(te, from.c_str()); }
            size_t i = std::lower_bound(all.begin(), all.end(), from) - all.begin();
            if (!te) { CHECK(i == all.size(), "terms-from", "terms_from(%s) NULL", esc(from).c_str()); continue; }
            struct G2 { FrtTermEnum *t; ~G2() { t->close(t); } } g2{te};
            if (i == all.size()) { CHECK(!te->curr_term[0] || te->curr_term_len == 0 || !te->next(te), "terms-from", "terms_from(%s) past the last term %s continues at %s", esc(from).c_str(), all.empty() ? "" : esc(all.back()).c_str(), esc(te->curr_term).c_str()); continue; }
            CHECK(all[i] == te->curr_term, "terms-from", "%s terms_from(%s) is at %s, expected %s", n.c_str(), esc(from).c_str(), esc(te->curr_term).c_str(), esc(all[i]).c_str());
            for (i++; i < all.size(); i++) {
                char *x = te->next(te);
                CHECK(x && all[i] == x, "terms-from", "%s after terms_from(%s): %s, expected %s", n.c_str(), esc(from).c_str(), x ? esc(x).c_str() : "end", esc(all[i]).c_str());
                if (r.chance(1, 30)) break;
            }
            if (i == all.size()) CHECK(!te->next(te), "terms-from", "enumeration does not end");
        } else {
            what = "doc_freq / doc with term";
            int df = frt_ir_doc_freq(ir, SYM(n), t.c_str());
            CHECK(df >= (int)L.size() && df <= (int)L.size() + ir->max_doc(ir) - (int)lv.size(), "doc-freq", "doc_freq of %s:%s is %d, %zu live", n.c_str(), esc(t).c_str(), df, L.size());
            FrtTermDocEnum *e = frt_ir_term_docs_for(ir, SYM(n), t.c_str());
            size_t k = 0; while (e->next(e)) { CHECK(k < L.size() && e->doc_num(e) == L[k].doc, "postings-for", "term_docs_for %s:%s wrong at %zu", n.c_str(), esc(t).c_str(), k); k++; }
            e->close(e);
            FrtDocument *dw = frt_ir_get_doc_with_term(ir, SYM(n), t.c_str());
            CHECK(!dw == L.empty(), "doc-with-term", "%s:%s: %zu documents have the term but get_doc_with_term finds %s", n.c_str(), esc(t).c_str(), L.size(), dw ? "one" : "none");
            if (dw) { FrtDocField *f = frt_doc_get_field(dw, SYM("id")); string id = f && f->size ? f->data[0] : "(none)"; frt_doc_destroy(dw); FrtDocument *d0 = ir->get_doc(ir, L[0].doc); f = frt_doc_get_field(d0, SYM("id")); string id0 = f && f->size ? f->data[0] : "(none)"; frt_doc_destroy(d0); CHECK(id == id0, "doc-with-term", "%s:%s: get_doc_with_term gives document %s, the first is %s", n.c_str(), esc(t).c_str(), id.c_str(), id0.c_str()); }
            CHECK(frt_ir_get_field_num(ir, SYM(n)) == fn, "field-num", "get_field_num of %s is wrong", n.c_str());
            CHECK(frt_fis_by_number(ir->fis, fn) == ir->fis->fields[fn] && !frt_fis_by_number(ir->fis, ir->fis->size), "field-num", "fis_by_number(%d) is wrong", fn);
            { int code = guarded([&] { frt_ir_get_field_num(ir, SYM("no such field")); }); CHECK(code == FRT_ARG_ERROR, "field-num", "get_field_num of an unknown field raised %d", code); }
            CHECK(!frt_ir_terms_from(ir, SYM("no such field"), "a") && !frt_ir_terms(ir, SYM("no such field")) && !frt_ir_get_doc_with_term(ir, SYM("no such field"), "a"), "field-num", "an unknown field has terms");
            CHECK(k == L.size(), "postings-for", "term_docs_for %s:%s: %zu of %zu", n.c_str(), esc(t).c_str(), k, L.size());
        }
        count(string("path ") + what);
    }
}

// ------------------------------------------------------------------ histories
struct HOpt { int maxdocs = 60; bool del = true, undel = false, norms = false, reader = true; };
static void history(World &w, const HOpt &h) {
    Rng &r = w.r;
    w.init();
    int ops = r.range(3, 14);
    for (int k = 0; k < ops; k++) {
        int op = r.below(14);
        if (op < 6) w.add(r.chance(1, 6) ? r.range(1, h.maxdocs) : r.range(1, 8));
        else if (op == 6) { if (h.del) w.del_ids(); }
        else if (op == 7) { if (h.del && r.chance(1, 2)) w.del_content(); else if (h.del) w.del_ids(); }
        else if (op == 8) { w.commit(); if (r.chance(1, 2)) w.verify("after commit", w.mask); }
        else if (op == 9) { w.optimize(); if (r.chance(1, 2)) w.verify("after optimize", w.mask); }
        else if (op <= 11) { w.close_writer(); w.reopen_store(); if (r.chance(1, 2)) w.verify("after close", w.mask); }
        else if (h.reader) { w.reader_session(h.undel, h.norms && r.chance(2, 3)); if (r.chance(1, 2)) w.verify("after reader session", w.mask); }
    }
    w.close_writer(); w.reopen_store();
    w.verify("at the end", w.mask);
    if (r.chance(1, 2)) {
        w.optimize();
        if (r.chance(1, 2)) w.verify("optimized, writer open", w.mask);
        CHECK(frt_iw_doc_count(w.iw) == w.live(), "doc-count", "optimized writer counts %d docs, %d live", frt_iw_doc_count(w.iw), w.live());
        w.close_writer(); w.reopen_store();
        w.verify("optimized", w.mask);
    }
    for (auto &t : R.trace) sig(t);
    nontrivial(w.live() > 1 && w.commits > 1);
    sample(fmt("%zu docs (%d live), %ld commits; %s", w.docs.size(), w.live(), w.commits, R.trace.size() > 2 ? R.trace[1].c_str() : ""));
}

MODE(stored) {
    World w(rng, M_ST | M_DL);
    w.o.maxbytes = rng.chance(1, 6) ? 120000 : 3000;
    w.extra = check_lazy;
    HOpt h; h.maxdocs = 25; history(w, h);
}
MODE(postings) {
    World w(rng, M_TM);
    w.o.vocab = rng.chance(1, 3) ? 8 : rng.chance(1, 2) ? 40 : 400; w.o.maxw = rng.chance(1, 3) ? 40 : 10; w.o.maxbytes = 50;
    w.extra = check_postings;
    HOpt h; h.maxdocs = rng.chance(1, 4) ? 300 : 60; history(w, h);
}
MODE(vectors) {
    World w(rng, M_TV);
    w.o.maxw = rng.chance(1, 8) ? 700 : 16; w.o.maxbytes = 50;
    HOpt h; h.maxdocs = w.o.maxw > 100 ? 6 : 30; history(w, h);
}
MODE(deletes) {
    World w(rng, M_TM | M_DL | M_ST);
    w.o.vocab = 15; w.o.maxw = 6; w.o.maxbytes = 20;
    HOpt h; h.undel = true; h.maxdocs = 40; history(w, h);
}
MODE(norms) {
    World w(rng, M_NM);
    w.o.maxbytes = 20;
    HOpt h; h.norms = true; h.maxdocs = 40; history(w, h);
}
