// C24: what is left behind by operations that report an error. Everything the harness makes is made outside the guarded calls, so that an error skips none of its own cleaning up.
#include "common.h"
#include "model.h"
#include "world.h"
#include "q.h"
#include "corpus.h"
extern "C" {
#include "ind.h"
}
static void put(FrtDocument *d, const char *f, const string &v) { FrtDocField *df = frt_df_new(FRT_I(f)); frt_df_add_data(df, strdup(v.c_str())); df->destroy_data = true; frt_doc_add_field(d, df); }
// One failing call: f must raise (any error), and whatever it returned when it did not is destroyed by g.
struct Errs {
    Rng &r; long n = 0, ok = 0;
    template <class F, class G> bool call(F f, G g) { void *volatile p = nullptr; int e = guarded([&] { p = (void *)f(); }); if (e) n++; else { ok++; if (p) g((void *)p); } return e != 0; }
    template <class F> bool run(F f) { int e = guarded([&] { f(); }); if (e) n++; else ok++; return e != 0; }
};
static void q_free(void *p) { frt_q_deref((FrtQuery *)p); }
static void f_free(void *p) { frt_filt_deref((FrtFilter *)p); }

// queries with many parts and long words: their descriptions, hashes and comparison
static void wide(Rng &r) {
    auto word = [&] { string w; for (int i = r.chance(1, 5) ? r.range(0, 400) : r.range(0, 8); i > 0; i--) w += "ab\"\\ *:"[r.below(7)]; return w; };
    int n = r.chance(1, 3) ? r.range(40, 200) : r.range(0, 40); string fn = r.chance(1, 4) ? string(r.range(30, 300), 'f') : "f"; FrtSymbol f = frt_intern(fn.c_str());
    std::function<FrtQuery *(int)> span = [&](int d) -> FrtQuery * {
        FrtQuery *q; int k = r.below(d > 0 ? 6 : 3), m = r.chance(1, 3) ? n : r.range(1, 4);
        switch (k) {
        case 0: q = frt_spantq_new(f, word().c_str()); break;
        case 1: q = frt_spanmtq_new_conf(f, 512); for (int i = 0; i < n; i++) frt_spanmtq_add_term(q, word().c_str()); break;
        case 2: q = frt_spanprq_new(f, word().c_str()); break;
        case 3: q = frt_spanoq_new(); for (int i = 0; i < m; i++) frt_spanoq_add_clause_nr(q, span(0)); break;
        case 4: q = frt_spannq_new(r.range(0, 1000000), r.chance(1, 2)); for (int i = 0; i < m; i++) frt_spannq_add_clause_nr(q, span(0)); break;
        default: q = r.chance(1, 2) ? frt_spanfq_new_nr(span(0), r.range(0, INT_MAX - 1)) : frt_spanxq_new_nr(span(0), span(0)); }
        if (r.chance(1, 3)) q->boost = r.chance(1, 4) ? 3e38f : 1e-10f; return q; };
    auto one = [&]() -> FrtQuery * {
        FrtQuery *q; switch (r.below(9)) {
        case 0: q = frt_phq_new(f); for (int i = 0; i < n; i++) { frt_phq_add_term(q, word().c_str(), r.chance(1, 10) ? r.range(0, 60) : 1); while (r.chance(1, 5)) frt_phq_append_multi_term(q, word().c_str()); } if (r.chance(1, 2)) frt_phq_set_slop(q, r.range(0, INT_MAX - 1)); break;
        case 1: q = frt_multi_tq_new_conf(f, 512, 0); for (int i = 0; i < n; i++) frt_multi_tq_add_term_boost(q, word().c_str(), r.chance(1, 2) ? 1 : 3e38f); break;
        case 2: { string a = word(), b = word(); if (b < a) std::swap(a, b); if (a == b) b += "z"; q = r.chance(1, 2) ? frt_rq_new(f, a.c_str(), b.c_str(), r.chance(1, 2), r.chance(1, 2)) : frt_csq_new_nr(frt_rfilt_new(f, a.c_str(), b.c_str(), true, false)); break; }
        case 3: q = frt_wcq_new(f, word().c_str()); break; case 4: q = frt_prefixq_new(f, word().c_str()); break; case 5: q = frt_fuzq_new_conf(f, (word() + "x").c_str(), 0.123456f, 3, 100); break;
        case 6: q = frt_fq_new(frt_tq_new(f, word().c_str()), frt_qfilt_new_nr(span(1))); break; case 7: q = frt_tq_new(f, word().c_str()); break;
        default: q = span(2); }
        if (r.chance(1, 3)) q->boost = r.chance(1, 4) ? 3e38f : 1e-10f; return q; };
    FrtQuery *q = one();
    if (r.chance(1, 3)) { FrtQuery *b = frt_bq_new_max(r.chance(1, 2), 1000); frt_bq_add_query_nr(b, q, FRT_BC_MUST); for (int i = 0; i < n / 2; i++) frt_bq_add_query_nr(b, one(), (FrtBCType)r.below(3)); if (r.chance(1, 2)) b->boost = 3e38f; q = b; }
    for (int i = 0; i < 2; i++) { char *s = q->to_s(q, i ? f : frt_intern("other")); sig(strlen(s)); free(s); } sig(frt_q_hash(q)); if (!frt_q_eq(q, q)) sig(1);
    FrtFilter *fl = frt_qfilt_new(q); char *s = fl->to_s(fl); free(s); sig(frt_filt_hash(fl)); frt_filt_deref(fl); frt_q_deref(q);
}
static void q_errors(Errs &E) {
    Rng &r = E.r;
    switch (r.below(10)) {
    case 8: wide(r); E.ok++; break;
    case 0: E.call([&] { return frt_rq_new(FRT_I("a"), NULL, NULL, r.chance(1, 2), r.chance(1, 2)); }, q_free); break;
    case 1: E.call([&] { return r.chance(1, 2) ? frt_rq_new(FRT_I("a"), "z", "b", true, true) : frt_trq_new(FRT_I("n"), "9", "1", true, true); }, q_free); break;
    case 2: E.call([&] { return r.chance(1, 2) ? frt_rfilt_new(FRT_I("a"), "z", "b", true, true) : frt_trfilt_new(FRT_I("a"), NULL, NULL, true, true); }, f_free); break;
    case 3: E.call([&] { return frt_rq_new(FRT_I("a"), r.chance(1, 2) ? NULL : "a", NULL, true, true); }, q_free); break;
    case 4: {   // clauses of different fields, or no span queries at all
        FrtQuery *a = frt_spantq_new(FRT_I("a"), "x"), *b = r.chance(1, 2) ? frt_spantq_new(FRT_I("b"), "x") : frt_tq_new(FRT_I("a"), "x"); int k = r.below(3);
        FrtQuery *s = k == 0 ? frt_spanoq_new() : k == 1 ? frt_spannq_new(1, true) : nullptr;
        if (k == 0) { frt_spanoq_add_clause(s, a); E.run([&] { frt_spanoq_add_clause(s, b); }); } else if (k == 1) { frt_spannq_add_clause(s, a); E.run([&] { frt_spannq_add_clause(s, b); }); }
        else { frt_q_deref(b); b = frt_spantq_new(FRT_I("b"), "x"); E.call([&] { return frt_spanxq_new(a, b); }, q_free); }
        if (s) frt_q_deref(s); frt_q_deref(a); frt_q_deref(b); break; }
    case 5: { FrtQuery *m = nullptr; E.call([&] { return frt_multi_tq_new_conf(FRT_I("a"), -r.range(1, 5), 0.0f); }, q_free); (void)m; break; }
    case 6: { FrtAnalyzer *an = frt_whitespace_analyzer_new(false); FrtQParser *qp = frt_qp_new(an); frt_qp_add_field(qp, FRT_I("a"), true, true); qp->handle_parse_errors = false; qp->clean_str = r.chance(1, 2);
        static const char *bad[] = {"a AND (b", "a:[b", "\"a b", "a:(x y", "AND OR", "a:[z a]", "a~x~", "+ +", "a:b:c:(", "<a|b", "a:{z a}", "*:(x", "x OR (y AND (z", "\"a|b <> c", "a:>"};
        for (int i = 0; i < 3; i++) { const char *s = bad[r.below(sizeof bad / sizeof *bad)]; E.call([&] { return frt_qp_parse(qp, (char *)s); }, q_free); }
        frt_qp_destroy(qp); break; }
    case 7: {   // descriptions of fields with long names and large boosts
        FrtFieldInfos *fis = frt_fis_new(FRT_STORE_COMPRESS, FRT_INDEX_UNTOKENIZED_OMIT_NORMS, FRT_TERM_VECTOR_WITH_POSITIONS_OFFSETS); int n = r.range(1, 30);
        for (int i = 0; i < n; i++) { FrtFieldInfo *fi = frt_fi_new(frt_intern((string(r.chance(1, 4) ? r.below(600) : r.below(40), 'x') + fmt("%d", i)).c_str()), FRT_STORE_COMPRESS, FRT_INDEX_UNTOKENIZED_OMIT_NORMS, FRT_TERM_VECTOR_WITH_POSITIONS_OFFSETS); fi->boost = r.chance(1, 2) ? 3e38f : 1; char *s = frt_fi_to_s(fi); free(s); frt_fis_add_field(fis, fi); }
        char *s = frt_fis_to_s(fis); size_t len = strlen(s); sig(len); free(s); frt_fis_deref(fis); E.ok++; break; }
    default: { FrtMultiMapper *mm = frt_mulmap_new(); E.run([&] { frt_mulmap_add_mapping(mm, "", "x"); }); frt_mulmap_destroy(mm); }
    }
}
static void td_free(void *p) { frt_td_destroy((FrtTopDocs *)p); }
static void search_errors(Errs &E, Corpus &co) {
    Rng &r = E.r; FrtSearcher *se = co.sea; FrtIndexReader *ir = co.ir; int md = ir->max_doc(ir);
    QGen g{r, co.vocab}; g.classes = 7; FrtQuery *q = build(g.gen(r.range(0, 2)));
    switch (r.below(13)) {
    case 9: { int d = r.chance(1, 2) ? md + r.below(50) : -1 - (int)r.below(3); E.call([&] { return se->explain(se, q, d); }, [](void *p) { frt_expl_destroy((FrtExplanation *)p); }); break; }
    case 10: { int d = r.chance(1, 2) ? md + r.below(50) : -1 - (int)r.below(3); E.call([&] { return ir->term_vector(ir, d, FRT_I("a")); }, [](void *p) { frt_tv_destroy((FrtTermVector *)p); }); E.call([&] { return ir->term_vectors(ir, d); }, [](void *p) { frt_h_destroy((FrtHash *)p); });
        volatile bool x; E.run([&] { x = ir->is_deleted(ir, d); }); (void)x; E.call([&] { return frt_searcher_highlight(se, q, d, FRT_I("a"), 20, 2, "<", ">", ".."); }, [](void *p) { frt_ary_destroy_i((void **)p, &free); }); break; }
    case 11: case 12: {   // many indexes searched as one
        FrtSearcher **ss = FRT_ALLOC_N(FrtSearcher *, 2); ss[0] = frt_isea_new(frt_ir_open(co.w.store)); ss[1] = frt_isea_new(frt_ir_open(co.w.store)); FrtSearcher *ms = frt_msea_new(ss, 2, true);
        int d = r.chance(1, 2) ? 2 * md + r.below(50) : -1 - (int)r.below(3);
        switch (r.below(6)) {
        case 0: E.call([&] { return ms->get_doc(ms, d); }, [](void *p) { frt_doc_destroy((FrtDocument *)p); }); break;
        case 1: E.call([&] { return ms->get_lazy_doc(ms, d); }, [](void *p) { frt_lazy_doc_close((FrtLazyDoc *)p); }); break;
        case 2: E.call([&] { return ms->explain(ms, q, d); }, [](void *p) { frt_expl_destroy((FrtExplanation *)p); }); break;
        case 3: E.call([&] { return ms->search(ms, q, -1, 10, NULL, NULL, NULL, false); }, td_free); E.call([&] { return ms->search(ms, q, 0, 0, NULL, NULL, NULL, false); }, td_free); break;
        case 4: { FrtSort *s = frt_sort_new(); frt_sort_add_sort_field(s, frt_sort_field_int_new(FRT_I("no_such"), false)); E.call([&] { return ms->search(ms, q, 0, 10, NULL, s, NULL, false); }, td_free); frt_sort_destroy(s); break; }
        default: E.call([&] { return frt_searcher_highlight(ms, q, d, FRT_I("a"), 20, 2, "<", ">", ".."); }, [](void *p) { frt_ary_destroy_i((void **)p, &free); }); E.call([&] { return ms->get_term_vector(ms, d, FRT_I("a")); }, [](void *p) { frt_tv_destroy((FrtTermVector *)p); });
        }
        ms->close(ms); break; }
    case 0: E.call([&] { return se->search(se, q, -1, 10, NULL, NULL, NULL, false); }, td_free); break;
    case 1: E.call([&] { return se->search(se, q, 0, 0, NULL, NULL, NULL, false); }, td_free); break;
    case 2: { FrtSort *s = frt_sort_new(); frt_sort_add_sort_field(s, frt_sort_field_int_new(FRT_I("no_such"), false)); FrtFilter *f = r.chance(1, 2) ? frt_rfilt_new(FRT_I("k"), "a", "c", true, true) : nullptr;
        E.call([&] { return se->search(se, q, 0, 10, f, s, NULL, false); }, td_free); if (f) frt_filt_deref(f); frt_sort_destroy(s); break; }
    case 3: { int d = r.chance(1, 2) ? md + r.below(50) : -1 - (int)r.below(3); E.call([&] { return ir->get_doc(ir, d); }, [](void *p) { frt_doc_destroy((FrtDocument *)p); }); break; }
    case 4: { int d = -1; for (int i = 0; i < md; i++) if (ir->is_deleted(ir, i)) d = i; if (d < 0) break; if (r.chance(1, 2)) E.call([&] { return ir->get_doc(ir, d); }, [](void *p) { frt_doc_destroy((FrtDocument *)p); }); else E.call([&] { return ir->get_lazy_doc(ir, d); }, [](void *p) { frt_lazy_doc_close((FrtLazyDoc *)p); }); break; }
    case 5: { int d = md + r.below(50); E.call([&] { return ir->get_lazy_doc(ir, d); }, [](void *p) { frt_lazy_doc_close((FrtLazyDoc *)p); }); break; }
    case 6: if (md) { int d = r.below(md); if (ir->is_deleted(ir, d)) break; FrtLazyDoc *ld = ir->get_lazy_doc(ir, d); if (ld->size) { FrtLazyDocField *lf = ld->fields[r.below(ld->size)]; char buf[16]; E.run([&] { frt_lazy_df_get_bytes(lf, buf, r.chance(1, 2) ? -1 : lf->len, r.chance(1, 2) ? 1 : -1); }); } frt_lazy_doc_close(ld); } break;
    case 7: { FrtTermDocEnum *td = ir->term_docs(ir); E.run([&] { volatile int x = td->doc_num(td); (void)x; }); td->close(td); break; }
    default: { FrtSort *s = frt_sort_new(); E.run([&] { FrtSortField *f = frt_sort_field_new(FRT_I("a"), (SortType)77, false); frt_sort_add_sort_field(s, f); }); frt_sort_destroy(s); }
    }
    frt_q_deref(q);
}
static void iw_free(void *p) { frt_iw_close((FrtIndexWriter *)p); }
static void ir_free(void *p) { frt_ir_close((FrtIndexReader *)p); }
static void index_errors(Errs &E, FrtStore *st) {
    Rng &r = E.r;
    switch (r.below(8)) {
    case 0: {   // the lock is held
        FrtAnalyzer *a = frt_whitespace_analyzer_new(false); FrtIndexWriter *iw = frt_iw_open(st, frt_whitespace_analyzer_new(false), NULL);
        E.call([&] { FRT_REF(a); return frt_iw_open(st, a, NULL); }, iw_free); frt_a_deref(a);
        if (r.chance(1, 2)) { FrtIndexReader *ir = frt_ir_open(st); if (ir->max_doc(ir)) E.run([&] { frt_ir_delete_doc(ir, 0); }); if (ir->max_doc(ir)) E.run([&] { frt_ir_set_norm(ir, 0, FRT_I("a"), 3); }); E.run([&] { frt_ir_undelete_all(ir); }); frt_ir_close(ir); }
        frt_iw_close(iw); break; }
    case 1: {   // no index there
        FrtStore *e = frt_open_ram_store(); E.call([&] { return frt_ir_open(e); }, ir_free); E.call([&] { return frt_iw_open(e, frt_whitespace_analyzer_new(false), NULL); }, iw_free); frt_store_deref(e); break; }
    case 2: {   // a reader that is out of date
        FrtIndexReader *ir = frt_ir_open(st); FrtIndexWriter *iw = frt_iw_open(st, frt_whitespace_analyzer_new(false), NULL); FrtDocument *d = frt_doc_new(); put(d, "a", "stale x"); frt_iw_add_doc(iw, d); frt_doc_destroy(d); frt_iw_close(iw);
        E.run([&] { if (ir->max_doc(ir)) frt_ir_delete_doc(ir, 0); else frt_ir_undelete_all(ir); }); if (ir->max_doc(ir)) E.run([&] { frt_ir_set_norm(ir, 0, FRT_I("a"), 3); }); frt_ir_close(ir); break; }
    case 3: { FrtDocument *d = frt_doc_new(); put(d, "a", "x"); FrtDocField *f = frt_df_new(FRT_I("a")); E.run([&] { frt_doc_add_field(d, f); }); frt_df_destroy(f); frt_doc_destroy(d); break; }
    case 4: E.call([&] { return frt_fi_new(FRT_I("f"), FRT_STORE_NO, FRT_INDEX_NO, FRT_TERM_VECTOR_YES); }, [](void *p) { frt_fi_deref((FrtFieldInfo *)p); });
        E.call([&] { return frt_fis_new(FRT_STORE_NO, FRT_INDEX_NO, FRT_TERM_VECTOR_YES); }, [](void *p) { frt_fis_deref((FrtFieldInfos *)p); }); break;
    case 5: {   // more than one document with the key
        FrtHashSet *df = frt_hs_new_ptr(NULL); frt_hs_add(df, (void *)FRT_I("a")); FrtIndex *ix = frt_index_new(NULL, NULL, df, true); frt_hs_destroy(df);
        for (int i = 0; i < 2; i++) { FrtDocument *d = frt_doc_new(); put(d, "id", "1"); put(d, "k", "2"); frt_index_add_doc(ix, d); frt_doc_destroy(d); }
        ix->key = frt_hs_new_ptr(NULL); frt_hs_add(ix->key, (void *)FRT_I("id")); frt_hs_add(ix->key, (void *)FRT_I("k")); FrtDocument *d = frt_doc_new(); put(d, "id", "1"); put(d, "k", "2"); E.run([&] { frt_index_add_doc(ix, d); }); frt_doc_destroy(d);
        E.call([&] { return frt_index_get_doc_ts(ix, 9); }, [](void *p) { frt_doc_destroy((FrtDocument *)p); }); string q = "a:x"; FrtTopDocs *volatile td = nullptr; E.run([&] { td = frt_index_search_str(ix, (char *)q.c_str(), -3, 10, NULL, NULL, NULL); }); if (td) frt_td_destroy(td);
        frt_index_destroy(ix); break; }
    case 6: {   // numbers no document has
        FrtIndexReader *ir = frt_ir_open(st); int d = ir->max_doc(ir) + r.below(3); E.run([&] { frt_ir_set_norm(ir, d, FRT_I("a"), 3); }); E.run([&] { frt_ir_delete_doc(ir, d); }); frt_ir_close(ir); break; }
    default: {  // files
        E.call([&] { return st->open_input(st, "_nope.frq"); }, [](void *p) { frt_is_close((FrtInStream *)p); }); E.run([&] { st->rename(st, "_no.x", "_no.y"); });
        E.call([&] { return frt_open_cmpd_store(st, "_nope.cfs"); }, [](void *p) { frt_store_deref((FrtStore *)p); });
        FrtOutStream *os = st->new_output(st, "_t1.tmp"); frt_os_write_vint(os, 7); frt_os_close(os); FrtInStream *is = st->open_input(st, "_t1.tmp"); E.run([&] { for (int i = 0; i < 3; i++) frt_is_read_u32(is); }); E.call([&] { return frt_is_read_string(is); }, free); frt_is_close(is);
        E.run([&] { frt_store_deref(frt_open_cmpd_store(st, "_t1.tmp")); });
        FrtCompoundWriter *cw = frt_open_cw(st, (char *)"_t1.cfs"); frt_cw_add_file(cw, (char *)"_t1.tmp"); E.run([&] { frt_cw_add_file(cw, (char *)"_t1.tmp"); }); frt_cw_close(cw);
        FrtStore *cs = frt_open_cmpd_store(st, "_t1.cfs"); E.call([&] { return cs->open_input(cs, "_none.x"); }, [](void *p) { frt_is_close((FrtInStream *)p); }); E.run([&] { cs->touch(cs, "x"); }); E.call([&] { return cs->new_output(cs, "x"); }, [](void *p) { frt_os_close((FrtOutStream *)p); }); E.run([&] { frt_close_lock(frt_open_lock(cs, "l")); });
        FrtInStream *ci = cs->open_input(cs, "_t1.tmp"); E.run([&] { for (int i = 0; i < 3; i++) frt_is_read_u64(ci); }); frt_is_close(ci); frt_store_deref(cs); st->remove(st, "_t1.tmp"); st->remove(st, "_t1.cfs"); }
    }
}
MODE(mem_errors) {
    Corpus co(rng, 20, 12, true); Errs E{rng}; int n = rng.range(2, 8);
    for (int i = 0; i < n; i++) switch (rng.below(3)) { case 0: q_errors(E); break; case 1: search_errors(E, co); break; default: index_errors(E, co.w.store); }
    sig(E.n); sig(E.ok); sig(co.vocab); count("errors_raised", E.n); count("calls_that_succeeded", E.ok); nontrivial(E.n > 0);
}
