/* helpers for the demonstrations */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#include <pthread.h>
#include <sys/stat.h>
#include "global.h"
#include "except.h"
#include "hash.h"
#include "hashset.h"
#include "bitvector.h"
#include "priorityqueue.h"
#include "array.h"
#include "mempool.h"
#include "multimapper.h"
#include "similarity.h"
#include "document.h"
#include "store.h"
#include "analysis.h"
#include "index.h"
#include "search.h"
#include "ind.h"
#include "internal.h"
#define EXPECT(c, ...) do { if (!(c)) { printf("BROKEN: " __VA_ARGS__); printf("\n"); exit(1); } } while (0)
static FieldInfos *fis_default(void) { return fis_new(STORE_YES, INDEX_YES, TERM_VECTOR_WITH_POSITIONS_OFFSETS); }
static void create(Store *s) { FieldInfos *f = fis_default(); index_create(s, f); fis_deref(f); }
static IndexWriter *writer(Store *s, const Config *c) { return iw_open(s, whitespace_analyzer_new(false), c); }
static void put(Document *d, const char *f, const char *v) {
    DocField *df = doc_get_field(d, intern(f));
    if (!df) df = doc_add_field(d, df_new(intern(f)));
    df->destroy_data = true; df_add_data(df, estrdup(v));
}
/* fields and values alternating, NULL terminated */
#include <stdarg.h>
static void add(IndexWriter *iw, ...) {
    va_list ap; const char *f; Document *d = doc_new();
    va_start(ap, iw);
    while ((f = va_arg(ap, const char *)) != NULL) put(d, f, va_arg(ap, const char *));
    va_end(ap);
    iw_add_doc(iw, d); doc_destroy(d);
}
static int df_of(IndexReader *ir, const char *f, const char *t) { /* live documents holding the term */
    int n = 0; TermDocEnum *tde = ir_term_docs_for(ir, intern(f), t);
    while (tde->next(tde)) n++;
    tde->close(tde); return n;
}
__attribute__((constructor)) static void demo_init(void) { static const char *av[] = {"demo"}; frt_init(1, av); }
