/* Driver of the compiled kernels under a sanitizer: reads one job, runs it with exactly sized buffers, writes the output.
 * The matrix multiplications are done by the instrumented loops below, so that every element a kernel asks BLAS to touch is checked. */
#include <stdint.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <stdbool.h>
#include <complex.h>
typedef double complex Z;
#ifdef COUNT_MEM  /* linked with --wrap: everything the kernels allocate must be given back */
static long live = 0;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) __atomic_fetch_add(&live, 1, __ATOMIC_RELAXED); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); if (p) __atomic_fetch_add(&live, 1, __ATOMIC_RELAXED); return p; }
void *__wrap_realloc(void *q, size_t n) { void *p = __real_realloc(q, n); if (!q && p) __atomic_fetch_add(&live, 1, __ATOMIC_RELAXED); return p; }
void __wrap_free(void *p) { if (p) __atomic_fetch_sub(&live, 1, __ATOMIC_RELAXED); __real_free(p); }
#endif
static Z getel(const Z *a, int ld, int t, size_t i, size_t j) {  /* op(A)[i,j], row major */
    if (t == 111) return a[i * (size_t)ld + j];
    Z x = a[j * (size_t)ld + i];
    return t == 113 ? conj(x) : x;
}
/* what BLAS requires of its arguments */
static void bad(const char *s) { fprintf(stderr, "BLAS-ARG: %s\n", s); abort(); }
void cblas_zgemm(int order, int ta, int tb, int m, int n, int k, const void *alpha, const void *A, int lda, const void *B, int ldb,
                 const void *beta, void *C, int ldc) {
    Z al = *(const Z *)alpha, be = *(const Z *)beta;
    const Z *a = A, *b = B;
    Z *c = C;
    if (m < 0 || n < 0 || k < 0) bad("negative dimension");
    if (order == 102) { /* column major = row major of the transposed problem */
        const Z *x = a; a = b; b = x;
        int q = lda; lda = ldb; ldb = q; q = ta; ta = tb; tb = q; q = m; m = n; n = q;
    } else if (order != 101) bad("order");
    if (lda < (ta == 111 ? (k > 1 ? k : 1) : (m > 1 ? m : 1))) bad("lda");
    if (ldb < (tb == 111 ? (n > 1 ? n : 1) : (k > 1 ? k : 1))) bad("ldb");
    if (ldc < (n > 1 ? n : 1)) bad("ldc");
    for (size_t i = 0; i < (size_t)m; i++)
    for (size_t j = 0; j < (size_t)n; j++) {
        Z s = 0;
        for (size_t p = 0; p < (size_t)k; p++) s += getel(a, lda, ta, i, p) * getel(b, ldb, tb, p, j);
        Z *o = &c[i * (size_t)ldc + j];
        *o = (be == 0 ? 0 : be * *o) + al * s;
    }
}
/* column-major BLAS symbol, should a kernel call it */
void zgemm_(const char *ta, const char *tb, const int *m, const int *n, const int *k, const void *al, const void *A, const int *lda,
            const void *B, const int *ldb, const void *be, void *C, const int *ldc) {
    int x = *ta == 'N' || *ta == 'n' ? 111 : *ta == 'T' || *ta == 't' ? 112 : 113, y = *tb == 'N' || *tb == 'n' ? 111 : *tb == 'T' || *tb == 't' ? 112 : 113;
    cblas_zgemm(102, x, y, *m, *n, *k, al, A, *lda, B, *ldb, be, C, *ldc);
}
__attribute__((weak)) int64_t ao2mo_cderi(int64_t, int64_t, int64_t, int64_t, Z *, Z *, Z *, Z *);
__attribute__((weak)) int64_t j3c_kao2gmo(int64_t, int64_t, int64_t, int64_t, int64_t, int64_t *, int64_t *, Z *, Z *, Z *, Z *, Z *, Z *);
__attribute__((weak)) int64_t j3c_k2gamma(int64_t, int64_t, int64_t, int64_t *, Z *, Z *, bool, double *, double *);
__attribute__((weak)) int64_t transpose_102(int64_t, int64_t, int64_t, Z *, Z *);
__attribute__((weak)) int64_t j3c_jk(int64_t, int64_t, int64_t, int64_t *, Z *, Z *, bool, bool, Z *, Z *);
static void *rd(int64_t *n) { /* one array: byte length, bytes; -1 = NULL */
    int64_t l;
    if (fread(&l, 8, 1, stdin) != 1) exit(9);
    if (n) *n = l;
    if (l < 0) return NULL;
    void *p = malloc(l);  /* zero-sized allocations stay zero-sized: any access is reported */
    if (l && fread(p, 1, l, stdin) != (size_t)l) exit(9);
    return p;
}
static void wr(void *p, int64_t n) { if (p) fwrite(p, 1, n, stdout); }
int main(int argc, char **argv) {
    int64_t n, m, q, *d, r;
    int64_t *f = rd(NULL);
    int64_t fn = f[0];
    free(f);
    d = rd(NULL);
    if (!(fn == 0 ? (void *)ao2mo_cderi : fn == 1 ? (void *)j3c_kao2gmo : fn == 2 ? (void *)j3c_k2gamma : fn == 3 ? (void *)transpose_102 : (void *)j3c_jk)) return 5;
    if (fn == 0) {
        Z *a = rd(NULL), *b = rd(NULL), *c = rd(NULL), *o = rd(&n);
        r = ao2mo_cderi(d[0], d[1], d[2], d[3], a, b, c, o);
        wr(&r, 8); wr(o, n); free(a); free(b); free(c); free(o);
    } else if (fn == 1) {
        int64_t *kc = rd(NULL), *ku = rd(NULL);
        Z *a = rd(NULL), *b = rd(NULL), *c = rd(NULL), *o = rd(&n), *p = rd(&m), *s = rd(&q);
        r = j3c_kao2gmo(d[0], d[1], d[2], d[3], d[4], kc, ku, a, b, c, o, p, s);
        wr(&r, 8); wr(o, n); wr(p, m); wr(s, q); free(kc); free(ku); free(a); free(b); free(c); free(o); free(p); free(s);
    } else if (fn == 2) {
        int64_t *kc = rd(NULL);
        Z *ph = rd(NULL), *c = rd(NULL);
        double *o = rd(&n), *im = rd(NULL);
        r = j3c_k2gamma(d[0], d[1], d[2], kc, ph, c, d[3] != 0, o, im);
        wr(&r, 8); wr(o, n); wr(im, 8); free(kc); free(ph); free(c); free(o); free(im);
    } else if (fn == 3) {
        Z *a = rd(NULL), *o = rd(&n);
        r = transpose_102(d[0], d[1], d[2], a, o);
        wr(&r, 8); wr(o, n); free(a); free(o);
    } else if (fn == 4) {
        int64_t *sl = rd(NULL);
        Z *c = rd(NULL), *dm = rd(NULL), *vj = rd(&n), *vk = rd(&m);
        r = j3c_jk(d[0], d[1], d[2], sl, c, dm, d[3] != 0, d[4] != 0, vj, vk);
        wr(&r, 8); wr(vj, n); wr(vk, m); free(sl); free(c); free(dm); free(vj); free(vk);
    }
    free(d);
#ifdef COUNT_MEM
    if (live) { fprintf(stderr, "LEAK: %ld blocks not freed\n", live); return 7; }
#endif
    return 0;
}
