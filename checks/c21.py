"""C21 arrays: every operation sequence up to a depth on two arrays of every small shape, step by step against a plain matrix; lattice of initialisations; element positions of large arrays."""
from mc import cbuild, drive
from mc.core import Harness

LATTICE = r'''
#include <eml_array.h>
#include <sys/mman.h>
typedef __int128 big;
static const int32_t D[] = { INT32_MIN, -1, 0, 1, 2, 3, 5, 255, 256, 32767, 32768, 46341, 65535, 65536, 65537, 2147483647 };
static const int VS[] = { -128, -2, -1, 0, 1, 2, 3, 4, 8, 127 };
#define N(a) (int)(sizeof(a)/sizeof(a[0]))
static void one(int n, const int32_t *dims_in, int vs, size_t len) {
    EmlArray a; memset(&a, 0x5c, sizeof a); EmlArray before = a;
    int32_t *dims = mc_buf(sizeof(int32_t)*(n > 0 ? n : 1));
    for (int i=0; i<(n > 0 ? n : 1); i++) dims[i] = dims_in[i];
    int32_t copy[8]; memcpy(copy, dims, sizeof(int32_t)*(n > 0 ? n : 1));
    static uint8_t buffer[16];
    EmlError e = eml_array_init_full(&a, (int8_t)n, dims, (int8_t)vs, buffer, len);
    mc_states++; mc_transitions++; mc_traces++;
    int ok = n >= 1 && n <= 3 && vs >= 1, zero = 0;
    big p = 1;
    for (int i=0; ok && i<n; i++) { if (dims[i] < (i == 0 ? 1 : 0)) ok = 0; if (dims[i] == 0) zero = 1; p *= dims[i]; }
    int fits = ok && p*vs <= (big)len;
    if (memcmp(copy, dims, sizeof(int32_t)*(n > 0 ? n : 1))) mc_fail("init:dimensions-changed", "n=%d", n);
    char what[200]; snprintf(what, sizeof what, "n=%d dims=%d,%d,%d value_size=%d buffer=%zu", n, copy[0], n > 1 ? copy[1] : -1, n > 2 ? copy[2] : -1, vs, len);
    if (e == EmlOk) {
        if (!fits) mc_fail("init:accepted", "%s", what);
        else {
            if (a.n_dims != n || a.value_size != vs || a.data != buffer) mc_fail("init:fields", "%s", what);
            for (int i=0; i<n; i++) if (a.dims[i] != dims[i]) mc_fail("init:dims", "%s", what);
            if (eml_array_storage_size(&a) != (size_t)(p*vs)) mc_fail("init:storage-size", "%s got %zu", what, eml_array_storage_size(&a));
        }
    } else {
        if (fits && !zero) mc_fail("init:refused", "%s", what);
        if (memcmp(&a, &before, sizeof a)) mc_fail("init:refused-but-changed", "%s", what);
    }
    free(dims);
}
int main(int argc, char **argv) {
    int part = atoi(argv[1]), parts = atoi(argv[2]), k = 0;
    for (int n=-1; n<=5; n++) for (int v=0; v<N(VS); v++)
    for (int i=0; i<N(D); i++) for (int j=0; j<(n >= 2 ? N(D) : 1); j++) for (int l=0; l<(n >= 3 ? N(D) : 1); l++) {
        if (k++ % parts != part) continue;
        int32_t d[8] = { D[i], D[j], D[l], 1, 1, 1, 1, 1 };
        big p = VS[v]; for (int q=0; q<n && q<3; q++) p *= d[q];
        size_t lens[] = { 0, 1, 2, 16, 1000, INT64_MAX, (size_t)INT32_MAX, (size_t)UINT32_MAX+1, (size_t)p, (size_t)p-1, (size_t)p+1, (size_t)(p/2), (size_t)(uint32_t)p, (size_t)(uint16_t)p };
        for (int q=0; q<N(lens); q++) if (lens[q] <= INT64_MAX) one(n, d, VS[v], lens[q]); // no object is larger
    }
    if (part == 0) {
        /* element positions: unique, inside, in row order, also beyond 2^31 and 2^32 bytes */
        size_t space = (size_t)20 << 30;
        uint8_t *base = mmap(NULL, space, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
        if (base == MAP_FAILED) { fprintf(stderr, "mmap"); return 77; }
        static const int32_t S[][3] = { {1,1,1}, {1,7,2}, {7,1,4}, {3,5,1}, {255,257,2}, {46341,46341,1}, {65536,32768,1}, {65536,65536,2}, {70000,70000,4}, {1,2147483647,8}, {2147483647,1,8}, {2147483647,2,4}, {2,2147483647,4}, {1000003,4001,4}, {100,21474837,1}, {16,134217728,2}, {3,3,127} };
        for (int s=0; s<N(S); s++) {
            EmlArray a; int32_t d[3] = { S[s][0], S[s][1], 0 };
            EmlError e = eml_array_init_full(&a, 2, d, S[s][2], base, space);
            if (e != EmlOk) { mc_fail("position:init", "%d x %d x %d", d[0], d[1], S[s][2]); continue; }
            int64_t C[] = { 0, 1, 2, d[0]/2, d[0]-2, d[0]-1, d[0], (int64_t)d[0]+1, -1, INT32_MAX, INT32_MIN };
            int64_t R[] = { 0, 1, 2, d[1]/2, d[1]/3, d[1]-2, d[1]-1, d[1], (int64_t)d[1]+1, -1, INT32_MAX, INT32_MIN };
            for (int i=0; i<N(C); i++) for (int j=0; j<N(R); j++) {
                if (C[i] > INT32_MAX || R[j] > INT32_MAX || C[i] < INT32_MIN) continue;
                uint8_t *p = eml_array_data_2d(&a, (int)C[i], (int)R[j]);
                mc_states++; mc_transitions++; mc_traces++;
                int in = C[i] >= 0 && C[i] < d[0] && R[j] >= 0 && R[j] < d[1];
                uint8_t *exp = in ? base + ((size_t)R[j]*d[0]+C[i])*S[s][2] : NULL;
                if (p != exp) mc_fail("position", "%d x %d, value size %d: column %d row %d at %p, expected %p", d[0], d[1], S[s][2], (int)C[i], (int)R[j], (void *)p, (void *)exp);
            }
        }
        /* other numbers of dimensions have no 2d elements */
        for (int n=1; n<=3; n+=2) {
            EmlArray a; int32_t d[3] = { 2, 2, 2 }; uint8_t b[8] = {0}; float sum = 123;
            eml_array_init_full(&a, n, d, 1, b, 8);
            mc_states++; mc_transitions += 6; mc_traces++;
            if (eml_array_data_2d(&a, 0, 0)) mc_fail("position:dimensions", "n=%d", n);
            if (eml_array_fill(&a, 1) == EmlOk || eml_array_sum(&a, &sum) == EmlOk || eml_array_shift_rows(&a, -1) == EmlOk || eml_array_copy_rows(&a, 0, &a) == EmlOk || eml_array_append(&a, &a) == EmlOk) mc_fail("dimensions-accepted", "n=%d", n);
            for (int i=0; i<8; i++) if (b[i]) mc_fail("dimensions-changed", "n=%d", n);
        }
        /* the initialisation macro, also with expressions as arguments */
        { int16_t v[6] = {1,2,3,4,5,6}; EmlArray a; memset(&a, 0, sizeof a); int r = 1; EML_ARRAY_INIT_2D(&a, 3, r+1, v);
          mc_states++; mc_transitions++; mc_traces++;
          int16_t *p = eml_array_data_2d(&a, 2, 1); if (!p || *p != 6 || a.value_size != 2) mc_fail("macro", "INIT_2D(3, r+1)"); }
        { int32_t v[6] = {1,2,3,4,5,6}; EmlArray a; memset(&a, 0, sizeof a); int q = 1; EML_ARRAY_INIT_2D(&a, 1+q, q ? 3 : 1, v);
          mc_states++; mc_transitions++; mc_traces++;
          int32_t *p = eml_array_data_2d(&a, 1, 2); if (!p || *p != 6 || a.value_size != 4) mc_fail("macro", "INIT_2D(1+q, q ? 3 : 1)"); }
    }
    return mc_end();
}
'''

HISTORY = r'''
#include <eml_array.h>
#define MAXV 24
typedef struct { int cols, rows, vs; int ok; int64_t v[MAXV]; } Model;
static int DEPTH;
static int shapes[2][3];
static EmlArray A[2]; static uint8_t *B[2]; static size_t L[2];
static int64_t get(const uint8_t *p, int vs) { int64_t v = 0; if (vs == 1) { int8_t x; memcpy(&x, p, 1); v = x; } if (vs == 2) { int16_t x; memcpy(&x, p, 2); v = x; } if (vs == 4) { int32_t x; memcpy(&x, p, 4); v = x; } if (vs == 3) { v = (int8_t)p[2]; v = v*65536 + p[1]*256 + p[0]; } return v; }
static void put(uint8_t *p, int vs, int64_t v) { for (int i=0; i<vs; i++) p[i] = (uint8_t)((uint64_t)v >> (8*i)); }
static char trail[12][40];
static const char *history(int n) { static char s[600]; s[0] = 0; for (int i=0; i<n; i++) { strcat(s, trail[i]); strcat(s, "; "); } return s; }
static void check(const Model *m, int depth, const char *key) {
    for (int a=0; a<2; a++) {
        if (A[a].n_dims != 2 || A[a].dims[0] != m[a].cols || A[a].dims[1] != m[a].rows || A[a].value_size != m[a].vs || A[a].data != B[a]) mc_fail(key, "array %d: shape changed after %s", a, history(depth));
        for (int r=0; r<m[a].rows; r++) for (int c=0; c<m[a].cols; c++) {
            int64_t got = get(B[a] + (size_t)(r*m[a].cols+c)*m[a].vs, m[a].vs);
            if (got != m[a].v[r*m[a].cols+c]) { mc_fail(key, "array %d (%dx%d size %d) row %d column %d: got %ld expected %ld after %s", a, m[a].cols, m[a].rows, m[a].vs, r, c, (long)got, (long)m[a].v[r*m[a].cols+c], history(depth)); return; }
        }
    }
}
static void step(const Model *m, int depth);
static void next(const Model *n, int depth, const char *key) {
    mc_transitions++; check(n, depth, key);
    if (mc_failures < 40) step(n, depth);
}
static void save(uint8_t s[2][MAXV*8]) { for (int a=0; a<2; a++) memcpy(s[a], B[a], L[a]); }
static void restore(uint8_t s[2][MAXV*8]) { for (int a=0; a<2; a++) memcpy(B[a], s[a], L[a]); }
static void step(const Model *m, int depth) {
    mc_states++;
    if (depth == DEPTH) { mc_traces++; return; }
    uint8_t s[2][MAXV*8]; save(s);
    EmlArray S[2] = { A[0], A[1] };
#define UNDO() do { restore(s); A[0] = S[0]; A[1] = S[1]; } while (0)
    for (int a=0; a<2; a++) {
        const Model *x = &m[a]; int o = 1-a; Model n[2];
        /* shift rows */
        for (int k=-x->rows-2; k<=2; k++) {
            snprintf(trail[depth], 40, "shift(%d,%d)", a, k);
            EmlError e = eml_array_shift_rows(&A[a], k);
            memcpy(n, m, sizeof n);
            if (k > x->rows || k < -x->rows) { if (e == EmlOk) mc_fail("shift:accepted", "%s", history(depth+1)); }
            else if (k <= 0) {
                if (e != EmlOk) mc_fail("shift:refused", "%s error %d", history(depth+1), e);
                for (int i=0; i<(x->rows+k)*x->cols; i++) n[a].v[i] = x->v[i-k*x->cols];
            } else if (e == EmlOk) mc_fail("shift:forward-accepted", "%s", history(depth+1));
            next(n, depth+1, "shift"); UNDO();
        }
        /* copy rows of the other array, and of an array like it */
        for (int st=-2; st<=x->rows+1; st++) {
            snprintf(trail[depth], 40, "copy(%d,%d)", a, st);
            EmlError e = eml_array_copy_rows(&A[a], st, &A[o]);
            memcpy(n, m, sizeof n);
            int fits = st >= 0 && m[o].cols == x->cols && m[o].vs == x->vs && st+m[o].rows <= x->rows;
            if (fits != (e == EmlOk)) mc_fail(fits ? "copy:refused" : "copy:accepted", "%s error %d (%dx%d:%d to %dx%d:%d)", history(depth+1), e, m[o].cols, m[o].rows, m[o].vs, x->cols, x->rows, x->vs);
            if (fits) for (int i=0; i<m[o].rows*x->cols; i++) n[a].v[st*x->cols+i] = m[o].v[i];
            next(n, depth+1, "copy"); UNDO();
        }
        { snprintf(trail[depth], 40, "copy(%d,huge)", a);
          EmlError e = eml_array_copy_rows(&A[a], INT32_MAX, &A[o]); if (e == EmlOk && m[o].rows) mc_fail("copy:huge-accepted", "%s", history(depth+1)); check(m, depth+1, "copy:huge"); mc_transitions++; UNDO(); }
        /* set each element */
        for (int r=-1; r<=x->rows; r++) for (int c=-1; c<=x->cols; c++) {
            int in = r >= 0 && r < x->rows && c >= 0 && c < x->cols;
            snprintf(trail[depth], 40, "set(%d,%d,%d)", a, c, r);
            uint8_t *p = eml_array_data_2d(&A[a], c, r);
            if (in != (p != NULL)) { mc_fail("element", "%s", history(depth+1)); continue; }
            if (!in) { mc_transitions++; continue; }
            if (depth && (r+c) % 2) continue;
            memcpy(n, m, sizeof n); n[a].v[r*x->cols+c] = x->vs == 1 ? -77 : -12345;
            put(p, x->vs, n[a].v[r*x->cols+c]);
            next(n, depth+1, "set"); UNDO();
        }
        /* fill and sum */
        static const float F[] = { 0, 1, -3, 32767, -32768, 2.75f, -0.5f };
        for (int f=0; f<7; f++) {
            if (depth && f > 1 && f < 6) continue;
            snprintf(trail[depth], 40, "fill(%d,%g)", a, F[f]);
            EmlError e = eml_array_fill(&A[a], F[f]);
            memcpy(n, m, sizeof n);
            if (x->vs == 2) { if (e != EmlOk) mc_fail("fill:refused", "%s", history(depth+1)); }
            if (e == EmlOk) { for (int i=0; i<x->rows*x->cols; i++) n[a].v[i] = (int16_t)F[f]; }
            next(n, depth+1, "fill"); UNDO();
        }
        { snprintf(trail[depth], 40, "sum(%d)", a);
          float sum = 123.5f; EmlError e = eml_array_sum(&A[a], &sum); int64_t t = 0; for (int i=0; i<x->rows*x->cols; i++) t += x->v[i];
          if (x->vs == 2 && e != EmlOk) mc_fail("sum:refused", "%s", history(depth+1));
          if (e == EmlOk && sum != (float)t) mc_fail("sum", "got %g expected %ld after %s", sum, (long)t, history(depth+1));
          if (e != EmlOk && sum != 123.5f) mc_fail("sum:refused-but-changed", "%s", history(depth+1));
          check(m, depth+1, "sum"); mc_transitions++; }
        { snprintf(trail[depth], 40, "append(%d)", a);
          EmlError e = eml_array_append(&A[a], &A[o]); if (e == EmlOk) mc_fail("append", "reports success"); check(m, depth+1, "append"); mc_transitions++; UNDO(); }
        /* initialise again: refused changes nothing, accepted keeps the data in place */
        { snprintf(trail[depth], 40, "init(%d,too big)", a);
          int32_t d[3] = { x->cols, x->rows+1, 0 };
          if (eml_array_init_full(&A[a], 2, d, x->vs, B[a], L[a]) == EmlOk) mc_fail("init:too-big-accepted", "%s", history(depth+1));
          check(m, depth+1, "init:too-big"); mc_transitions++; UNDO(); }
    }
}
int main(int argc, char **argv) {
    DEPTH = atoi(argv[1]);
    for (int a=0; a<2; a++) for (int i=0; i<3; i++) shapes[a][i] = atoi(argv[2+3*a+i]);
    Model m[2]; memset(m, 0, sizeof m);
    for (int a=0; a<2; a++) {
        m[a].cols = shapes[a][0]; m[a].rows = shapes[a][1]; m[a].vs = shapes[a][2];
        L[a] = (size_t)m[a].cols*m[a].rows*m[a].vs; B[a] = mc_buf(L[a]);
        int32_t d[2] = { m[a].cols, m[a].rows };
        EmlError e = eml_array_init_full(&A[a], 2, d, m[a].vs, B[a], L[a]);
        if (e != EmlOk && m[a].rows) { mc_fail("init:refused", "%d x %d", m[a].cols, m[a].rows); return mc_end(); }
        if (e != EmlOk) return mc_end();
        for (int i=0; i<m[a].cols*m[a].rows; i++) { m[a].v[i] = (a ? -50 : 10)+i*(m[a].vs == 1 ? 1 : 257)+(m[a].vs > 2 ? 70000 : 0); put(B[a]+(size_t)i*m[a].vs, m[a].vs, m[a].v[i]); }
    }
    check(m, 0, "init");
    step(m, 0);
    return mc_end();
}
'''

SUM = r'''
#include <math.h>
#include <eml_array.h>
int main(void) {
    /* fill and sum over a ladder of shapes */
    for (int cols=1; cols<=300; cols = cols < 20 ? cols+1 : cols*3/2) for (int rows=0; rows<=300; rows = rows < 20 ? rows+1 : rows*3/2) {
        size_t n = (size_t)cols*rows; int16_t *b = mc_buf(n*2); EmlArray a; int32_t d[2] = { cols, rows };
        if (eml_array_init_full(&a, 2, d, 2, (uint8_t *)b, n*2) != EmlOk) { if (rows) mc_fail("ladder:init", "%dx%d", cols, rows); free(b); continue; }
        mc_states++; mc_transitions += 4; mc_traces++;
        float s = -1;
        if (eml_array_fill(&a, -7) != EmlOk || eml_array_sum(&a, &s) != EmlOk || s != -7.0f*n) mc_fail("ladder:fill-sum", "%dx%d sum %g", cols, rows, s);
        for (size_t i=0; i<n; i++) { if (b[i] != -7) { mc_fail("ladder:fill", "%dx%d at %zu", cols, rows, i); break; } b[i] = (int16_t)(i % 251 == 0 ? 1 : 0); }
        long t = 0; for (size_t i=0; i<n; i++) t += b[i];
        if (eml_array_sum(&a, &s) != EmlOk || s != (float)t) mc_fail("ladder:sum", "%dx%d sum %g expected %ld", cols, rows, s, t);
        for (size_t i=0; i<n; i++) b[i] = (int16_t)i;
        int k = rows/3;
        if (eml_array_shift_rows(&a, -k) != EmlOk) mc_fail("ladder:shift", "%dx%d", cols, rows);
        for (size_t i=0; i<(size_t)(rows-k)*cols; i++) if (b[i] != (int16_t)(i+(size_t)k*cols)) { mc_fail("ladder:shift", "%dx%d at %zu", cols, rows, i); break; }
        if (rows > 1) {
            int16_t *q = mc_buf(2*(size_t)cols*k); EmlArray o; int32_t e[2] = { cols, k };
            if (k && eml_array_init_full(&o, 2, e, 2, (uint8_t *)q, 2*(size_t)cols*k) == EmlOk) {
                for (int i=0; i<cols*k; i++) q[i] = (int16_t)(-i);
                if (eml_array_copy_rows(&a, rows-k, &o) != EmlOk) mc_fail("ladder:copy", "%dx%d", cols, rows);
                for (int i=0; i<cols*k; i++) if (b[(size_t)(rows-k)*cols+i] != (int16_t)(-i)) { mc_fail("ladder:copy", "%dx%d at %d", cols, rows, i); break; }
            }
            free(q);
        }
        free(b);
    }
    /* long rows, and many rows */
    static const int big[][2] = { {40000, 3}, {70001, 2}, {3, 40000}, {2, 70001}, {300, 300}, {65536, 2}, {2, 65536}, {32768, 3} };
    for (unsigned g=0; g<sizeof big/sizeof *big; g++) for (int vs=1; vs<=4; vs*=2) {
        const int cols = big[g][0], rows = big[g][1];
        const size_t n = (size_t)cols*rows*vs; uint8_t *b = mc_buf(n), *q = mc_buf(n), *want = malloc(n); EmlArray a, o; int32_t d[2] = { cols, rows };
        mc_states++; mc_transitions += 6; mc_traces++;
        if (eml_array_init_full(&a, 2, d, vs, b, n) != EmlOk) { mc_fail("big:init", "%dx%d of %d", cols, rows, vs); continue; }
        if (eml_array_storage_size(&a) != n) mc_fail("big:size", "%dx%d of %d", cols, rows, vs);
        for (size_t i=0; i<n; i++) { b[i] = (uint8_t)(i*31+i/251); want[i] = b[i]; }
        const int corner[][2] = { {0, 0}, {cols-1, 0}, {0, rows-1}, {cols-1, rows-1}, {cols/2, rows/2} };
        for (int k=0; k<5; k++) if (eml_array_data_2d(&a, corner[k][0], corner[k][1]) != b + ((size_t)corner[k][1]*cols+corner[k][0])*vs) mc_fail("big:position", "%dx%d of %d at %d,%d", cols, rows, vs, corner[k][0], corner[k][1]);
        const int sh[] = { 1, rows/2, rows-1 };
        for (int k=0; k<3; k++) { if (eml_array_shift_rows(&a, -sh[k]) != EmlOk) mc_fail("big:shift", "%dx%d of %d by %d", cols, rows, vs, sh[k]);
            memmove(want, want+(size_t)sh[k]*cols*vs, (size_t)(rows-sh[k])*cols*vs);
            if (memcmp(b, want, (size_t)(rows-sh[k])*cols*vs)) mc_fail("big:shift", "%dx%d of %d by %d", cols, rows, vs, sh[k]);
            memcpy(want, b, n); }
        for (int m=1; m<=rows; m = m < rows && 2*m > rows ? rows : 2*m) { int32_t e[2] = { cols, m }; mc_transitions++;
            for (size_t i=0; i<n; i++) q[i] = (uint8_t)(i*17+m+i/509);
            if (eml_array_init_full(&o, 2, e, vs, q, (size_t)m*cols*vs) != EmlOk || eml_array_copy_rows(&a, rows-m, &o) != EmlOk) mc_fail("big:copy", "%dx%d of %d, %d rows", cols, rows, vs, m);
            memcpy(want+(size_t)(rows-m)*cols*vs, q, (size_t)m*cols*vs);
            if (memcmp(b, want, n)) mc_fail("big:copy", "%dx%d of %d, %d rows", cols, rows, vs, m); }
        if (vs == 2) { static const int16_t vals[] = { 32767, -32768, 1, -1, 12345 };
            for (int k=0; k<5; k++) { float s = 0; mc_transitions += 2; const double exact = (double)vals[k]*cols*rows;
                if (eml_array_fill(&a, vals[k]) != EmlOk || eml_array_sum(&a, &s) != EmlOk || fabs(s-exact) > 0.005*fabs(exact)) mc_fail("big:sum", "%dx%d filled with %d: %g not %g", cols, rows, vals[k], s, exact);
                for (size_t i=0; i<n/2; i++) if (((int16_t *)b)[i] != vals[k]) { mc_fail("big:fill", "%dx%d at %zu", cols, rows, i); break; } } }
        free(b); free(q); free(want);
    }
    return mc_end();
}
'''


def run(c):
    c.assume('element values are written and read through the element pointers', 'source and target of a copy do not share memory', 'fill values are within int16')
    exe = drive.build(c, 'lattice', LATTICE)
    drive.run_many(c, exe, [(str(i), '8') for i in range(8)], 'lattice')
    c.count('initialisations-and-positions', c.states)
    c.log('lattice')
    drive.drive(c, 'ladder', SUM)
    exe = drive.build(c, 'history', HISTORY, flags=cbuild.FAST)
    asan = drive.build(c, 'history_asan', HISTORY)
    n0 = c.states
    shapes = [(cols, rows, vs) for cols in (1, 2, 3) for rows in (0, 1, 2, 3) for vs in (1, 2, 4)] + [(1, 4, 2), (4, 1, 2), (2, 2, 3)]
    pairs = [(a, b) for a in shapes for b in shapes if a <= b or not c.quick]
    deep = [p for p in pairs if p[0][2] == p[1][2] == 2 and p[0][0] == p[1][0] and p[0][1]*p[0][0] <= 6 and p[1][1]*p[1][0] <= 6]
    drive.run_many(c, asan, [('2', *map(str, a), *map(str, b)) for a, b in pairs], 'history')
    c.log('depth 2')
    drive.run_many(c, exe, [('3', *map(str, a), *map(str, b)) for a, b in deep], 'history')
    c.log('depth 3')
    if not c.quick:
        small = [p for p in deep if p[0][0]*p[0][1] <= 4 and p[1][0]*p[1][1] <= 4]
        drive.run_many(c, exe, [('4', *map(str, a), *map(str, b)) for a, b in small], 'history')
    c.count('history-states', c.states-n0)
    c.sample(history='set(0,0,0); shift(0,-1); copy(0,1)', shapes=[deep[0][0], deep[0][1]])
    c.bound(depth_all_shapes=2, depth_int16_shapes=c.pick(3, 4), columns='1..4', rows='0..4', value_sizes=[1, 2, 3, 4], lattice_dims=16, positions='up to 17 GB')
