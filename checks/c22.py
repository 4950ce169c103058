"""C22 CSV round trip: every small table x read buffer x chunking of the stream x final newline, written and read back with the real writer and reader, in memory and through FILE;
every wrong row width at every position."""
from mc import cbuild, drive
from mc.csvlib import STREAM

CODE = STREAM + r'''
#include <eml_fileio.h>
static const float V[] = { 0.0f, -0.0f, 1.0f, -1.5f, 0.000001f, -0.0000005f, 123456.789f, -999999.0f, 3.14159265f, 1e-20f, 0.9999999f, 16777216.0f, -0.1f, 99999.99f, 12345678848.0f, 99999997952.0f, 999999995904.0f, -99999997952.0f, NAN, INFINITY, -INFINITY };
#define NV (int)(sizeof(V)/sizeof(V[0]))
static const char *H[] = { "a", "time", "", "x y", "\"q\"", "acc_x", "0", "-", "\xc3\xa9", "a;b\t", "a very long name of a column that goes on", "#", " before", "after ", " ", "\xef\xbb\xbfmark", "'s'", "\\n", "%d" };
#define NH (int)(sizeof(H)/sizeof(H[0]))
static size_t longest(const uint8_t *d, size_t n) { size_t best = 0, cur = 0; for (size_t i=0; i<n; i++) { if (d[i] == '\n') cur = 0; else if (++cur > best) best = cur; } return best; }
typedef struct { int cols, rows; const char **names; const float *values; } Table;
static const char *what(const Table *t, size_t buf, size_t chunk, int newline, const char *how) {
    static char s[900]; int n = snprintf(s, sizeof s, "%s: %d columns, %d rows, buffer %zu, chunks %zu, final newline %d, names", how, t->cols, t->rows, buf, chunk, newline);
    for (int i=0; i<t->cols && i<6; i++) n += snprintf(s+n, sizeof s-n, " '%.20s'", t->names[i]);
    n += snprintf(s+n, sizeof s-n, " values"); for (int i=0; i<t->cols*t->rows && i<8; i++) n += snprintf(s+n, sizeof s-n, " %g", t->values[i]);
    return s;
}
static int same(float v, const char *text) {
    char *end; if (!*text) return 0; double d = strtod(text, &end); if (*end) return 0;
    if (isnan(v)) return isnan(d);
    if (isinf(v)) return d == v;
    return fabs(d-(double)v) <= 0.5e-6*(1+1e-6) + fabs(v)*1e-15;
}
static void readback(const Table *t, EmlCsvReader r, size_t buf, size_t maxcols, const char *w) {
    char *b = mc_buf(buf); char **cols = mc_buf(maxcols*sizeof(char *));
    mc_states++; mc_transitions += t->rows+3;
    EmlError e = eml_csv_reader_read_header(&r, b, buf, cols, maxcols);
    if (e != EmlOk) { mc_fail("header:error", "%s: error %d", w, e); goto done; }
    if (r.n_columns != (size_t)t->cols) { mc_fail("header:columns", "%s: %zu", w, r.n_columns); goto done; }
    for (int i=0; i<t->cols; i++) {
        if (cols[i] < b || cols[i] >= b+buf) { mc_fail("header:outside-buffer", "%s", w); goto done; }
        if (strcmp(cols[i], t->names[i])) { mc_fail("header:name", "%s: column %d is '%s'", w, i, cols[i]); goto done; }
    }
    for (int k=0; k<t->rows; k++) {
        int n = eml_csv_reader_read_data(&r, b, buf, cols, maxcols);
        if (n != t->cols) { mc_fail("data:columns", "%s: row %d gives %d", w, k, n); goto done; }
        for (int i=0; i<t->cols; i++) {
            if (cols[i] < b || cols[i] >= b+buf) { mc_fail("data:outside-buffer", "%s", w); goto done; }
            if (!same(t->values[k*t->cols+i], cols[i])) { mc_fail("data:value", "%s: row %d column %d is '%s', expected %.9g", w, k, i, cols[i], t->values[k*t->cols+i]); goto done; }
        }
    }
    for (int k=0; k<2; k++) { int n = eml_csv_reader_read_data(&r, b, buf, cols, maxcols); if (n != 0) { mc_fail("end", "%s: reading at the end gives %d", w, n); goto done; } }
    mc_traces++;
done:
    free(b); free(cols);
}
static Stream *write_table(const Table *t, const char *w) {
    Stream *s = st_new("", 0, 0); EmlCsvWriter wr = writer(s);
    EmlError e = eml_csv_writer_write_header(&wr, t->names, t->cols);
    if (e != EmlOk) { mc_fail("write:header", "%s: error %d", w, e); return s; }
    for (int k=0; k<t->rows; k++) {
        float *row = mc_buf(sizeof(float)*t->cols); memcpy(row, t->values+k*t->cols, sizeof(float)*t->cols);
        e = eml_csv_writer_write_data(&wr, row, t->cols);
        if (e != EmlOk) mc_fail("write:data", "%s: row %d error %d", w, k, e);
        free(row);
    }
    mc_transitions += t->rows+1;
    return s;
}
static void roundtrip(const Table *t, int thorough, int files) {
    Stream *s = write_table(t, what(t, 0, 0, 1, "write"));
    size_t L = longest(s->data, s->length);
    for (int newline=1; newline>=0; newline--) {
        size_t n = s->length - (newline ? 0 : 1);
        if (!newline && n == 0) continue;                                   /* a header of one empty name and no newline is an empty file */
        if (!newline && t->rows == 0 && t->cols == 1 && !*t->names[0]) continue;
        size_t bufs[] = { L+1, L+2, L+3, n, n+1, n+2, 2*n+7, 4096 };
        size_t chunks[] = { 0, 1, 2, 3, 5, L, L+1 };
        for (int b=0; b<8; b++) {
            if (bufs[b] < L+1) continue;
            for (int c=0; c<(thorough || b == 0 ? 7 : b % 2+1); c++) {
                Stream *r = st_new((char *)s->data, n, chunks[c]);
                for (int extra=0; extra<2; extra++) { r->pos = 0; readback(t, reader(r), bufs[b], t->cols+extra, what(t, bufs[b], chunks[c], newline, "memory")); }
                st_free(r);
            }
        }
        if (files) {
            FILE *f = tmpfile(); fwrite(s->data, 1, n, f); rewind(f);
            EmlCsvReader r; memset(&r, 0, sizeof r); r.read = eml_fileio_read; r.seek = eml_fileio_seek; r.stream = f;
            readback(t, r, L+1, t->cols, what(t, L+1, 0, newline, "file"));
            fclose(f);
        }
    }
    if (files) {
        /* written through FILE: the same bytes */
        FILE *f = tmpfile(); EmlCsvWriter w; memset(&w, 0, sizeof w); w.write = eml_fileio_write; w.seek = eml_fileio_seek; w.stream = f;
        int bad = eml_csv_writer_write_header(&w, t->names, t->cols) != EmlOk;
        for (int k=0; k<t->rows; k++) bad |= eml_csv_writer_write_data(&w, t->values+k*t->cols, t->cols) != EmlOk;
        uint8_t *d = malloc(s->length+1); rewind(f);
        if (bad || fread(d, 1, s->length+1, f) != s->length || memcmp(d, s->data, s->length)) mc_fail("file:bytes", "%s", what(t, 0, 0, 1, "file"));
        free(d); fclose(f); mc_transitions += t->rows+1;
    }
    st_free(s);
}
static void widths(void) {
    /* rows of every wrong width: refused by the writer without output, and by the reader at every position */
    for (int n=1; n<=5; n++) for (int m=0; m<=7; m++) {
        const char *names[8] = { "a", "b", "c", "d", "e", "f", "g", "h" }; float v[8] = { 1, 2, 3, 4, 5, 6, 7, 8 };
        Stream *s = st_new("", 0, 0); EmlCsvWriter w = writer(s);
        eml_csv_writer_write_header(&w, names, n);
        size_t before = s->length;
        float *row = mc_buf(sizeof(float)*m); memcpy(row, v, sizeof(float)*m);
        EmlError e = eml_csv_writer_write_data(&w, row, m);
        mc_states++; mc_transitions += 2; mc_traces++;
        if ((e == EmlOk) != (n == m)) mc_fail("width:writer", "%d columns, row of %d: error %d", n, m, e);
        if (n != m && s->length != before) mc_fail("width:writer-output", "%d columns, row of %d", n, m);
        if (n != m && eml_csv_writer_write_data(&w, v, n) != EmlOk) mc_fail("width:writer-after", "%d columns after row of %d", n, m);
        free(row); st_free(s);
        for (int rows=1; rows<=4; rows++) for (int at=0; at<rows; at++) for (int newline=0; newline<2; newline++) for (int maxcols=n; maxcols<=n+4; maxcols++) {
            if (m == 0) continue;
            char text[400] = ""; 
            for (int k=-1; k<rows; k++) { int q = k == at ? m : n; for (int i=0; i<q; i++) { strcat(text, k < 0 ? names[i] : "1.5"); strcat(text, i < q-1 ? "," : "\n"); } }
            size_t len = strlen(text)-(newline ? 0 : 1);
            Stream *r = st_new(text, len, 0); EmlCsvReader rd = reader(r);
            char *b = mc_buf(64); char **cols = mc_buf(sizeof(char *)*maxcols);
            mc_states++; mc_traces++;
            if (eml_csv_reader_read_header(&rd, b, 64, cols, maxcols) != EmlOk) mc_fail("width:header", "%s", text);
            for (int k=0; k<=at; k++) {
                int got = eml_csv_reader_read_data(&rd, b, 64, cols, maxcols); mc_transitions++;
                if (k < at || n == m) { if (got != n) mc_fail("width:good-row", "%d columns, row %d of %d: got %d from\n%s", n, k, rows, got, text); }
                else if (got >= 0) mc_fail("width:reader", "%d columns, row of %d accepted (%d)", n, m, got);
            }
            free(b); free(cols); st_free(r);
        }
    }
}
/* a stream of `length` bytes that is made as it is read: a header "a,b" and rows of 2^20 bytes, the number of the row before the comma */
typedef struct { uint64_t pos, length; } Endless;
static char endless_at(uint64_t p) {
    if (p < 4) return "a,b\n"[p];
    uint64_t row = (p-4) >> 20, i = (p-4) & 0xFFFFF;
    if (i == 0xFFFFF) return '\n';
    if (i == 8) return ',';
    return i < 8 ? (char)('0' + (row >> (4*(7-i))) % 16) : '7';
}
static int endless_read(void *ctx, uint8_t *buf, size_t size) {
    Endless *e = ctx; size_t n = 0, want = size; if (e->length-e->pos < want) want = e->length-e->pos;
    while (n < want) {
        uint64_t i = (e->pos+n-4) & 0xFFFFF;
        if (e->pos+n > 4 && i > 8 && i < 0xFFFFF) { size_t m = 0xFFFFF-i; if (m > want-n) m = want-n; memset(buf+n, '7', m); n += m; }
        else { buf[n] = endless_at(e->pos+n); n++; }
    }
    e->pos += n; return (int)n;
}
static int endless_seek(void *ctx, size_t pos) { Endless *e = ctx; if (pos > e->length) return -1; e->pos = pos; return 0; }
static void endless(uint64_t rows) {
    Endless e = { 0, 4+(rows << 20) }; EmlCsvReader r; memset(&r, 0, sizeof r); r.read = endless_read; r.seek = endless_seek; r.stream = &e;
    size_t B = (1 << 20)+1; char *b = mc_buf(B); char *cols[2]; mc_states++; mc_traces++;
    if (eml_csv_reader_read_header(&r, b, B, cols, 2) != EmlOk) { mc_fail("endless:header", "%llu rows", (unsigned long long)rows); goto done; }
    for (uint64_t k=0; k<rows; k++) {
        int n = eml_csv_reader_read_data(&r, b, B, cols, 2); char want[9]; mc_transitions++;
        for (int i=0; i<8; i++) want[i] = endless_at(4+(k << 20)+i); want[8] = 0;
        if (n != 2 || strcmp(cols[0], want) || strlen(cols[1]) != (1 << 20)-10) { mc_fail("endless:data", "row %llu of %llu: %d columns", (unsigned long long)k, (unsigned long long)rows, n); goto done; }
    }
    int n = eml_csv_reader_read_data(&r, b, B, cols, 2); if (n != 0) mc_fail("endless:end", "%d", n);
done: free(b);
}
int main(int argc, char **argv) {
    int part = atoi(argv[1]), parts = atoi(argv[2]), thorough = atoi(argv[3]), k = 0;
    const char *names[300]; float values[2000]; Table t = { 0, 0, names, values };
    if (part == 0) widths();
    if (part == 1) endless(18); if (part == 2) endless(260); if (part == 3) endless(thorough ? 4100 : 2050);
    /* all tables of up to 2 columns and 2 rows over the values and names */
    for (int h=0; h<NH; h++) for (int v=0; v<NV; v++) { if (k++ % parts != part) continue; t.cols = 1; t.rows = 1; names[0] = H[h]; values[0] = V[v]; roundtrip(&t, thorough, 1); t.rows = 0; if (!v) roundtrip(&t, 1, 1); }
    for (int h=0; h<NH; h++) for (int g=0; g<NH; g++) { if (k++ % parts != part) continue; t.cols = 2; t.rows = h % 3; names[0] = H[h]; names[1] = H[g]; for (int i=0; i<4; i++) values[i] = V[(h*5+g*3+i) % NV]; roundtrip(&t, thorough, g == h); }
    for (int v=0; v<NV; v++) for (int w=0; w<NV; w++) { if (k++ % parts != part) continue; names[0] = "a"; names[1] = "b"; values[0] = V[v]; values[1] = V[w]; t.cols = 2; t.rows = 1; roundtrip(&t, thorough, 0); t.cols = 1; t.rows = 2; roundtrip(&t, thorough, 0); }
    for (int v=0; v<NV; v++) for (int w=0; w<NV; w++) for (int u=0; u<NV; u++) for (int x=0; x<(thorough ? NV : 2); x++) {
        if (k++ % parts != part) continue; names[0] = "time"; names[1] = "x"; names[2] = "y"; values[0] = V[v]; values[1] = V[w]; values[2] = V[u]; values[3] = V[x]; t.cols = 2; t.rows = 2; roundtrip(&t, 0, 0); if (x == 0) { t.cols = 3; t.rows = 1; roundtrip(&t, 0, 0); t.cols = 1; t.rows = 3; roundtrip(&t, 0, 0); } }
    /* shapes */
    for (int cols=1; cols<=12; cols++) for (int rows=0; rows<=12; rows++) { if (k++ % parts != part) continue; t.cols = cols; t.rows = rows; for (int i=0; i<cols; i++) names[i] = H[(i*7+rows) % NH]; for (int i=0; i<cols*rows; i++) values[i] = V[(i*5+cols) % NV]; roundtrip(&t, thorough, cols == rows); }
    static const int W[] = { 20, 33, 64, 100, 255, 256, 299 };
    for (int i=0; i<7; i++) { if (k++ % parts != part) continue; t.cols = W[i]; t.rows = 3; for (int j=0; j<W[i]; j++) names[j] = H[j % NH]; for (int j=0; j<3*W[i]; j++) values[j] = V[(j*3) % NV]; roundtrip(&t, 1, 1); }
    /* names of every length to 300, and around the limits of narrower integers */
    { static char big[2][70001]; memset(big, 'n', sizeof big); static const int B[] = { 511, 512, 1000, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 70000 };
      for (int i=0; i<301+11; i++) for (int at=0; at<2; at++) { const int n = i <= 300 ? i : B[i-301]; if (k++ % parts != part) continue; char *s = big[at]; s[n] = 0; t.cols = 2; t.rows = 1; names[at] = s; names[!at] = "b"; values[0] = 1; values[1] = -2.5f; 
        Stream *st = write_table(&t, "long name"); size_t L = longest(st->data, st->length); char w[80]; snprintf(w, sizeof w, "name of length %d in column %d", n, at);
        for (int ch=0; ch<2; ch++) { st->chunk = ch ? 100 : (size_t)1 << 30; st->pos = 0; readback(&t, reader(st), L+1, 2, w); st->pos = 0; readback(&t, reader(st), 2*L+9, 3, w); } st_free(st); if (n >= 250 || n % 16 == 0) roundtrip(&t, 0, 1); s[n] = 'n'; } }
    static float many[100000]; for (int i=0; i<100000; i++) many[i] = (float)((i*7919) % 20011)/100.0f-100;
    static const int R[] = { 100, 255, 256, 257, 1000, 33333 };
    for (int i=0; i<6; i++) { if (k++ % parts != part) continue; Table m = { 3, R[i], names, many }; names[0] = "a"; names[1] = "b"; names[2] = "c";
        Stream *s = write_table(&m, what(&m, 0, 0, 1, "write")); size_t L = longest(s->data, s->length);
        s->chunk = 1 << 30; s->pos = 0; readback(&m, reader(s), L+1, 3, what(&m, L+1, 0, 1, "long")); s->pos = 0; s->chunk = 3; readback(&m, reader(s), 100, 3, what(&m, 100, 3, 1, "long")); st_free(s); }
    /* two readers side by side on streams of their own */
    if (part == 0) {
        const char *a = "a,b\n1.000000,2.000000\n3.000000,4.000000\n", *b = "c\n5.000000\n6.000000\n7.000000\n";
        for (unsigned order=0; order<128; order++) {
            Stream *s[2] = { st_new(a, strlen(a), 0), st_new(b, strlen(b), 2) }; EmlCsvReader r[2] = { reader(s[0]), reader(s[1]) }; int at[2] = { 0, 0 }; char buf[2][32]; char *cols[2][2];
            mc_states++; mc_traces++;
            for (int i=0; i<7; i++) {
                int w = (order >> i) & 1, q = at[w]++, e; mc_transitions++;
                if (q == 0) e = eml_csv_reader_read_header(&r[w], buf[w], 32, cols[w], 2) == EmlOk ? 2-w : -1; else e = eml_csv_reader_read_data(&r[w], buf[w], 32, cols[w], 2);
                int expect = q > 2+w ? 0 : 2-w;
                if (e != expect) { mc_fail("two-readers", "order %u step %d: %d expected %d", order, i, e, expect); break; }
                if (q && expect && atof(cols[w][0]) != (w ? 4+q : 2*q-1)) mc_fail("two-readers", "order %u step %d: '%s'", order, i, cols[w][0]);
            }
            st_free(s[0]); st_free(s[1]);
        }
    }
    return mc_end();
}
'''


def run(c):
    c.assume('names hold no delimiter and no newline', 'a read buffer is large enough when it holds the longest line and a terminator', 'values whose text is longer than EML_CSV_FLOAT_MAXSIZE are refused by the writer (C23)')
    exe = drive.build(c, 'csv', CODE)
    drive.run_many(c, exe, [(str(i), '32', c.pick('0', '1')) for i in range(32)], 'csv')
    c.sample(table='columns "", "x y"; one row -0.5e-6, 123456.789', buffer='longest line + 1', chunks='1 byte')
    c.bound(columns='1..12, ladder to 299', rows='0..12, ladder to 33333', values=21, names=19, name_lengths='0..300, ladder to 70000', streams=c.pick('to 2 GB', 'to 4 GB'), buffers='longest line + 1 and up', chunk_sizes='1, 2, 3, 5, line, all')
