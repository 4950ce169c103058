"""C23 CSV faults: every stream over a small alphabet x every buffer size, column limit and chunking against a reference reader;
every single and double fault at every read, write and seek of every history; FILE streams that fail."""
from mc import cbuild, drive
from mc.csvlib import STREAM

REFERENCE = STREAM + r'''
/* reference: what a reader has to deliver. Returns columns (>=0) or -1 for error; 0 columns = end of data */
static int ref_line(const char *d, size_t n, size_t *pos, size_t buf, int maxcols, int starts[], int lens[]) {
    if (*pos >= n) return 0;
    size_t e = *pos; while (e < n && d[e] != '\n') e++;
    size_t L = e-*pos;
    if (L+1 > buf) return -1;
    int k = 0; size_t s = *pos;
    for (size_t i=*pos; i<=e; i++) if (i == e || d[i] == ',') { if (k >= maxcols) return -1; starts[k] = (int)s; lens[k] = (int)(i-s); k++; s = i+1; }
    *pos = e < n ? e+1 : e;
    return k;
}
static char text_[64];
static const char *show(const char *d, size_t n) { int j = 0; for (size_t i=0; i<n && j<60; i++) { if (d[i] == '\n') { text_[j++] = '\\'; text_[j++] = 'n'; } else text_[j++] = d[i]; } text_[j] = 0; return text_; }
/* compare one delivered line with the reference */
static int line_ok(const char *d, const char *b, size_t buf, char **cols, int k, const int *starts, const int *lens) {
    for (int i=0; i<k; i++) {
        if (cols[i] < b || cols[i] + lens[i] >= b+buf || strlen(cols[i]) != (size_t)lens[i] || memcmp(cols[i], d+starts[i], lens[i])) return 0;
    }
    return 1;
}
static void history(const char *d, size_t n, size_t buf, int hcols, int dcols, size_t chunk) {
    Stream *s = st_new(d, n, chunk); EmlCsvReader r = reader(s);
    char *b = mc_buf(buf); char **cols = mc_buf(sizeof(char *)*hcols), **cols2 = mc_buf(sizeof(char *)*dcols);
    int st[32], ln[32]; size_t pos = 0;
    mc_states++;
#define W "'%s' buffer %zu header columns %d data columns %d chunks %zu", show(d, n), buf, hcols, dcols, chunk
    int k = ref_line(d, n, &pos, buf, hcols, st, ln); if (k == 0) k = -1;
    EmlError e = eml_csv_reader_read_header(&r, b, buf, cols, hcols); mc_transitions++;
    if ((e == EmlOk) != (k > 0)) { mc_fail(k > 0 ? "header:refused" : "header:accepted", W); goto done; }
    if (k < 0) { mc_traces++; goto done; }
    if (r.n_columns != (size_t)k) { mc_fail("header:columns", W); goto done; }
    if (!line_ok(d, b, buf, cols, k, st, ln)) { mc_fail("header:content", W); goto done; }
    for (int step=0; step<(int)n+2; step++) {
        size_t before = pos;
        int q = dcols < k ? -1 : ref_line(d, n, &pos, buf, dcols, st, ln);
        if (q > 0 && q != k) q = -1;
        int got = eml_csv_reader_read_data(&r, b, buf, cols2, dcols); mc_transitions++;
        if (q < 0) { if (got >= 0) mc_fail("data:accepted", W); break; }
        if (got != q) { mc_fail("data:columns", W); break; }
        if (q == 0) { if (before != n) mc_fail("data:early-end", W); break; }
        if (!line_ok(d, b, buf, cols2, q, st, ln)) { mc_fail("data:content", W); break; }
    }
    mc_traces++;
done:
    free(b); free(cols); free(cols2); st_free(s);
}
'''

STREAMS = REFERENCE + r'''
int main(int argc, char **argv) {
    int part = atoi(argv[1]), parts = atoi(argv[2]), maxlen = atoi(argv[3]);
    static const char A[] = { 'a', ',', '\n', '\r' };     /* carriage returns are part of a value */
    long k = 0; char d[16];
    for (int n=0; n<=maxlen; n++) {
        const int letters = n <= 5 ? 4 : 3;
        long total = 1; for (int i=0; i<n; i++) total *= letters;
        for (long w=0; w<total; w++) {
            if (k++ % parts != part) continue;
            long x = w; for (int i=0; i<n; i++) { d[i] = A[x % letters]; x /= letters; }
            for (size_t buf=0; buf<=(size_t)n+2; buf++) for (int h=0; h<=3; h++) for (int c=0; c<3; c++) {
                if (n > 6 && h == 0) continue;
                history(d, n, buf, h, h, c); if (h < 3 && n <= 6) { history(d, n, buf, h, h+1, c); if (h) history(d, n, buf, h+1, h, c); }
            }
        }
    }
    /* longer lines: buffers around their length and around powers of two */
    if (part == 0) {
        static char big[3000];
        for (int len=1; len<=1030; len = len < 20 ? len+1 : len+(len % 2 ? 1 : 61)) for (int newline=0; newline<2; newline++) for (int first=0; first<2; first++) {
            size_t n = 0; big[0] = 0;
            if (first) { memcpy(big, "h\n", 2); n = 2; }
            memset(big+n, 'v', len); n += len; if (newline) big[n++] = '\n'; memcpy(big+n, newline ? "w\n" : "", newline ? 2 : 0); n += newline ? 2 : 0;
            for (int dlt=-2; dlt<=3; dlt++) for (int c=0; c<3; c++) if (len+dlt >= 0) history(big, n, len+dlt, 1, 1, c == 2 ? 16 : c);
        }
    }
    return mc_end();
}
'''

FAULTS = REFERENCE + r'''
/* run a history of operations on a stream with faults planned; every operation that met a fault has to fail, every other one has to succeed with the right data */
static long calls;
static void read_history(const char *d, size_t buf, size_t chunk, long at0, int f0, long at1, int f1, int resume) {
    size_t n = strlen(d); Stream *s = st_new(d, n, chunk); EmlCsvReader r = reader(s);
    s->fault_at[0] = at0; s->fault[0] = f0; s->fault_at[1] = at1; s->fault[1] = f1;
    char *b = mc_buf(buf); char **cols = mc_buf(sizeof(char *)*3); int st[32], ln[32]; size_t pos = 0;
    mc_states++;
#undef W
#define W "'%s' buffer %zu chunks %zu fault %d at call %ld, %d at %ld: step %d gives %d", show(d, n), buf, chunk, f0, at0, f1, at1, step
    for (int step=0; step<8; step++) {
        size_t before = pos; int hits = s->hits;
        int q = ref_line(d, n, &pos, buf, 3, st, ln);
        int got = step ? eml_csv_reader_read_data(&r, b, buf, cols, 3) : eml_csv_reader_read_header(&r, b, buf, cols, 3);
        mc_transitions++;
        int failed = step ? got < 0 : got != EmlOk;
        if (s->hits > hits) {
            if (!failed) { mc_fail("fault-absorbed:read", W, got); break; }
            break;      /* after a failure the position is not specified */
        }
        if (failed) { mc_fail("refused-without-fault", W, got); break; }
        if (step && got != q) { mc_fail("data-altered", W, got); break; }
        if (q && !line_ok(d, b, buf, cols, q, st, ln)) { mc_fail("data-altered", W, got); break; }
        if (q == 0) { if (before != n) mc_fail("data-missing", W, got); break; }
    }
    mc_traces++; calls = s->calls;
    free(b); free(cols); st_free(s);
}
static void write_history(int cols, int rows, const float *values, long at0, int f0, long at1, int f1) {
    Stream *s = st_new("", 0, 0); EmlCsvWriter w = writer(s);
    s->fault_at[0] = at0; s->fault[0] = f0; s->fault_at[1] = at1; s->fault[1] = f1;
    static const char *names[4] = { "time", "", "abc", "x" };
    char expect[4000] = "";
    mc_states++;
    for (int step=0; step<=rows; step++) {
        int hits = s->hits; char line[1000] = "";
        int toolong = 0;
        for (int i=0; i<cols; i++) { char v[80]; if (step) { snprintf(v, 80, "%.6f", values[(step-1)*cols+i]); if (strlen(v) >= EML_CSV_FLOAT_MAXSIZE) toolong = 1; strcat(line, v); } else strcat(line, names[i]); strcat(line, i < cols-1 ? "," : "\n"); }
        strcat(expect, line);
        float *row = mc_buf(sizeof(float)*cols); if (step) memcpy(row, values+(step-1)*cols, sizeof(float)*cols);
        EmlError e = step ? eml_csv_writer_write_data(&w, row, cols) : eml_csv_writer_write_header(&w, names, cols);
        free(row); mc_transitions++;
        if (s->hits > hits || toolong) {
            if (e == EmlOk) mc_fail("fault-absorbed:write", "%d columns, fault %d at call %ld, %d at %ld: step %d succeeds with '%s'", cols, f0, at0, f1, at1, step, show((char *)s->data, s->length));
            break;
        }
        if (e != EmlOk) { mc_fail("refused-without-fault", "%d columns, fault %d at %ld: step %d error %d", cols, f0, at0, step, e); break; }
        if (s->length != strlen(expect) || memcmp(s->data, expect, s->length)) { mc_fail("written-altered", "%d columns, step %d: '%s'", cols, step, show((char *)s->data, s->length)); break; }
    }
    mc_traces++; calls = s->calls; st_free(s);
}
int main(int argc, char **argv) {
    int part = atoi(argv[1]), parts = atoi(argv[2]), thorough = atoi(argv[3]); long k = 0;
    static const char *D[] = { "a\n1\n2\n", "a,b\n1,2\n3,4\n", "a,b,c\n1,2,3", "a\n", "a,b\n,\n,\n", "time,value\n0.000001,-12.500000\n100.000000,3.000000\n", "\n\n\n", "a\n1", "x,yy\n1,2\n\n", ",,\n,,\n1,2,3\n4,5,6\n", "" };
    static const int F[] = { NEG, NEG5, SHORT1, ZERO, TOOMUCH, SEEKPOS };
    for (int i=0; i<11; i++) for (int b=0; b<4; b++) for (int c=0; c<4; c++) {
        size_t longest = 1, cur = 0; for (const char *p=D[i]; *p; p++) { if (*p == '\n') cur = 0; else cur++; if (cur+1 > longest) longest = cur+1; }
        size_t buf = b == 0 ? longest : b == 1 ? longest+1 : b == 2 ? strlen(D[i])+2 : 200, chunk = (size_t[]){ 0, 1, 2, 5 }[c];
        if (i == 8 || i == 10) continue;
        read_history(D[i], buf, chunk, -1, 0, -1, 0, 0);
        long total = calls;
        for (long x=0; x<total+1; x++) for (int f=0; f<6; f++) {
            if (F[f] == ZERO) continue;        /* a read of 0 bytes is the end of the data */
            if (k++ % parts != part) continue;
            read_history(D[i], buf, chunk, x, F[f], -1, 0, 0);
            if (F[f] != SHORT1 && !thorough) continue;
            for (long y=x+1; y<total+8; y++) for (int g=0; g<6; g++) if (F[g] != ZERO) read_history(D[i], buf, chunk, x, F[f], y, F[g], 0);
        }
    }
    static const float V[] = { 1, -2.5f, 100000, 0, 3e-7f, 65504, -1e9f, 7, 8, 9, 10, 11, 12, 13, 14, 15 };
    static const float U[] = { 1, 3e38f, 2, 1e12f, 4, 5, -1e12f, 6, 7, 8, 9, 999999995904.0f, -99999997952.0f, 1, 1, 1 };
    for (int cols=1; cols<=4; cols++) for (int rows=0; rows<=3; rows++) for (int u=0; u<2; u++) {
        const float *v = u ? U : V;
        write_history(cols, rows, v, -1, 0, -1, 0);
        long total = calls;
        for (long x=0; x<total+1; x++) for (int f=0; f<6; f++) { if (F[f] == TOOMUCH) continue; if (k++ % parts != part) continue; write_history(cols, rows, v, x, F[f], -1, 0); for (long y=x+1; y<total+2; y++) write_history(cols, rows, v, y, F[f], x, SHORT1); }
    }
    /* each value text length around the limit of the writer, at each position of a row */
    if (part == 0) for (int cols=1; cols<=4; cols++) for (int at=0; at<cols; at++) for (int e=-12; e<=38; e++) for (int sign=-1; sign<=1; sign+=2) for (int m=1; m<10; m+=4) {
        float v[4] = { 1, 2, 3, 4 }; double x = m*pow(10, e); if (x > 3.4e38) continue; v[at] = (float)(sign*x); write_history(cols, 1, v, -1, 0, -1, 0);
    }
    return mc_end();
}
'''

FILES = r'''
#define _GNU_SOURCE
''' + REFERENCE + r'''
#include <eml_fileio.h>
#include <errno.h>
/* FILE streams over a cookie whose n-th read, write or seek fails */
typedef struct { char data[400]; size_t length, pos; int reads, writes, seeks; int fail_read, fail_write, fail_seek, once; int hits; } Cookie;
static int due(int n, int at, int once) { return at >= 0 && (once ? n == at : n >= at); }
static ssize_t ck_read(void *p, char *buf, size_t size) { Cookie *k = p; if (due(k->reads++, k->fail_read, k->once)) { k->hits++; errno = EIO; return -1; } size_t n = k->length-k->pos; if (n > size) n = size; if (n > 4) n = 4; memcpy(buf, k->data+k->pos, n); k->pos += n; return n; }
static ssize_t ck_write(void *p, const char *buf, size_t size) { Cookie *k = p; if (due(k->writes++, k->fail_write, k->once)) { k->hits++; errno = ENOSPC; return 0; } memcpy(k->data+k->pos, buf, size); k->pos += size; if (k->pos > k->length) k->length = k->pos; return size; }
static int ck_seek(void *p, off64_t *off, int whence) { Cookie *k = p; if (due(k->seeks++, k->fail_seek, k->once)) { k->hits++; errno = EIO; return -1; } if (whence == SEEK_CUR) *off += k->pos; if (whence == SEEK_END) *off += k->length; k->pos = *off; return 0; }
int main(void) {
    static const char *text = "a,b\n1.0,2.0\n3.0,4.0\n5.0,6.0\n";
    for (int buffered=0; buffered<2; buffered++) for (int once=0; once<2; once++) for (int fr=-1; fr<14; fr++) for (int fs=-1; fs<6; fs++) for (size_t buf=8; buf<=64; buf+=7) {
        Cookie k = { .once = once, .fail_read = fr, .fail_seek = fs, .fail_write = -1 }; strcpy(k.data, text); k.length = strlen(text);
        cookie_io_functions_t io = { .read = ck_read, .write = ck_write, .seek = ck_seek };
        FILE *f = fopencookie(&k, "r", io); if (!buffered) setvbuf(f, NULL, _IONBF, 0);
        EmlCsvReader r; memset(&r, 0, sizeof r); r.read = eml_fileio_read; r.seek = eml_fileio_seek; r.stream = f;
        char b[64], *cols[2]; size_t pos = 0; int st[4], ln[4];
        mc_states++; mc_traces++;
        for (int step=0; step<5; step++) {
            int hits = k.hits; size_t before = pos;
            int q = ref_line(text, strlen(text), &pos, buf, 2, st, ln);
            int got = step ? eml_csv_reader_read_data(&r, b, buf, cols, 2) : eml_csv_reader_read_header(&r, b, buf, cols, 2); mc_transitions++;
            int failed = step ? got < 0 : got != EmlOk;
            if (k.hits > hits) { if (!failed && (q == 0 || (step && got != q) || !line_ok(text, b, buf, cols, q, st, ln))) mc_fail("file:fault-absorbed", "read fails at %d, seek at %d, once %d, buffer %zu: step %d gives %d", fr, fs, once, buf, step, got); if (failed) break; if (got == 0 && step) break; continue; }
            if (failed && k.hits) break;        /* the error flag of a FILE stays set */
            if (failed) { mc_fail("file:refused-without-fault", "read %d seek %d once %d buffer %zu: step %d gives %d", fr, fs, once, buf, step, got); break; }
            if (step && got != q) { mc_fail("file:data", "read %d seek %d once %d buffer %zu: step %d gives %d expected %d", fr, fs, once, buf, step, got, q); break; }
            if (q && !line_ok(text, b, buf, cols, q, st, ln)) { mc_fail("file:data", "step %d", step); break; }
            if (!q) { if (before != strlen(text)) mc_fail("file:missing", "step %d", step); break; }
        }
        fclose(f);
    }
    for (int once=0; once<2; once++) for (int fw=-1; fw<14; fw++) {
        Cookie k = { .once = once, .fail_read = -1, .fail_seek = -1, .fail_write = fw };
        cookie_io_functions_t io = { .read = ck_read, .write = ck_write, .seek = ck_seek };
        FILE *f = fopencookie(&k, "w", io); setvbuf(f, NULL, _IONBF, 0);
        EmlCsvWriter w; memset(&w, 0, sizeof w); w.write = eml_fileio_write; w.seek = eml_fileio_seek; w.stream = f;
        const char *names[2] = { "a", "b" }; float v[2] = { 1, 2 };
        mc_states++; mc_traces++;
        for (int step=0; step<3; step++) {
            int hits = k.hits;
            EmlError e = step ? eml_csv_writer_write_data(&w, v, 2) : eml_csv_writer_write_header(&w, names, 2); mc_transitions++;
            if ((e != EmlOk) != (k.hits > hits)) mc_fail("file:write", "write fails at %d: step %d error %d", fw, step, e);
            if (e != EmlOk) break;
        }
        fclose(f);
    }
    /* a seek that is said to have worked is at that place, also past 2 and 4 GB (nothing is written there) */
    { FILE *f = tmpfile(); if (f) { static const size_t at[] = { 0, 1, 65536, 0x7fffffffu, 0x80000000u, 0x80000001u, 0xb0000000u, 0xffffffffu, 0x100000000u, 0x100000005u, 0x1000000000u };
        for (int i=0; i<11; i++) for (int j=0; j<11; j++) { mc_states++; mc_traces++; mc_transitions += 2;
            if (eml_fileio_seek(f, at[i]) == 0 && ftell(f) != (long)at[i]) mc_fail("file:seek", "to %zu: at %ld", at[i], ftell(f));
            if (eml_fileio_seek(f, at[j]) == 0 && ftell(f) != (long)at[j]) mc_fail("file:seek", "from %zu to %zu: at %ld", at[i], at[j], ftell(f)); }
        if (eml_fileio_seek(f, 5) != 0) mc_fail("file:seek", "refused");
        fclose(f); } }
    /* streams that cannot be read or written at all */
    FILE *dir = fopen(".", "r"), *full = fopen("/dev/full", "w");
    if (dir) { EmlCsvReader r; memset(&r, 0, sizeof r); r.read = eml_fileio_read; r.seek = eml_fileio_seek; r.stream = dir; char b[64], *cols[2]; mc_states++; mc_transitions++; mc_traces++;
        if (eml_csv_reader_read_header(&r, b, 64, cols, 2) == EmlOk) mc_fail("file:directory", "header read from a directory");
        r.n_columns = 1; int n = eml_csv_reader_read_data(&r, b, 64, cols, 2); if (n >= 0) mc_fail("file:directory", "reading a directory gives %d", n); fclose(dir); }
    if (full) { setvbuf(full, NULL, _IONBF, 0); EmlCsvWriter w; memset(&w, 0, sizeof w); w.write = eml_fileio_write; w.seek = eml_fileio_seek; w.stream = full; const char *names[1] = { "a" }; mc_states++; mc_transitions++; mc_traces++;
        if (eml_csv_writer_write_header(&w, names, 1) == EmlOk) mc_fail("file:full", "header written to a full device"); fclose(full); }
    return mc_end();
}
'''


def run(c):
    c.assume('a read of 0 bytes means the end of the data', 'after an operation has failed nothing is assumed about the position', 'faults of a buffered FILE that show only at fclose() are the caller\'s')
    n = c.pick(7, 9)
    exe = drive.build(c, 'streams', STREAMS)
    drive.run_many(c, exe, [(str(i), '64', str(n)) for i in range(64)], 'streams')
    c.count('streams', c.states)
    c.log('streams')
    exe = drive.build(c, 'faults', FAULTS)
    s = c.states
    drive.run_many(c, exe, [(str(i), '16', c.pick('0', '1')) for i in range(16)], 'faults')
    c.count('fault-histories', c.states-s)
    s = c.states
    drive.drive(c, 'files', FILES)
    c.count('file-histories', c.states-s)
    c.sample(stream='a,b\\n1,2\\n3,4\\n', fault='second read returns -1', expected='that operation fails')
    c.bound(stream_length=n, alphabet='a , newline', buffers='0..length+2', faults_per_history=2, fault_kinds=6)
