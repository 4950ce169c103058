"""In-memory and FILE streams with fault injection for the CSV drivers (C)."""
STREAM = r'''
#include <math.h>
#include <stdbool.h>
#include <eml_csv.h>
/* a stream in memory: gives at most `chunk` bytes per read; the fault_at-th call of kind fault_kind misbehaves */
typedef struct {
    uint8_t *data; size_t length, capacity, pos, chunk;
    long reads, writes, seeks, calls;          /* so far */
    long fault_at[2]; int fault[2];            /* which call (over all kinds), how */
    int hits;                                  /* faults met since last cleared */
} Stream;
enum { OKAY, NEG, NEG5, SHORT1, ZERO, TOOMUCH, SEEKPOS };
static int faulty(Stream *s) {
    long n = s->calls++;
    for (int i=0; i<2; i++) if (s->fault[i] && s->fault_at[i] == n) return s->fault[i];
    return OKAY;
}
static int st_read(void *ctx, uint8_t *buf, size_t size) {
    Stream *s = ctx; s->reads++;
    int f = faulty(s);
    if (size == 0) { mc_fail("read:nothing", "read of 0 bytes asked for"); return 0; }
    if (f == NEG || f == SEEKPOS) { s->hits++; return -1; }
    if (f == NEG5) { s->hits++; return -5; }
    size_t n = s->length - s->pos; if (n > size) n = size; if (n > s->chunk) n = s->chunk;
    if (f == SHORT1 && n > 1) n = 1;           /* fewer than asked for: not an error */
    memset(buf, 'Z', size);                    /* the whole buffer has to be there */
    memcpy(buf, s->data + s->pos, n); s->pos += n;
    if (f == TOOMUCH) { s->hits++; return (int)size+1; }
    return (int)n;
}
static int st_write(void *ctx, const uint8_t *buf, size_t size) {
    Stream *s = ctx; s->writes++;
    int f = faulty(s);
    size_t n = size;
    if (f == NEG) { s->hits++; return -1; }
    if (f == NEG5) { s->hits++; return -5; }
    if (f == ZERO && size) { s->hits++; return 0; }
    if ((f == SHORT1 || f == SEEKPOS) && size) { s->hits++; n = f == SHORT1 ? size-1 : size/2; }
    if (s->length + n > s->capacity) { s->capacity = (s->length+n)*2+64; s->data = realloc(s->data, s->capacity); }
    memcpy(s->data + s->length, buf, n); s->length += n;
    return (int)n;
}
static int st_seek(void *ctx, size_t pos) {
    Stream *s = ctx; s->seeks++;
    int f = faulty(s);
    if (f == NEG || f == SHORT1 || f == ZERO) { s->hits++; return -1; }
    if (f == NEG5 || f == SEEKPOS || f == TOOMUCH) { s->hits++; return 1; }
    if (pos > s->length) return -1;
    s->pos = pos; return 0;
}
static Stream *st_new(const char *data, size_t length, size_t chunk) {
    Stream *s = calloc(1, sizeof *s); s->data = mc_buf(length); memcpy(s->data, data, length); s->length = s->capacity = length; s->chunk = chunk ? chunk : (size_t)1 << 30; return s;
}
static void st_free(Stream *s) { free(s->data); free(s); }
static EmlCsvReader reader(Stream *s) { EmlCsvReader r; memset(&r, 0x77, sizeof r); r.stream_location = 0; r.n_columns = 0; r.read = st_read; r.seek = st_seek; r.stream = s; return r; }
static EmlCsvWriter writer(Stream *s) { EmlCsvWriter w; memset(&w, 0, sizeof w); w.write = st_write; w.seek = st_seek; w.stream = s; return w; }
'''
