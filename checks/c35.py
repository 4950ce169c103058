"""C35 Zephyr sensor reader: the real reader task under a controlled scheduler: every placement of consumer steps between (and inside the copies of) the reader's steps,
together with every placement of sensor and queue faults up to a bound."""
import os
from mc import cbuild, drive
from mc.core import REPO

SRC = os.path.join(REPO, 'platform_examples/zephyr/motion_recognition/src')

# what the task needs of Zephyr, with a scheduling point in every call
KERNEL = r'''
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include <math.h>
struct k_thread { int dummy; };
typedef struct k_thread *k_tid_t;
typedef char k_thread_stack_t;
typedef struct { int64_t ticks; } k_timeout_t;
#define K_NO_WAIT ((k_timeout_t){ 0 })
#define K_FOREVER ((k_timeout_t){ -1 })
#define K_USEC(t) ((k_timeout_t){ (t) })
#define K_MSEC(t) ((k_timeout_t){ (t)*1000LL })
struct k_msgq { int capacity, count, head; size_t msg_size; char slots[8][64]; };
typedef void (*k_thread_entry_t)(void *, void *, void *);
k_tid_t k_thread_create(struct k_thread *t, k_thread_stack_t *stack, size_t stack_size, k_thread_entry_t entry, void *a, void *b, void *c, int prio, uint32_t options, k_timeout_t delay);
void k_thread_abort(k_tid_t t);
int k_msgq_put(struct k_msgq *q, const void *data, k_timeout_t timeout);
int k_msgq_get(struct k_msgq *q, void *data, k_timeout_t timeout);
int32_t k_usleep(int32_t us);
int32_t k_msleep(int32_t ms);
int32_t k_sleep(k_timeout_t t);
#define printk(...) ((void)0)
#define ARG_UNUSED(x) (void)(x)
#define ARRAY_SIZE(a) (sizeof(a)/sizeof((a)[0]))
void *sched_copy(void *to, const void *from, size_t n);
#define memcpy sched_copy
'''
SENSOR = r'''
#pragma once
#include <stdint.h>
struct device { const char *name; };
struct sensor_value { int32_t val1, val2; };
enum sensor_channel { SENSOR_CHAN_ACCEL_X, SENSOR_CHAN_ACCEL_Y, SENSOR_CHAN_ACCEL_Z, SENSOR_CHAN_ACCEL_XYZ, SENSOR_CHAN_GYRO_X, SENSOR_CHAN_GYRO_Y, SENSOR_CHAN_GYRO_Z, SENSOR_CHAN_GYRO_XYZ, SENSOR_CHAN_MAGN_X, SENSOR_CHAN_MAGN_Y, SENSOR_CHAN_MAGN_Z, SENSOR_CHAN_ALL };
int sensor_sample_fetch(const struct device *dev);
int sensor_sample_fetch_chan(const struct device *dev, enum sensor_channel ch);
int sensor_channel_get(const struct device *dev, enum sensor_channel ch, struct sensor_value *v);
static inline double sensor_value_to_double(const struct sensor_value *v) { return (double)v->val1 + (double)v->val2/1000000; }
static inline float sensor_value_to_float(const struct sensor_value *v) { return (float)v->val1 + (float)v->val2/1000000; }
'''
DRIVER = r'''
#include "sensor_reader.c"
#undef memcpy
#include <setjmp.h>
/* parameters of this exploration */
static int P_channels, P_window, P_samples, P_capacity, P_takes, P_faults, P_early, P_first, P_part, P_parts;
/* a path of choices, explored depth first by replay */
static unsigned char path[4096], width[4096]; static int path_n, path_len;
static int choose(int n) {
    if (n <= 1) return 0;
    if (path_len >= 4096) { fprintf(stderr, "path\n"); exit(77); }
    if (path_len == path_n) { path[path_n] = 0; path_n++; }
    width[path_len] = (unsigned char)n;
    return path[path_len++];
}
static int next_path(void) {
    path_n = path_len;
    while (path_n > 0 && path[path_n-1]+1 >= width[path_n-1]) path_n--;
    if (!path_n) return 0;
    path[path_n-1]++;
    return 1;
}
static struct sensor_chunk_reader R; static struct k_msgq Q; static struct device DEV; static struct k_thread THREAD; static jmp_buf out;
static k_thread_stack_t STACK[64];
static enum sensor_channel CH[9] = { SENSOR_CHAN_GYRO_Z, SENSOR_CHAN_ACCEL_X, SENSOR_CHAN_GYRO_X, SENSOR_CHAN_ACCEL_Z, SENSOR_CHAN_ACCEL_Y, SENSOR_CHAN_GYRO_Y, SENSOR_CHAN_MAGN_Y, SENSOR_CHAN_MAGN_X, SENSOR_CHAN_MAGN_Z };
/* what really happened */
static int fetched, slept, gets, rounds, sent, takes, faults, fetch_failed, get_failed, put_failed, last_fetch_failed;
static float given[64][9]; static unsigned char known[64][9];
static int held, held_window; static struct sensor_chunk_msg chunk;
static int created, aborted; static k_thread_entry_t entry; static void *arg;
static char trail[4096]; static int trail_n;
static void note(char ch) { if (trail_n < 4095) { trail[trail_n++] = ch; trail[trail_n] = 0; } }
static int windows(void) { return rounds/P_window; }
static void look(const char *where) {
    if (!held || windows() != held_window+1) return;
    for (int s=0; s<P_window; s++) for (int k=0; k<P_channels; k++) {
        const int at = held_window*P_window+s;
        if (known[at][k] && chunk.buffer[s*P_channels+k] != given[at][k]) {
            mc_fail("window", "window %d sample %d channel %d holds %g and not %g, %s, after %s", held_window, s, k, chunk.buffer[s*P_channels+k], given[at][k], where, trail);
            longjmp(out, 2);
        }
    }
}
/* the other thread may run here: it takes a message when there is one, and may look at what it holds at any time */
static void point(const char *where) {
    mc_transitions++;
    look(where);
    if (Q.count && takes < P_takes && choose(2)) {
        takes++; note('T');
        memset(&chunk, 0xee, sizeof(chunk));
        if (k_msgq_get(&Q, &chunk, K_NO_WAIT)) { fprintf(stderr, "empty\n"); exit(77); }
        if (chunk.length != (size_t)(P_channels*P_window)) { mc_fail("length", "%d for %d samples of %d channels, after %s", (int)chunk.length, P_window, P_channels, trail); longjmp(out, 2); }
        held = windows() > 0 && sent == windows(); held_window = windows()-1;
        if (windows() == 0) { mc_fail("early", "a message before a whole window, after %s", trail); longjmp(out, 2); }
        look("when taken");
    }
}
void *sched_copy(void *to, const void *from, size_t n) {
    size_t i = 0;
    for (; i+4 <= n; i += 4) { memcpy((char *)to+i, (const char *)from+i, 4); point("in a copy"); }
    if (i < n) memcpy((char *)to+i, (const char *)from+i, n-i);
    return to;
}
static int fault(int code) { if (faults < P_faults && choose(2)) { faults++; note('!'); return code; } return 0; }
int sensor_sample_fetch(const struct device *dev) {
    point("before a fetch");
    if (dev != &DEV) mc_fail("device", "another device");
    if (gets % P_channels) { mc_fail("channels", "a fetch after %d of %d channels, after %s", gets % P_channels, P_channels, trail); longjmp(out, 2); }
    if (sent != windows()) { mc_fail("delivery", "%d windows were completed and %d were put, after %s", windows(), sent, trail); longjmp(out, 2); }
    if (rounds >= P_samples || slept > 2*P_samples) longjmp(out, 1);
    note('f');
    int e = fault(faults & 1 ? -EIO : -1);
    if (e) fetch_failed++; else fetched++;
    point("after a fetch");
    return e;
}
int sensor_sample_fetch_chan(const struct device *dev, enum sensor_channel ch) { (void)ch; return sensor_sample_fetch(dev); }
int sensor_channel_get(const struct device *dev, enum sensor_channel ch, struct sensor_value *v) {
    point("before a channel");
    if (dev != &DEV) mc_fail("device", "another device");
    const int k = gets % P_channels;
    note((char)('0'+k));
    if (ch != CH[k]) { mc_fail("channels", "channel %d read in place of %d, after %s", (int)ch, (int)CH[k], trail); longjmp(out, 2); }
    int e = fault(faults & 1 ? -EBUSY : -EIO);
    if (e) get_failed++;
    else {
        /* every reading has a value of its own */
        v->val1 = (fetched*10+k)*(fetched % 2 ? 1 : -1); v->val2 = (fetched % 2 ? 500000 : -500000);
        if (rounds < 64) { given[rounds][k] = (float)(v->val1 + v->val2/1000000.0); }
    }
    if (rounds < 64) known[rounds][k] = !e;
    gets++;
    if (gets % P_channels == 0) rounds++;
    point("after a channel");
    return e;
}
int k_msgq_put(struct k_msgq *q, const void *data, k_timeout_t timeout) {
    point("before a put");
    if (q != &Q) mc_fail("queue", "another queue");
    note('p');
    sent++;
    int e = q->count == q->capacity ? -ENOMSG : fault(-EAGAIN);
    if (e) put_failed++;
    else { memcpy(q->slots[(q->head+q->count) % q->capacity], data, q->msg_size); q->count++; }
    point("after a put");
    (void)timeout;
    return e;
}
int k_msgq_get(struct k_msgq *q, void *data, k_timeout_t timeout) {
    (void)timeout;
    if (!q->count) return -ENOMSG;
    memcpy(data, q->slots[q->head], q->msg_size); q->head = (q->head+1) % q->capacity; q->count--;
    return 0;
}
static int32_t rest(void) { point("before a sleep"); note('z'); slept++; if (slept > 4*P_samples+4) { mc_fail("progress", "sleeps without reading, after %s", trail); longjmp(out, 2); } point("after a sleep"); return 0; }
int32_t k_usleep(int32_t us) { if (us < 0 || us > 1000000) mc_fail("sleep", "%d", (int)us); return rest(); }
int32_t k_msleep(int32_t ms) { (void)ms; return rest(); }
int32_t k_sleep(k_timeout_t t) { (void)t; return rest(); }
k_tid_t k_thread_create(struct k_thread *t, k_thread_stack_t *stack, size_t size, k_thread_entry_t e, void *a, void *b, void *c, int prio, uint32_t options, k_timeout_t delay) {
    (void)b; (void)c; (void)options; (void)delay;
    if (t != &THREAD || stack != STACK || size != 64 || prio != 10) mc_fail("start", "thread created with other parameters");
    created++; entry = e; arg = a;
    return t;
}
void k_thread_abort(k_tid_t t) { if (t != &THREAD) mc_fail("stop", "another thread stopped"); aborted++; }

int main(int argc, char **argv) {
    int *const P[] = { &P_channels, &P_window, &P_samples, &P_capacity, &P_takes, &P_faults };
    for (int i=0; i<6; i++) *P[i] = atoi(argv[1+i]);
    do {
        path_len = 0; fetched = slept = gets = rounds = sent = takes = faults = fetch_failed = get_failed = put_failed = held = trail_n = created = aborted = 0; trail[0] = 0;
        memset(known, 0, sizeof(known)); memset(&Q, 0, sizeof(Q)); Q.capacity = P_capacity; Q.msg_size = sizeof(struct sensor_chunk_msg);
        memset(&R, 0, sizeof(R));
        R.window_length = R.hop_length = P_window; R.samplerate = 52; R.n_channels = P_channels; R.channels = CH; R.dev = &DEV; R.queue = &Q; R.thread = &THREAD; R.thread_priority = 10; R.stack = STACK; R.stack_size = 64;
        R.read_samples = mc_buf(sizeof(float)*P_channels*P_window); R.output_buffer = mc_buf(sizeof(float)*P_channels*P_window);
        float *a = R.read_samples, *b = R.output_buffer;
        sensor_chunk_reader_start(&R);
        if (created != 1 || !entry) { mc_fail("start", "no thread"); break; }
        const int how = setjmp(out);
        if (!how) { entry(arg, NULL, NULL); mc_fail("ended", "the task returned, after %s", trail); }
        if (how == 1 && (R.fetch_errors != fetch_failed || R.get_errors != get_failed || R.put_errors != put_failed))
            mc_fail("counts", "counted %d %d %d of %d %d %d fetch, channel and put errors, after %s", R.fetch_errors, R.get_errors, R.put_errors, fetch_failed, get_failed, put_failed, trail);
        sensor_chunk_reader_stop(&R);
        if (aborted != 1) mc_fail("stop", "not stopped");
        mc_traces++; mc_states++;
        free(a); free(b);
        if (mc_failures > 5) break;
    } while (next_path());
    mc_sample("%s", trail);
    return mc_end();
}
'''


def run(c):
    d = c.dir('zephyr')
    for path, text in (('zephyr/kernel.h', KERNEL), ('zephyr/device.h', '#include <zephyr/drivers/sensor.h>\n'), ('zephyr/drivers/sensor.h', SENSOR), ('zephyr/sys/printk.h', '#include <zephyr/kernel.h>\n'), ('zephyr/sys/util.h', '#include <zephyr/kernel.h>\n'), ('zephyr/logging/log.h', '#define LOG_MODULE_REGISTER(...)\n#define LOG_ERR(...)\n#define LOG_WRN(...)\n#define LOG_INF(...)\n#define LOG_DBG(...)\n')):
        os.makedirs(os.path.dirname(os.path.join(d, path)), exist_ok=True)
        open(os.path.join(d, path), 'w').write(text)
    exe = drive.build(c, 'reader', DRIVER, flags=['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer'], base=['-std=gnu2x', '-D_GNU_SOURCE', '-w', '-I', d, '-I', SRC], key='reader')
    jobs = []
    for ch in c.pick((1, 2, 3), (1, 2, 3, 6, 9)):
        for win in c.pick((1, 2, 3), (1, 2, 3, 5)):
            for cap in (1, 2):
                big = ch*win
                for takes, faults, wins in c.pick([(2, 1, 3), (0, 2, 2), (3, 0, 3), (1, 2, 2)], [(2, 2, 3), (3, 1, 3), (0, 3, 3), (4, 0, 4), (1, 3, 2)]):
                    # the number of schedules grows with the points per window to the power of takes and faults
                    points = wins*(win*(3+3*ch)+2*big+4)
                    est = points**takes/max(1, takes) * (wins*(win*(1+ch)+1))**faults/max(1, faults)
                    if est <= c.pick(1.5e6, 6e7): jobs.append((ch, win, wins*win+win//2, cap, takes, faults))
    for ch in (6, 9):
        jobs.append((ch, c.pick(8, 50), 3*c.pick(8, 50)+1 if c.quick else 60, 1, 1, 0 if not c.quick else 1))
    jobs = [j for j in jobs if j[2] <= 63]
    c.count('configurations', len(jobs))
    drive.run_many(c, exe, sorted(jobs, key=lambda j: -j[4]-j[5]), 'reader')
    c.assume('the consumer is done with a chunk before the next window completes; what a failed channel read leaves in the window is not judged')
    c.bound(channels=c.pick(3, 9), window=c.pick(3, 5), windows=c.pick(3, 4), takes=c.pick(3, 4), faults=c.pick(2, 3), preemption='before and after every call of the kernel or sensor, and after every word of a copy')
