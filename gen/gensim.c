/*
 * Simulated environment for a table generator written in C: its input file,
 * its output and its memory are devices under a plan. The generator's own
 * objects are linked in with main, fopen, ... renamed; the stdio in between is
 * the real one.
 *
 * usage: gensim PLAN INPUT  -- prints the outcome, one line of JSON
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

int gen_main(int, const char *const *);

enum { MAX_FAULTS = 16, CALL_CAP = 20000000, IN_FD = 1000, N_SIZES = 64 };

static struct fault {
    char kind;   /* o: open, r: read, w: write, a: allocation */
    long at;     /* byte offset, or count of the request */
    int err;
    long count;  /* how often it strikes; -1: for ever */
} faults[MAX_FAULTS];
static int n_faults;
static int rsizes[N_SIZES], wsizes[N_SIZES], n_rsizes, n_wsizes;
static int in_buf, out_buf;

static uint8_t *input;
static size_t in_size, in_pos;
static size_t out_size;
static uint64_t out_hash = 0xcbf29ce484222325, trace = 0xcbf29ce484222325;
static long calls, reads, writes, opens, allocs;
static long fired[256], n_short_reads, n_short_writes;
static int real_out;
static void (*at_exit[MAX_FAULTS])(void);
static int n_at_exit;

static void mix(uint64_t v)
{
    trace = (trace ^ v) * 0x100000001b3;
}

static void report(const char *outcome, int rc)
{
    char buf[1024];
    int n = snprintf(buf, sizeof buf,
                     "{\"outcome\": \"%s\", \"rc\": %d, \"size\": %zu, "
                     "\"hash\": \"%016llx\", \"trace\": \"%016llx\", "
                     "\"calls\": %ld, \"reads\": %ld, \"writes\": %ld, "
                     "\"allocs\": %ld, \"f_open\": %ld, \"f_read\": %ld, "
                     "\"f_write\": %ld, \"f_alloc\": %ld, "
                     "\"short_reads\": %ld, \"short_writes\": %ld}\n",
                     outcome, rc, out_size, (unsigned long long) out_hash,
                     (unsigned long long) trace, calls, reads, writes, allocs,
                     fired['o'], fired['r'], fired['w'], fired['a'],
                     n_short_reads, n_short_writes);
    if (write(real_out, buf, n) != n)
        _exit(3);
    _exit(0);
}

static void call(char kind, long size)
{
    mix((uint64_t) kind << 56 | (uint64_t) size);
    if (++calls > CALL_CAP)
        report("hang", 0);
}

/* the fault that strikes a transfer of up to *size bytes at pos, if any; one
 * that lies within cuts the transfer short */
static int strikes(char kind, size_t pos, size_t *size)
{
    for (int i = 0; i < n_faults; i++) {
        struct fault *f = &faults[i];
        if (f->kind != kind || !f->count)
            continue;
        if ((size_t) f->at <= pos) {
            if (f->count > 0)
                f->count--;
            fired[(int) kind]++;
            return f->err;
        }
        if (size && f->at - pos < *size)
            *size = f->at - pos;
    }
    return 0;
}

static ssize_t dev_read(void *buf, size_t size)
{
    call('r', size);
    int err = strikes('r', in_pos, &size);
    if (err) {
        errno = err;
        return -1;
    }
    if (size > in_size - in_pos)
        size = in_size - in_pos;
    else if (n_rsizes && size) {
        size_t k = rsizes[reads % n_rsizes];
        if (k < size) {
            size = k;
            n_short_reads++;
        }
    }
    reads++;
    memcpy(buf, input + in_pos, size);
    in_pos += size;
    return size;
}

static ssize_t dev_write(const void *buf, size_t size)
{
    call('w', size);
    int err = strikes('w', out_size, &size);
    if (err) {
        errno = err;
        return -1;
    }
    if (n_wsizes && size) {
        size_t k = wsizes[writes % n_wsizes];
        if (k < size) {
            size = k;
            n_short_writes++;
        }
    }
    writes++;
    for (size_t i = 0; i < size; i++)
        out_hash = (out_hash ^ ((const uint8_t *) buf)[i]) * 0x100000001b3;
    out_size += size;
    return size;
}

static ssize_t cookie_read(void *c, char *buf, size_t size)
{
    (void) c;
    return dev_read(buf, size);
}

/* as stdio writes to a file: what is left over is offered again */
static ssize_t cookie_write(void *c, const char *buf, size_t size)
{
    (void) c;
    size_t done = 0;
    while (done < size) {
        ssize_t n = dev_write(buf + done, size - done);
        if (n < 0)
            break;
        done += n;
    }
    return done;
}

static int dev_open(void)
{
    call('o', 0);
    opens++;
    int err = strikes('o', 0, NULL);
    if (err) {
        errno = err;
        return -1;
    }
    in_pos = 0;
    return 0;
}

static FILE *in_stream(const char *mode)
{
    cookie_io_functions_t io = { .read = cookie_read };
    FILE *f = fopencookie(NULL, mode, io);
    if (in_buf)
        setvbuf(f, NULL, _IOFBF, in_buf);
    return f;
}

FILE *gs_fopen(const char *path, const char *mode)
{
    if (strcmp(path, "/sim/input"))
        return fopen(path, mode);
    return dev_open() < 0 ? NULL : in_stream(mode);
}

FILE *gs_fdopen(int fd, const char *mode)
{
    return fd == IN_FD ? in_stream(mode) :
        fd == STDOUT_FILENO ? stdout : fdopen(fd, mode);
}

int gs_fclose(FILE *f)
{
    int is_stdout = f == stdout;
    int rc = fclose(f);
    if (is_stdout)
        stdout = fopen("/dev/null", "w");
    return rc;
}

int gs_open(const char *path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    int mode = flags & O_CREAT ? va_arg(ap, int) : 0;
    va_end(ap);
    if (strcmp(path, "/sim/input"))
        return open(path, flags, mode);
    return dev_open() < 0 ? -1 : IN_FD;
}

FILE *gs_fopen64(const char *path, const char *mode)
{
    return gs_fopen(path, mode);
}

int gs_open64(const char *path, int flags, int mode)
{
    return gs_open(path, flags, mode);
}

ssize_t gs_read(int fd, void *buf, size_t size)
{
    return fd == IN_FD ? dev_read(buf, size) : read(fd, buf, size);
}

ssize_t gs_write(int fd, const void *buf, size_t size)
{
    return fd == STDOUT_FILENO ? dev_write(buf, size) : write(fd, buf, size);
}

int gs_close(int fd)
{
    return fd == IN_FD ? 0 : close(fd);
}

int gs_atexit(void (*fn)(void))
{
    if (n_at_exit == MAX_FAULTS)
        return -1;
    at_exit[n_at_exit++] = fn;
    return 0;
}

void gs_exit(int rc)
{
    while (n_at_exit)
        at_exit[--n_at_exit]();
    fflush(stdout);             /* as exit does: nobody hears of a failure */
    report("exit", rc & 0xff);
}

void gs__exit(int rc)
{
    report("exit", rc & 0xff);
}

void gs_abort(void)
{
    report("abort", 134);
}

void gs_assert_fail(const char *expr, const char *file, unsigned line,
                    const char *fn)
{
    (void) expr, (void) file, (void) line, (void) fn;
    report("abort", 134);
}

void gs_err(int rc, const char *fmt, ...)
{
    (void) fmt;
    gs_exit(rc);
}

void gs_errx(int rc, const char *fmt, ...)
{
    (void) fmt;
    gs_exit(rc);
}

void gs_error(int rc, int err, const char *fmt, ...)
{
    (void) err, (void) fmt;
    if (rc)
        gs_exit(rc);
}

static int refuse(size_t size)
{
    call('a', size);
    if (!strikes('a', allocs++, NULL))
        return 0;
    errno = ENOMEM;
    return 1;
}

void *gs_malloc(size_t n)
{
    return refuse(n) ? NULL : malloc(n);
}

void *gs_calloc(size_t n, size_t m)
{
    return refuse(n) ? NULL : calloc(n, m);
}

void *gs_realloc(void *p, size_t n)
{
    return n && refuse(n) ? NULL : realloc(p, n);
}

int main(int argc, char **argv)
{
    char line[4096];
    FILE *f = argc == 3 ? fopen(argv[1], "r") : NULL;
    if (!f)
        return 2;
    while (fgets(line, sizeof line, f)) {
        char *w = strtok(line, " \n");
        if (!w)
            continue;
        if (!strcmp(w, "fault") && n_faults < MAX_FAULTS) {
            struct fault *p = &faults[n_faults++];
            p->kind = *strtok(NULL, " \n");
            p->at = atol(strtok(NULL, " \n"));
            p->err = atoi(strtok(NULL, " \n"));
            p->count = atol(strtok(NULL, " \n"));
        } else if (!strcmp(w, "reads"))
            while (n_rsizes < N_SIZES && (w = strtok(NULL, " \n")))
                rsizes[n_rsizes++] = atoi(w);
        else if (!strcmp(w, "writes"))
            while (n_wsizes < N_SIZES && (w = strtok(NULL, " \n")))
                wsizes[n_wsizes++] = atoi(w);
        else if (!strcmp(w, "inbuf"))
            in_buf = atoi(strtok(NULL, " \n"));
        else if (!strcmp(w, "outbuf"))
            out_buf = atoi(strtok(NULL, " \n"));
    }
    fclose(f);
    f = fopen(argv[2], "r");
    if (!f)
        return 2;
    fseek(f, 0, SEEK_END);
    in_size = ftell(f);
    rewind(f);
    input = malloc(in_size + 1);
    if (fread(input, 1, in_size, f) != in_size)
        return 2;
    fclose(f);
    real_out = dup(STDOUT_FILENO);
    cookie_io_functions_t io = { .write = cookie_write };
    stdout = fopencookie(NULL, "w", io);
    if (out_buf)
        setvbuf(stdout, NULL, _IOFBF, out_buf);
    const char *args[] = { "gen", "/sim/input", NULL };
    gs_exit(gen_main(2, args));
}
