/* The external command of the simulation: performs a scripted sequence of reads, writes and an end.
 * tool ID            (or, standing in for the python interpreter: tool -m ruff check|format ...)
 * reads $SIM_TOOL/ID.script, records what it received on stdin in $SIM_TOOL/ID.in (one file per call) */
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>

static char *got; static size_t ngot, cap;
static int eof;
static int rec = -1;

static void take(size_t want) {
    while (want > 0 && !eof) {
        if (ngot + 65536 > cap) { cap = cap * 2 + 131072; got = realloc(got, cap); }
        size_t k = want < 65536 ? want : 65536;
        ssize_t r = read(0, got + ngot, k);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) { eof = 1; break; }
        if (write(rec, got + ngot, r) != r) _exit(99);
        ngot += r; want -= r;
    }
}
static int put(int fd, const char *b, size_t n, size_t step) {
    while (n) {
        size_t k = step && step < n ? step : n;
        ssize_t w = write(fd, b, k);
        if (w < 0 && errno == EINTR) continue;
        if (w < 0) return -1;
        b += w; n -= w;
    }
    return 0;
}
static char *slurp(const char *p, size_t *n) {
    FILE *f = fopen(p, "rb"); if (!f) return NULL;
    fseek(f, 0, SEEK_END); long k = ftell(f); rewind(f);
    char *b = malloc(k + 1); *n = fread(b, 1, k, f); b[*n] = 0; fclose(f); return b;
}
int main(int argc, char **argv) {
    const char *dir = getenv("SIM_TOOL"); const char *id = argc > 1 ? argv[1] : "none";
    char p[1024]; size_t n;
    for (int i = 1; i < argc; i++) { if (!strcmp(argv[i], "check")) { id = "ruff-check"; break; } if (!strcmp(argv[i], "format")) { id = "ruff-format"; break; } }
    if (!dir) return 98;
    snprintf(p, sizeof p, "%s/%s.script", dir, id);
    char *s = slurp(p, &n); if (!s) return 97;
    for (int i = 0; ; i++) {
        snprintf(p, sizeof p, "%s/%s.in.%d", dir, id, i);
        rec = open(p, O_WRONLY | O_CREAT | O_EXCL, 0600);
        if (rec >= 0) break;
        if (errno != EEXIST) return 96;
    }
    snprintf(p, sizeof p, "%s/%s.data", dir, id);
    size_t nd = 0; char *data = slurp(p, &nd);
    for (char *line = strtok(s, "\n"); line; line = strtok(NULL, "\n")) {
        long a = 0, b = 0, c = 0; char op = line[0];
        sscanf(line + 1, "%ld %ld %ld", &a, &b, &c);
        switch (op) {
        case 'r': take(a); break;
        case 'R': take((size_t)1 << 62); break;
        case 'w': if ((size_t)(a + b) <= nd) put(1, data + a, b, c); break;
        case 'e': if ((size_t)(a + b) <= nd) put(2, data + a, b, c); break;
        case 'E': put(1, got, ngot, a); break;                      /* everything read so far */
        case 'H': put(1, got, ngot * a / 100, 0); break;            /* the first a percent of it */
        case 'c': close(a); break;
        case 'p': { struct timespec t = {0, a * 1000000}; nanosleep(&t, NULL); break; }
        case 'x': _exit(a);
        case 'k': { struct rlimit z = {0, 0}; setrlimit(RLIMIT_CORE, &z); signal(a, SIG_DFL); kill(getpid(), a); pause(); _exit(95); }
        }
    }
    return 0;
}
