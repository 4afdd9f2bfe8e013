// Stand-in for cc/gcc and rm as seen by the generated Makefile.
// An "object" is a digest of everything the compiler would have read (flags, source, included headers of the export directory); a "library" is
// the list of its objects. Fault and clock control come from the file $DST_CC_CTL:  counter fault_at fault_kind crashed vtime_ns step_ns
// kinds: 1 error before writing, 2 error after a partial write (disk full), 3 crash before, 4 crash after a partial write, 5 crash after
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>

static uint64_t H;
static void mix(const char *s, size_t n) { for (size_t i = 0; i < n; i++) { H ^= (unsigned char) s[i]; H *= 1099511628211ull; } }
static char seen[256][512]; static int nseen;

static char *slurp(const char *p, size_t *n)
{
    FILE *f = fopen(p, "rb");
    if (!f) return NULL;
    size_t cap = 1 << 16, k; char *b = malloc(cap + 1); *n = 0;
    while ((k = fread(b + *n, 1, cap - *n, f)) > 0) { *n += k; if (*n == cap) b = realloc(b, (cap *= 2) + 1); }
    b[*n] = 0; fclose(f);
    return b;
}

static int digest(const char *path, int top)
{
    for (int i = 0; i < nseen; i++) if (!strcmp(seen[i], path)) return 1;
    size_t n; char *b = slurp(path, &n);
    if (!b) return 0;
    if (nseen < 256) { strncpy(seen[nseen], path, 511); nseen++; }
    mix(path, strlen(path)); mix(b, n);
    for (char *p = b; (p = strstr(p, "#include")); )
    {
        p += 8;
        while (*p == ' ' || *p == '\t') p++;
        if (*p != '"') continue;
        char *e = strchr(++p, '"');
        if (!e) break;
        char inc[512], dir[512];
        size_t l = (size_t)(e - p);
        if (l > 200) continue;
        snprintf(dir, sizeof dir, "%s", path);
        char *s = strrchr(dir, '/');
        if (s) s[1] = 0; else dir[0] = 0;
        snprintf(inc, sizeof inc, "%s%.*s", dir, (int) l, p);
        if (access(inc, R_OK) || !digest(inc, 0)) { snprintf(inc, sizeof inc, "%.*s", (int) l, p); digest(inc, 0); }
    }
    free(b);
    return 1;
}

int main(int argc, char **argv)
{
    const char *cf = getenv("DST_CC_CTL");
    if (!cf) { fprintf(stderr, "fakecc: no control file\n"); return 2; }
    long cnt, at, kind, crashed; long long vt, step;
    FILE *f = fopen(cf, "r");
    if (!f || fscanf(f, "%ld %ld %ld %ld %lld %lld", &cnt, &at, &kind, &crashed, &vt, &step) != 6) return 2;
    fclose(f);
    if (crashed) return 1;
    int hit = cnt == at, rc = 0;
    cnt++; vt += step;
    int full = !hit || kind == 5, part = hit && (kind == 2 || kind == 4);
    const char *base = strrchr(argv[0], '/'); base = base ? base + 1 : argv[0];
    if (hit && kind < 3 && !strcmp(base, "rm")) { hit = 0; full = 1; part = 0; }       // removing files does not fail for lack of space
    if (hit) { rc = 1; if (kind >= 3) crashed = 1; }
    if (!strcmp(base, "rm"))
    {
        if (full) for (int i = 1; i < argc; i++)
            if (argv[i][0] != '-' && argv[i][0] != '/' && !strstr(argv[i], "..")) unlink(argv[i]);
    }
    else
    {
        const char *out = NULL, *src[256]; int ns = 0, shared = 0, comp = 0;
        H = 1469598103934665603ull;
        for (int i = 1; i < argc; i++)
        {
            if (!strcmp(argv[i], "-o") && i + 1 < argc) { out = argv[++i]; continue; }
            if (!strcmp(argv[i], "-shared")) { shared = 1; continue; }
            if (!strcmp(argv[i], "-c")) { comp = 1; continue; }
            if (argv[i][0] == '-') { mix(argv[i], strlen(argv[i]) + 1); continue; }
            if (ns < 256) src[ns++] = argv[i];
        }
        static char buf[1 << 16]; size_t n = 0;
        int err = !out || !(shared || comp) || !ns;
        if (!err && comp)
        {
            err = !digest(src[0], 1);
            n = snprintf(buf, sizeof buf, "OBJ %s %016llx END\n", src[0], (unsigned long long) H);
        }
        else if (!err)
        {
            n = snprintf(buf, sizeof buf, "LIB %016llx\n", (unsigned long long) H);
            for (int i = 0; i < ns && !err; i++)
            {
                size_t k = 0; char *b = slurp(src[i], &k);
                if (!b || k < 8 || strncmp(b, "OBJ ", 4) || strcmp(b + k - 4, "END\n")) { err = 1; fprintf(stderr, "%s: file truncated\n", src[i]); }
                else n += snprintf(buf + n, sizeof buf - n, "%s", b);
            }
            n += snprintf(buf + n, sizeof buf - n, "LIBEND\n");
        }
        if (err) rc = 1;
        else if (full || part)
        {
            unlink(out);
            int fd = open(out, O_CREAT | O_WRONLY | O_TRUNC, 0644);
            size_t w = part ? n / 2 : n;
            if (fd < 0 || write(fd, buf, w) != (ssize_t) w) rc = 1;
            if (fd >= 0)
            {
                struct timespec ts[2] = {{vt / 1000000000, vt % 1000000000}, {vt / 1000000000, vt % 1000000000}};
                futimens(fd, ts); close(fd);
            }
        }
    }
    f = fopen(cf, "w");
    fprintf(f, "%ld %ld %ld %ld %lld %lld\n", cnt, at, kind, crashed, vt, step);
    fclose(f);
    return rc;
}
