/*
 * All 2^32 identifiers through IFF_checkId and IFF_checkFormType:
 *
 *   sweep LOG
 *
 * For each two leading characters the set of accepted second halves is a bitmap; equal bitmaps are
 * merged, and one event "idsweep" per function lists them with the leading characters they belong
 * to.  spec/IffTrace.tla compares them with LegalId and LegalFormType.  One process per core.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include "iff.h"
#include "id.h"
#include "error.h"

#define PROCS 8
#define MAXB 48 /* kinds of bitmaps per process; more than this are merged into one marked as overflow */
typedef struct { uint64_t w[1024]; } Bitmap;
typedef struct { int n; unsigned char over; Bitmap b[MAXB]; uint16_t count; short cell[65536 / PROCS]; volatile int done; } Part;

static void quiet(const char *fmt, va_list ap) { (void)fmt; (void)ap; }

static void work(Part *p, int k, int which)
{
    int c1, c2, i; static Bitmap m;
    for(c1 = k; c1 < 256; c1 += PROCS) for(c2 = 0; c2 < 256; c2++) {
        uint32_t base = (uint32_t)c1 << 24 | (uint32_t)c2 << 16, x;
        memset(&m, 0, sizeof m);
        if(which == 0) { for(x = 0; x < 65536; x++) if(IFF_checkId(base | x)) m.w[x >> 6] |= 1ULL << (x & 63); }
        else { for(x = 0; x < 65536; x++) if(IFF_checkFormType(base | x)) m.w[x >> 6] |= 1ULL << (x & 63); }
        for(i = 0; i < p->n; i++) if(!memcmp(&p->b[i], &m, sizeof m)) break;
        if(i == p->n) { if(p->n < MAXB) p->b[p->n++] = m; else { i = -1; p->over = 1; } }
        p->cell[(c1 / PROCS) * 256 + c2] = i;
    }
    p->done = 1;
}

int main(int argc, char **argv)
{
    int which, k, i; FILE *log = argc == 2 ? fopen(argv[1], "w") : NULL;
    if(!log) return 3;
    IFF_errorCallback = &quiet;
    for(which = 0; which < 2; which++) {
        Part *p = mmap(NULL, PROCS * sizeof(Part), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        int bad = 0, first = 1; static unsigned char usedUp[PROCS][MAXB];
        if(p == MAP_FAILED) return 3;
        fflush(log);
        for(k = 0; k < PROCS; k++) if(fork() == 0) { alarm(600); work(&p[k], k, which); _exit(0); }
        for(k = 0; k < PROCS; k++) wait(NULL);
        for(k = 0; k < PROCS; k++) if(!p[k].done) bad = 1;
        if(bad) { fprintf(log, "{\"op\":\"crash\",\"what\":\"%s\"}\n", which ? "chkft" : "chkid"); continue; }
        memset(usedUp, 0, sizeof usedUp);
        fprintf(log, "{\"op\":\"idsweep\",\"fn\":\"%s\",\"sets\":[", which ? "chkft" : "chkid");
        for(k = 0; k < PROCS; k++) for(i = 0; i < p[k].n; i++) if(!usedUp[k][i]) {
            int k2, i2, x, y, firstw = 1; Bitmap *m = &p[k].b[i];
            fprintf(log, "%s{\"acc\":[", first ? "" : ","); first = 0;
            for(x = 0; x < 256; x++) { /* ranges of accepted fourth characters per third character */
                int run = -1, f = 1; fprintf(log, "%s[", x ? "," : "");
                for(y = 0; y <= 256; y++) {
                    int on = y < 256 && (m->w[(x * 256 + y) >> 6] >> (y & 63) & 1);
                    if(on && run < 0) run = y;
                    if(!on && run >= 0) { fprintf(log, "%s[%d,%d]", f ? "" : ",", run, y - 1); f = 0; run = -1; }
                }
                fprintf(log, "]");
            }
            fprintf(log, "],\"where\":[");
            for(k2 = k; k2 < PROCS; k2++) for(i2 = 0; i2 < p[k2].n; i2++) if(!usedUp[k2][i2] && !memcmp(&p[k2].b[i2], m, sizeof *m)) {
                int c1, c2; 
                if(k2 != k || i2 != i) usedUp[k2][i2] = 1;
                for(c1 = k2; c1 < 256; c1 += PROCS) for(c2 = 0; c2 < 256; c2++) if(p[k2].cell[(c1 / PROCS) * 256 + c2] == i2) { fprintf(log, "%s%d", firstw ? "" : ",", c1 * 256 + c2); firstw = 0; }
            }
            usedUp[k][i] = 1;
            fprintf(log, "]}");
        }
        fprintf(log, "]}\n");
        munmap(p, PROCS * sizeof(Part));
    }
    return fclose(log) ? 3 : 0;
}
