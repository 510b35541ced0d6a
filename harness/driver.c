/*
 * Conformance driver: executes a script of libiff API calls and records one JSON event per call
 * (arguments, outcome and the projected state), to be judged by spec/IffTrace.tla.
 *
 *   driver SCRIPT LOG STATUS SCRATCH FIRST
 *
 * Cases before number FIRST are skipped.  STATUS (16 bytes, mapped) holds the number of the
 * current case and line, so that a crash or hang can be attributed by the caller.
 * Links against the sources of libiff, built with AddressSanitizer.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <alloca.h>
#include <stdarg.h>
#include <stdint.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
/* from the runtime of AddressSanitizer (gcc has no header for them) */
extern int __sanitizer_install_malloc_and_free_hooks(void (*malloc_hook)(const volatile void*, size_t), void (*free_hook)(const volatile void*));
extern size_t __sanitizer_get_allocated_size(const volatile void *p);
#include "iff.h"
#include "chunk.h"
#include "chunkregistry.h"
#include "defaultregistry.h"
#include "group.h"
#include "form.h"
#include "cat.h"
#include "list.h"
#include "prop.h"
#include "rawchunk.h"
#include "id.h"
#include "io.h"
#include "field.h"
#include "error.h"
#include "util.h"

static volatile __thread int in_lib; /* inside a call of the library */
static void die(const char *msg) { if(in_lib) _exit(4); fprintf(stderr, "driver: %s\n", msg); _exit(3); }

/* ------------------------------------------------------------------ scarcity: the k-th allocation for a chunk fails, closing fails */

static int oomAt, oomCount, oomHit, oomScope; /* oomScope: within a creation, where every allocation is for the chunk */
static int closeArmed, closeHit;
static int starve(void) { if(!in_lib || !oomScope || oomAt == 0 || ++oomCount != oomAt) return 0; oomHit = oomAt; return 1; }
void *__real_malloc(size_t n); void *__real_calloc(size_t k, size_t n); void *__real_realloc(void *p, size_t n); int __real_fclose(FILE *f);
void *__wrap_malloc(size_t n) { return starve() ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t k, size_t n) { return starve() ? NULL : __real_calloc(k, n); }
void *__wrap_realloc(void *p, size_t n) { return starve() ? NULL : __real_realloc(p, n); }
int __wrap_fclose(FILE *f)
{
    int r = __real_fclose(f);
    if(in_lib && closeArmed) { closeHit = 1; errno = EIO; return EOF; }
    return r;
}

/* ------------------------------------------------------------------ ledger */

#define MAPSZ (1 << 20)
typedef struct { const void *p; int live; int node; int kind; } Ent;
static Ent *map; /* open addressing, tombstones by p = (void*)1 */
static volatile int live; /* volatile: changed and used behind malloc and free */
static unsigned long mapUsed; static unsigned used[MAPSZ / 2 + 1]; /* indexes of used entries */

static unsigned hashp(const void *p) { uint64_t x = (uint64_t)p; x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 29; return (unsigned)x & (MAPSZ - 1); }
static Ent *lookup(const void *p)
{
    unsigned h = hashp(p);
    while(map[h].p != NULL) { if(map[h].p == p) return &map[h]; h = (h + 1) & (MAPSZ - 1); }
    return NULL;
}
static Ent *insert(const void *p)
{
    Ent *e = lookup(p); unsigned h;
    if(e) return e;
    h = hashp(p);
    while(map[h].p != NULL && map[h].p != (void*)1) h = (h + 1) & (MAPSZ - 1);
    if(map[h].p == NULL) { if(mapUsed >= MAPSZ / 2) die("pointer map full"); used[mapUsed++] = h; }
    map[h].p = p; map[h].live = 0; map[h].node = 0; map[h].kind = -1;
    return &map[h];
}
static void onMalloc(const volatile void *p, size_t n) { if(in_lib && p) { Ent *e = insert((const void*)p); e->live = 1; live++; } }
static void onFree(const volatile void *p)
{
    Ent *e;
    if(!p || !map) return;
    e = lookup((const void*)p);
    if(e) { if(e->live) live--; e->p = (void*)1; e->node = 0; e->live = 0; }
}

/* ------------------------------------------------------------------ output buffers */

typedef struct { unsigned char *b; size_t n, cap; } Buf;
static void put(Buf *b, const void *p, size_t n)
{
    if(b->n + n > b->cap) { int s = in_lib; in_lib = 0; b->cap = (b->n + n) * 2 + 4096; b->b = realloc(b->b, b->cap); in_lib = s; if(!b->b) die("memory"); }
    if(n) memcpy(b->b + b->n, p, n);
    b->n += n;
}
static Buf J; /* current event */
static void jraw(const char *s) { put(&J, s, strlen(s)); }
static void jint(long v) { char t[32]; snprintf(t, sizeof t, "%ld", v); jraw(t); }
static void jkey(const char *k) { if(J.n && J.b[J.n - 1] != '{') jraw(","); jraw("\""); jraw(k); jraw("\":"); }
static void jbytes(const unsigned char *p, size_t n) { size_t i; jraw("["); for(i = 0; i < n; i++) { if(i) jraw(","); jint(p[i]); } jraw("]"); }
static void kint(const char *k, long v) { jkey(k); jint(v); }
static void kbool(const char *k, int v) { jkey(k); jraw(v ? "true" : "false"); }
static void kstr(const char *k, const char *v) { jkey(k); jraw("\""); jraw(v); jraw("\""); }
static void kbytes(const char *k, const unsigned char *p, size_t n) { jkey(k); jbytes(p, n); }
static void jid(IFF_ID id) { unsigned char t[4]; t[0] = id >> 24; t[1] = id >> 16; t[2] = id >> 8; t[3] = id; jbytes(t, 4); }
static void kid(const char *k, IFF_ID id) { jkey(k); jid(id); }

static Buf Out, Err, Diag; static int diagCalls;
static void errCapture(const char *fmt, va_list ap)
{
    char t[512]; int n, s = in_lib; in_lib = 0;
    n = vsnprintf(t, sizeof t, fmt, ap);
    if(n > (int)sizeof t - 1) n = sizeof t - 1;
    put(&Diag, t, n < 0 ? 0 : n); diagCalls++; in_lib = s;
}
static ssize_t capWrite(void *c, const char *p, size_t n) { put((Buf*)c, p, n); return n; }
static FILE *realStdin, *realStdout, *realStderr, *capOut, *capErr;
static FILE *capture(Buf *b) { cookie_io_functions_t f = {0}; FILE *s; f.write = capWrite; s = fopencookie(b, "w", f); setvbuf(s, malloc(65536), _IOFBF, 65536); return s; }

/* ------------------------------------------------------------------ handlers */

enum { K_CAT, K_FORM, K_LIST, K_PROP, K_RAW, K_E1, K_E2, K_E3, K_E4, K_E5, K_E6, K_BAD, K_N };
static const char *kindName[] = {"cat", "form", "list", "prop", "raw", "e1", "e2", "e3", "e4", "e5", "e6", "bad"};
static int kindOf(const char *s) { int i; for(i = 0; i < K_N; i++) if(!strcmp(s, kindName[i])) return i; die("kind"); return 0; }

enum { F_UB, F_UW, F_W, F_UL, F_L, F_ID };
#define MAXF 6
static const struct { int n; int f[MAXF]; } layout[] = {
    {3, {F_UB, F_UB, F_UW}}, {2, {F_L, F_L}}, {6, {F_UB, F_UW, F_W, F_UL, F_L, F_ID}}, {0, {0}}, {2, {F_ID, F_UB}}, {2, {F_UL, F_W}} };
static int fsize(int t) { return t == F_UB ? 1 : t == F_UW || t == F_W ? 2 : 4; }

typedef struct { IFF_Group *parent; IFF_ID chunkId; IFF_Long chunkSize; int kind;
                 IFF_UByte ub[MAXF]; IFF_UWord uw[MAXF]; IFF_Word w[MAXF]; IFF_ULong ul[MAXF]; IFF_Long l[MAXF]; IFF_ID id[MAXF]; char *extra; } Ext;

static IFF_Chunk *extCreate(int kind, const IFF_ID id, const IFF_Long size)
{
    Ext *e = (Ext*)IFF_createChunk(id, size, sizeof(Ext));
    if(e) {
        IFF_Group *p = e->parent;
        memset(e, 0, sizeof *e);
        e->parent = p; e->chunkId = id; e->chunkSize = size; e->kind = kind;
        e->extra = malloc(3); /* memory of its own, so that the free handler matters */
        if(!e->extra) { free(e); return NULL; }
    }
    return (IFF_Chunk*)e;
}
static IFF_Bool extRead(int kind, FILE *f, IFF_Chunk *c, IFF_Long *bp)
{
    Ext *e = (Ext*)c; int i; IFF_FieldStatus s = IFF_FIELD_MORE;
    for(i = 0; i < layout[kind - K_E1].n; i++) {
        switch(layout[kind - K_E1].f[i]) {
            case F_UB: s = IFF_readUByteField(f, &e->ub[i], c, "ub", bp); break;
            case F_UW: s = IFF_readUWordField(f, &e->uw[i], c, "uw", bp); break;
            case F_W: s = IFF_readWordField(f, &e->w[i], c, "w", bp); break;
            case F_UL: s = IFF_readULongField(f, &e->ul[i], c, "ul", bp); break;
            case F_L: s = IFF_readLongField(f, &e->l[i], c, "l", bp); break;
            case F_ID: s = IFF_readIdField(f, &e->id[i], c, "id", bp); break;
        }
        if(s != IFF_FIELD_MORE) return IFF_deriveSuccess(s);
    }
    return TRUE;
}
static IFF_Bool extWrite(int kind, FILE *f, const IFF_Chunk *c, IFF_Long *bp)
{
    const Ext *e = (const Ext*)c; int i; IFF_FieldStatus s = IFF_FIELD_MORE;
    for(i = 0; i < layout[kind - K_E1].n; i++) {
        switch(layout[kind - K_E1].f[i]) {
            case F_UB: s = IFF_writeUByteField(f, e->ub[i], c, "ub", bp); break;
            case F_UW: s = IFF_writeUWordField(f, e->uw[i], c, "uw", bp); break;
            case F_W: s = IFF_writeWordField(f, e->w[i], c, "w", bp); break;
            case F_UL: s = IFF_writeULongField(f, e->ul[i], c, "ul", bp); break;
            case F_L: s = IFF_writeLongField(f, e->l[i], c, "l", bp); break;
            case F_ID: s = IFF_writeIdField(f, e->id[i], c, "id", bp); break;
        }
        if(s != IFF_FIELD_MORE) return IFF_deriveSuccess(s);
    }
    return TRUE;
}
/* value of field i as bytes, most significant first (by arithmetic, not by memory layout) */
static int extField(const Ext *e, int i, unsigned char *t)
{
    int ft = layout[e->kind - K_E1].f[i], n = fsize(ft), j; unsigned long v = 0;
    switch(ft) { case F_UB: v = e->ub[i]; break; case F_UW: v = e->uw[i]; break; case F_W: v = (unsigned long)(long)e->w[i]; break;
                 case F_UL: v = e->ul[i]; break; case F_L: v = (unsigned long)(long)e->l[i]; break; case F_ID: v = e->id[i]; break; }
    for(j = n - 1; j >= 0; j--) { t[j] = v & 0xff; v >>= 8; }
    return n;
}
static void extSet(Ext *e, int i, const unsigned char *t)
{
    int ft = layout[e->kind - K_E1].f[i], n = fsize(ft), j; unsigned long v = 0; long sv;
    for(j = 0; j < n; j++) v = v << 8 | t[j];
    sv = n == 2 && v >= 0x8000 ? (long)v - 0x10000 : n == 4 && v >= 0x80000000UL ? (long)v - 0x100000000L : (long)v;
    switch(ft) { case F_UB: e->ub[i] = v; break; case F_UW: e->uw[i] = v; break; case F_W: e->w[i] = sv; break;
                 case F_UL: e->ul[i] = v; break; case F_L: e->l[i] = sv; break; case F_ID: e->id[i] = v; break; }
}
static IFF_Bool extCheck(const IFF_Chunk *c)
{
    const Ext *e = (const Ext*)c; unsigned char t[4];
    if(e->kind == K_E6) { extField(e, 0, t); if(t[0] >= 128) { IFF_error("value out of range\n"); return FALSE; } }
    return TRUE;
}
static void extPrint(const IFF_Chunk *c, unsigned int ind)
{
    const Ext *e = (const Ext*)c; int i, j; unsigned char t[4];
    for(i = 0; i < layout[e->kind - K_E1].n; i++) {
        int n = extField(e, i, t);
        IFF_printIndent(stdout, ind, "field =");
        for(j = 0; j < n; j++) printf(" %02x", t[j]);
        printf(";\n");
    }
}
static IFF_Bool extCompare(const IFF_Chunk *a, const IFF_Chunk *b)
{
    const Ext *x = (const Ext*)a, *y = (const Ext*)b; int i; unsigned char t[4], u[4];
    if(x->kind != y->kind) return FALSE;
    for(i = 0; i < layout[x->kind - K_E1].n; i++) { int n = extField(x, i, t); extField(y, i, u); if(memcmp(t, u, n)) return FALSE; }
    return TRUE;
}

#define NSLOT 96
static int slotKind[NSLOT], slotBase, slotUsed;
enum { H_CRE, H_RD, H_WR, H_CHK, H_FRE, H_PRT, H_CMP, H_N };
static const char *hName[] = {"cre", "rd", "wr", "chk", "fre", "prt", "cmp"};
typedef struct { int slot; IFF_ID id; long pos; } Call;
static struct { Call *c; int n, cap; } calls[H_N];
static long streamPos(FILE *f);
static void note(int h, int slot, IFF_ID id, long pos)
{
    int s = in_lib; in_lib = 0;
    if(calls[h].n == calls[h].cap) { calls[h].cap = calls[h].cap * 2 + 64; calls[h].c = realloc(calls[h].c, calls[h].cap * sizeof(Call)); }
    calls[h].c[calls[h].n].slot = slot; calls[h].c[calls[h].n].id = id; calls[h].c[calls[h].n].pos = pos; calls[h].n++;
    in_lib = s;
}
static const struct { IFF_Chunk *(*cre)(const IFF_ID, const IFF_Long); IFF_Bool (*rd)(FILE*, IFF_Chunk*, const IFF_ChunkRegistry*, IFF_Long*);
    IFF_Bool (*wr)(FILE*, const IFF_Chunk*, const IFF_ChunkRegistry*, IFF_Long*); IFF_Bool (*chk)(const IFF_Chunk*, const IFF_ChunkRegistry*);
    void (*fre)(IFF_Chunk*, const IFF_ChunkRegistry*); void (*prt)(const IFF_Chunk*, const unsigned int, const IFF_ChunkRegistry*);
    IFF_Bool (*cmp)(const IFF_Chunk*, const IFF_Chunk*, const IFF_ChunkRegistry*); } builtin[] = {
    {&IFF_createUnparsedCAT, &IFF_readCAT, &IFF_writeCAT, &IFF_checkCAT, &IFF_freeCAT, &IFF_printCAT, &IFF_compareCAT},
    {&IFF_createUnparsedForm, &IFF_readForm, &IFF_writeForm, &IFF_checkForm, &IFF_freeForm, &IFF_printForm, &IFF_compareForm},
    {&IFF_createUnparsedList, &IFF_readList, &IFF_writeList, &IFF_checkList, &IFF_freeList, &IFF_printList, &IFF_compareList},
    {&IFF_createUnparsedProp, &IFF_readProp, &IFF_writeProp, &IFF_checkProp, &IFF_freeProp, &IFF_printProp, &IFF_compareProp},
    {&IFF_createRawChunk, &IFF_readRawChunk, &IFF_writeRawChunk, &IFF_checkRawChunk, &IFF_freeRawChunk, &IFF_printRawChunk, &IFF_compareRawChunk} };

static int kindOfPtr(const IFF_Chunk *c);
/* a handler that meets a chunk of another kind than its own must not touch it */
static int wrongKind(int s, const IFF_Chunk *c) { return kindOfPtr(c) != slotKind[s]; }

static IFF_Chunk *hCre(int s, const IFF_ID id, const IFF_Long size)
{
    int o = oomScope; IFF_Chunk *c;
    oomScope = 1; c = slotKind[s] <= K_RAW ? builtin[slotKind[s]].cre(id, size) : extCreate(slotKind[s], id, size); oomScope = o;
    if(c) { insert(c)->kind = slotKind[s]; note(H_CRE, s, id, 0); }
    return c;
}
static IFF_Bool hRd(int s, FILE *f, IFF_Chunk *c, const IFF_ChunkRegistry *r, IFF_Long *bp)
{ note(H_RD, s, c->chunkId, streamPos(f)); if(wrongKind(s, c)) return FALSE; return slotKind[s] <= K_RAW ? builtin[slotKind[s]].rd(f, c, r, bp) : extRead(slotKind[s], f, c, bp); }
static IFF_Bool hWr(int s, FILE *f, const IFF_Chunk *c, const IFF_ChunkRegistry *r, IFF_Long *bp)
{ note(H_WR, s, c->chunkId, -1); if(wrongKind(s, c)) return FALSE; return slotKind[s] <= K_RAW ? builtin[slotKind[s]].wr(f, c, r, bp) : extWrite(slotKind[s], f, c, bp); }
static IFF_Bool hChk(int s, const IFF_Chunk *c, const IFF_ChunkRegistry *r)
{ note(H_CHK, s, c->chunkId, 0); if(wrongKind(s, c)) return FALSE; return slotKind[s] <= K_RAW ? builtin[slotKind[s]].chk(c, r) : extCheck(c); }
static void hFre(int s, IFF_Chunk *c, const IFF_ChunkRegistry *r)
{ note(H_FRE, s, c->chunkId, 0); if(wrongKind(s, c)) return; if(slotKind[s] <= K_RAW) builtin[slotKind[s]].fre(c, r); else { free(((Ext*)c)->extra); } }
static void hPrt(int s, const IFF_Chunk *c, const unsigned int i, const IFF_ChunkRegistry *r)
{ note(H_PRT, s, c->chunkId, 0); if(wrongKind(s, c)) return; if(slotKind[s] <= K_RAW) builtin[slotKind[s]].prt(c, i, r); else extPrint(c, i); }
static IFF_Bool hCmp(int s, const IFF_Chunk *a, const IFF_Chunk *b, const IFF_ChunkRegistry *r)
{ note(H_CMP, s, a->chunkId, 0); if(wrongKind(s, a) || wrongKind(s, b)) return FALSE; return slotKind[s] <= K_RAW ? builtin[slotKind[s]].cmp(a, b, r) : extCompare(a, b); }

#define SLOTFN(n) \
 static IFF_Chunk *c##n(const IFF_ID i, const IFF_Long z) { return hCre(n, i, z); } \
 static IFF_Bool r##n(FILE *f, IFF_Chunk *c, const IFF_ChunkRegistry *r, IFF_Long *b) { return hRd(n, f, c, r, b); } \
 static IFF_Bool w##n(FILE *f, const IFF_Chunk *c, const IFF_ChunkRegistry *r, IFF_Long *b) { return hWr(n, f, c, r, b); } \
 static IFF_Bool k##n(const IFF_Chunk *c, const IFF_ChunkRegistry *r) { return hChk(n, c, r); } \
 static void f##n(IFF_Chunk *c, const IFF_ChunkRegistry *r) { hFre(n, c, r); } \
 static void p##n(const IFF_Chunk *c, const unsigned int i, const IFF_ChunkRegistry *r) { hPrt(n, c, i, r); } \
 static IFF_Bool q##n(const IFF_Chunk *a, const IFF_Chunk *b, const IFF_ChunkRegistry *r) { return hCmp(n, a, b, r); }
#define SLOTREF(n) {0, &c##n, &r##n, &w##n, &k##n, &f##n, &p##n, &q##n},
#define ROW(M, d) M(d##0) M(d##1) M(d##2) M(d##3) M(d##4) M(d##5) M(d##6) M(d##7) M(d##8) M(d##9)
#define ROW0(M) M(0) M(1) M(2) M(3) M(4) M(5) M(6) M(7) M(8) M(9)
#define ALL(M) ROW0(M) ROW(M, 1) ROW(M, 2) ROW(M, 3) ROW(M, 4) ROW(M, 5) ROW(M, 6) ROW(M, 7) ROW(M, 8) M(90) M(91) M(92) M(93) M(94) M(95)
ALL(SLOTFN)
static const IFF_ChunkType slotType[NSLOT] = { ALL(SLOTREF) };

/* ------------------------------------------------------------------ registries */

#define NREG 8
static struct { IFF_ChunkRegistry reg; int base, n; void *mem[2048]; int nmem; IFF_ChunkType *def; } regs[NREG];
static void *keep(int r, size_t n) { void *p = calloc(1, n ? n : 1); if(regs[r].nmem >= 2048) die("registry too large"); regs[r].mem[regs[r].nmem++] = p; return p; }
static const IFF_ChunkRegistry *regp(int r) { return r == 0 ? NULL : r == 9 ? &IFF_defaultChunkRegistry : &regs[r].reg; }
static const IFF_ChunkRegistry *regd(int r) { return r == 0 ? &IFF_defaultChunkRegistry : regp(r); }

/* ------------------------------------------------------------------ script input */

static char *line, *cur; static size_t lineCap;
static char *tok(void)
{
    char *s;
    while(*cur == ' ') cur++;
    if(!*cur || *cur == '\n') return NULL;
    s = cur; while(*cur && *cur != ' ' && *cur != '\n') cur++;
    if(*cur) *cur++ = 0;
    return s;
}
static char *need(void) { char *t = tok(); if(!t) die("missing argument"); return t; }
static long num(void) { return strtol(need(), NULL, 10); }
static IFF_ID idarg(void) { return (IFF_ID)strtoul(need(), NULL, 16); }
static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static unsigned char *hexarg(const char *s, size_t *n) /* "-" = empty; "hh*count" repeats; parts joined by '.' */
{
    Buf b = {0};
    if(strcmp(s, "-")) while(*s) {
        if(*s == '.') { s++; continue; }
        { unsigned char c = hexv(s[0]) << 4 | hexv(s[1]); s += 2;
          if(*s == '*') { long k = strtol(s + 1, (char**)&s, 10); while(k-- > 0) put(&b, &c, 1); } else put(&b, &c, 1); }
    }
    *n = b.n; if(!b.b) b.b = malloc(1);
    return b.b;
}

#define NH 4096
static IFF_Chunk *hnd[NH];
static int badref;
/* reference: HANDLE[.kI|.pI]* ; "0" is a null reference */
static IFF_Chunk *refarg(void)
{
    char *s = need(); long h = strtol(s, &s, 10); IFF_Chunk *c;
    if(h < 0 || h >= NH) die("handle");
    c = hnd[h];
    while(c && *s == '.') {
        int p = s[1] == 'p'; long i = strtol(s + 2, &s, 10); int k = kindOfPtr(c);
        if(k > K_PROP) { c = NULL; break; }
        if(p) c = k == K_LIST && i < ((IFF_List*)c)->propLength ? (IFF_Chunk*)((IFF_List*)c)->prop[i] : NULL;
        else c = i < ((IFF_Group*)c)->chunkLength ? ((IFF_Group*)c)->chunk[i] : NULL;
    }
    if(!c) badref |= hnd[h] ? 1 : 2;
    return c;
}

/* ------------------------------------------------------------------ projection */

static int nextNode;
static int kindOfPtr(const IFF_Chunk *c)
{
    Ent *e = lookup(c);
    if(e && e->kind >= 0) return e->kind;
    switch(c->chunkId) { case IFF_ID_CAT: return K_CAT; case IFF_ID_FORM: return K_FORM; case IFF_ID_LIST: return K_LIST; case IFF_ID_PROP: return K_PROP; }
    return K_RAW;
}
static int nodeOf(const void *p)
{
    Ent *e;
    if(!p) return 0;
    e = lookup(p);
    if(!e || (!e->live && !e->node)) return -1; /* not a live object */
    if(!e->node) e->node = ++nextNode;
    return e->node;
}
static int alive(const void *p) { Ent *e = p ? lookup(p) : NULL; return e && e->live; }
static int payload(const IFF_Chunk *c) /* is the payload of a raw chunk all there? */
{
    const IFF_RawChunk *r = (const IFF_RawChunk*)c;
    return c->chunkSize >= 0 && (c->chunkSize == 0 || (alive(r->chunkData) && __sanitizer_get_allocated_size(r->chunkData) >= (size_t)c->chunkSize));
}
/* A dump lists the chunks of a hierarchy in document order; "props" and "kids" hold their positions
   in that list, 0 for something that is not a live object. */
typedef struct { const IFF_Chunk *c; int k, np, nk; size_t sub; } Vis;
static Vis *vis; static int nvis, capvis; static int *sub; static size_t nsub, capsub;
static int visit(const IFF_Chunk *c)
{
    int me, k, i, np, nk; size_t at;
    if(!alive(c)) return 0;
    if(nvis >= 400000) return 0; /* a cycle */
    if(nvis == capvis) { capvis = capvis * 2 + 256; vis = realloc(vis, capvis * sizeof *vis); }
    me = nvis++; k = kindOfPtr(c);
    np = k == K_LIST ? (int)((const IFF_List*)c)->propLength : 0; nk = k <= K_PROP ? (int)((const IFF_Group*)c)->chunkLength : 0;
    if(np < 0 || np > 200000) np = 0;
    if(nk < 0 || nk > 200000) nk = 0;
    at = nsub; nsub += np + nk;
    if(nsub > capsub) { capsub = nsub * 2 + 256; sub = realloc(sub, capsub * sizeof *sub); }
    vis[me].c = c; vis[me].k = k; vis[me].np = np; vis[me].nk = nk; vis[me].sub = at;
    nodeOf(c);
    for(i = 0; i < np; i++) { int v = visit((IFF_Chunk*)((const IFF_List*)c)->prop[i]); sub[at + i] = v; }
    for(i = 0; i < nk; i++) { int v = visit(((const IFF_Group*)c)->chunk[i]); sub[at + np + i] = v; }
    return me + 1;
}
static IFF_Chunk *rootOf(IFF_Chunk *c) { int n = 0; while(c->parent && alive(c->parent) && n++ < 100000) c = (IFF_Chunk*)c->parent; return c; }
static void dumpTree(const char *key, IFF_Chunk *root)
{
    int v, i, j;
    jkey(key); jraw("["); nvis = 0; nsub = 0;
    if(root) visit(root);
    for(v = 0; v < nvis; v++) {
        const IFF_Chunk *c = vis[v].c; int k = vis[v].k;
        if(k == K_RAW && !payload(c)) k = K_BAD;
        if(v) jraw(",");
        jraw("{"); kint("n", nodeOf(c)); kid("id", c->chunkId); kstr("k", kindName[k]); kint("sz", c->chunkSize); kint("par", nodeOf(c->parent));
        kid("ty", k <= K_PROP ? ((const IFF_Group*)c)->groupType : 0);
        jkey("props"); jraw("["); for(i = 0; i < vis[v].np; i++) { if(i) jraw(","); jint(sub[vis[v].sub + i]); } jraw("]");
        jkey("kids"); jraw("["); for(i = 0; i < vis[v].nk; i++) { if(i) jraw(","); jint(sub[vis[v].sub + vis[v].np + i]); } jraw("]");
        if(k == K_RAW) kbytes("data", ((const IFF_RawChunk*)c)->chunkData, c->chunkSize); else kbytes("data", NULL, 0);
        jkey("ext"); jraw("[");
        if(k >= K_E1 && k <= K_E6) for(i = 0; i < layout[k - K_E1].n; i++) { unsigned char t[4]; j = extField((const Ext*)c, i, t); if(i) jraw(","); jbytes(t, j); }
        jraw("]}");
    }
    jraw("]");
}

/* ------------------------------------------------------------------ streams */

typedef struct { const unsigned char *b; size_t n, pos; long chunk, errAt; int once, hit; long hitPos; int pat[8], npat, turn; } Src;
static ssize_t srcRead(void *c, char *p, size_t n)
{
    Src *s = c; size_t m = s->n - s->pos;
    if(s->errAt >= 0 && (long)s->pos >= s->errAt && (!s->once || !s->hit)) { if(!s->hit) s->hitPos = s->pos; s->hit = 1; errno = EIO; return -1; }
    if(m > n) m = n;
    if(s->chunk > 0 && m > (size_t)s->chunk) m = s->chunk;
    if(s->npat > 0) { size_t k = s->pat[s->turn++ % s->npat]; if(m > k) m = k; } /* pieces of these sizes in turn */
    if(s->errAt >= 0 && !s->hit && (long)(s->pos + m) > s->errAt) m = s->errAt - s->pos;
    memcpy(p, s->b + s->pos, m); s->pos += m;
    return m;
}
typedef struct { Buf *b; long cap, failAt; int once, hit; long nwrites; } Sink;
static ssize_t sinkWrite(void *c, const char *p, size_t n)
{
    Sink *s = c; s->nwrites++;
    if(s->failAt > 0 && (s->once ? s->nwrites == s->failAt : s->nwrites >= s->failAt)) { s->hit = 1; errno = EIO; return 0; }
    if(s->cap >= 0) { long room = s->cap - (long)s->b->n; if(room < (long)n) { s->hit = 1; put(s->b, p, room > 0 ? room : 0); errno = ENOSPC; return room > 0 ? room : 0; } }
    put(s->b, p, n); return n;
}
static FILE *srcOpen(Src *s, int unbuffered) { cookie_io_functions_t f = {0}; FILE *x; f.read = srcRead; x = fopencookie(s, "r", f); if(unbuffered) setvbuf(x, NULL, _IONBF, 0); return x; }
static FILE *sinkOpen(Sink *s, long bufsz, char **mem)
{
    cookie_io_functions_t f = {0}; FILE *x; f.write = sinkWrite; x = fopencookie(s, "w", f);
    *mem = NULL;
    if(bufsz == 0) setvbuf(x, NULL, _IONBF, 0); else if(bufsz > 0) { *mem = malloc(bufsz); setvbuf(x, *mem, _IOFBF, bufsz); }
    return x;
}
static FILE *posFile; /* stream whose position handlers may query */
static long streamPos(FILE *f) { int s = in_lib, e = errno; long p; in_lib = 0; p = f == posFile ? ftell(f) : -1; in_lib = s; errno = e; return p; }

static char scratch[512]; /* also the working directory */
static char *spath(const char *n) { static char t[4][700]; static int k; k = (k + 1) & 3; snprintf(t[k], sizeof t[k], "%s/%s", scratch, n); return t[k]; }
/* the name of a file relative to the working directory: as=HEX, otherwise the path of n */
static const char *named(const char *as, const char *n)
{
    static char t[2][700]; static int k; size_t i; k = !k;
    if(!as) return spath(n);
    for(i = 0; as[2 * i] && as[2 * i] != '-' && i < sizeof t[k] - 1; i++) t[k][i] = hexv(as[2 * i]) << 4 | hexv(as[2 * i + 1]);
    t[k][i] = 0; return t[k];
}
static void putFile(const char *path, const unsigned char *b, size_t n) { int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644); size_t o = 0; while(o < n) { ssize_t w = write(fd, b + o, n - o); if(w <= 0) die("scratch file"); o += w; } close(fd); }
static void getFile(const char *path, Buf *b) { int fd = open(path, O_RDONLY); unsigned char t[65536]; ssize_t r; b->n = 0; if(fd < 0) return; while((r = read(fd, t, sizeof t)) > 0) put(b, t, r); close(fd); }

#define NW 32
static struct { char name[24]; Buf b; int set; } wbuf[NW];
static Buf *wname(const char *s) { int i; for(i = 0; i < NW; i++) { if(!wbuf[i].set) { wbuf[i].set = 1; snprintf(wbuf[i].name, 24, "%s", s); wbuf[i].b.n = 0; } if(!strcmp(wbuf[i].name, s)) return &wbuf[i].b; } die("too many outputs"); return NULL; }
static unsigned char *content(size_t *n)
{
    char *s = need();
    if(*s == '@') { Buf *b = wname(s + 1); unsigned char *p; *n = b->n; p = malloc(b->n + 1); if(b->n) memcpy(p, b->b, b->n); return p; }
    return hexarg(s, n);
}

#define NS 16
static struct { FILE *f; Src src; Sink sink; Buf buf; unsigned char *data; char *mem; char kind; } st[NS];

/* ------------------------------------------------------------------ one library call */

static int liveBefore, filesBefore, filesAfter;
static int openFiles(void) { int i, n = 0; for(i = 0; i < 96; i++) n += fcntl(i, F_GETFD) != -1; return n; }
static unsigned callNo; /* shifts the stack, so that an address that leaks into a diagnostic differs between calls */
static void callBegin(void)
{
    int h; for(h = 0; h < H_N; h++) calls[h].n = 0;
    Diag.n = 0; diagCalls = 0; callNo++; oomCount = oomHit = closeHit = 0; Out.n = 0; Err.n = 0; liveBefore = live; filesBefore = openFiles();
    stdout = capOut; stderr = capErr; alarm(10); in_lib = 1;
    { static const int left[] = {0, EINTR, ENOENT, EAGAIN, ENOMEM, ERANGE, EIO}; errno = left[callNo % 7]; } /* whatever happened before */
}
static void callEnd(void) { in_lib = 0; alarm(0); filesAfter = openFiles(); fflush(capOut); fflush(capErr); stdout = realStdout; stderr = realStderr; }
static void jcalls(int h, int pos)
{
    int i; jkey(hName[h]); jraw("[");
    for(i = 0; i < calls[h].n; i++) { if(i) jraw(","); jraw("["); jint(calls[h].c[i].slot - slotBase + 1); jraw(","); jid(calls[h].c[i].id); if(pos) { jraw(","); jint(calls[h].c[i].pos); } jraw("]"); }
    jraw("]");
}
static unsigned long long fnv(const Buf *b) { unsigned long long h = 1469598103934665603ULL; size_t i; for(i = 0; i < b->n; i++) { h ^= b->b[i]; h *= 1099511628211ULL; } return h; }
static void common(void) /* what is observed around every call */
{
    char t[32];
    kint("diag", (long)Diag.n); snprintf(t, sizeof t, "%016llx", fnv(&Diag)); kstr("dh", t);
    kbytes("out", Out.b, Out.n); kint("err", (long)Err.n); snprintf(t, sizeof t, "%016llx", fnv(&Err)); kstr("eh", t);
    kint("dl", live - liveBefore); kint("df", filesAfter - filesBefore); kint("oom", oomHit); oomAt = oomScope = closeArmed = 0;
}
static FILE *logf_;
static long caseNo;
static int *status;
static void beginEvent(const char *op) { J.n = 0; jraw("{"); kstr("op", op); }
static void endEvent(void) { jraw("}\n"); if(fwrite(J.b, 1, J.n, logf_) != J.n || fflush(logf_)) die("log"); }

static void setSlots(int r) { slotBase = r >= 1 && r < NREG ? regs[r].base : 0; }

/* ------------------------------------------------------------------ reading */

typedef struct { const char *buf; size_t n; int fd; } Feeder;
static void *feed(void *a) { Feeder *f = a; size_t o = 0; while(o < f->n) { size_t k = f->n - o > 7 ? 7 : f->n - o; ssize_t w; if(o > 256) k = f->n - o; w = write(f->fd, f->buf + o, k); if(w <= 0) break; o += w; } close(f->fd); return NULL; }

/* named pipes: the other end opens it, too, and is released if the library never does */
#define FIFO_ROOM (64 << 20)
typedef struct { char name[700]; Feeder f; char *got; size_t n; } Fifo;
static void *fifoFeed(void *a) { Fifo *x = a; x->f.fd = open(x->name, O_WRONLY); return x->f.fd < 0 ? NULL : feed(&x->f); }
static void *fifoDrain(void *a) { Fifo *x = a; ssize_t k; int fd = open(x->name, O_RDONLY); if(fd < 0) return NULL; while((k = read(fd, x->got + x->n, FIFO_ROOM - x->n)) > 0) x->n += k; close(fd); return NULL; } /* allocates nothing: the ledger is for one thread */
static void fifoMake(Fifo *x, const char *name, void *(*end)(void*), pthread_t *th) { unlink(name); snprintf(x->name, sizeof x->name, "%s", name); if(mkfifo(name, 0600)) die("fifo"); if(pthread_create(th, NULL, end, x)) die("thread"); }
static void fifoEnd(Fifo *x, int how, pthread_t th)
{
    int fd = -1; struct timespec d = {0, 1000000};
    while(pthread_tryjoin_np(th, NULL)) { if(fd < 0) fd = open(x->name, how | O_NONBLOCK); if(fd >= 0 && how == O_RDONLY) { char t[4096]; if(read(fd, t, sizeof t) == 0) { close(fd); fd = -1; } } else if(fd >= 0) { close(fd); fd = -1; } nanosleep(&d, NULL); }
    if(fd >= 0) close(fd);
    unlink(x->name);
}

static void doRead(void)
{
    Fifo fifo; int named_pipe = 0;
    long h = num(); int r = num(); char *mode = need(); size_t n; unsigned char *b = content(&n); char *t;
    long chunk = 0, errAt = -1; int once = 0, unbuf = 0, raw = 0; IFF_Chunk *c = NULL; IFF_ID scope = 0; const char *as = NULL, *name;
    FILE *f = NULL; Src s; int pat[8], npat = 0; long rbuf = 0; char *rmem = NULL; long consumed = -1; FILE *saveIn = stdin; Feeder fd; pthread_t th; int threaded = 0;
    while((t = tok())) {
        if(!strncmp(t, "chunk=", 6)) chunk = atol(t + 6);
        else if(!strncmp(t, "pat=", 4)) { for(t += 4; t && npat < 8; t = strchr(t, '.') ? strchr(t, '.') + 1 : NULL) pat[npat++] = atoi(t) > 0 ? atoi(t) : 1; }
        else if(!strncmp(t, "rbuf=", 5)) rbuf = atol(t + 5);
        else if(!strncmp(t, "err=", 4)) errAt = atol(t + 4);
        else if(!strcmp(t, "once")) once = 1;
        else if(!strcmp(t, "unbuf")) unbuf = 1;
        else if(!strncmp(t, "as=", 3)) as = t + 3;
        else if(!strncmp(t, "scope=", 6)) { raw = 1; scope = strtoul(t + 6, NULL, 16); }
        else die("read option");
    }
    name = named(as, !strcmp(mode, "missing") ? "missing" : "in");
    memset(&s, 0, sizeof s); s.b = b; s.n = n; s.chunk = chunk; s.errAt = errAt; s.once = once; memcpy(s.pat, pat, sizeof pat); s.npat = npat;
    setSlots(r);
    if(!strcmp(mode, "path") || !strcmp(mode, "file") || !strcmp(mode, "read") || !strcmp(mode, "stdinfile")) putFile(name, b, n);
    if(!strcmp(mode, "cookie") || !strcmp(mode, "stdincookie")) f = srcOpen(&s, unbuf);
    else if(!strcmp(mode, "file") || !strcmp(mode, "stdinfile")) f = fopen(name, "rb");
    else if(!strcmp(mode, "mem")) { f = n ? fmemopen(b, n, "rb") : fopen("/dev/null", "rb"); }
    else if(!strcmp(mode, "pipe") || !strcmp(mode, "stdinpipe")) {
        int p[2]; if(pipe(p)) die("pipe");
        fd.buf = (char*)b; fd.n = n; fd.fd = p[1]; f = fdopen(p[0], "rb"); threaded = 1;
        if(pthread_create(&th, NULL, feed, &fd)) die("thread");
    }
    else if(!strcmp(mode, "missing")) unlink(name);
    else if(!strcmp(mode, "fifo")) { fifo.f.buf = (char*)b; fifo.f.n = n; fifoMake(&fifo, name, fifoFeed, &th); named_pipe = 1; }
    if(f && unbuf) setvbuf(f, NULL, _IONBF, 0);
    else if(f && rbuf > 0) { rmem = malloc(rbuf); setvbuf(f, rmem, _IOFBF, rbuf); }
    posFile = f && (!strcmp(mode, "file") || !strcmp(mode, "mem")) ? f : NULL;
    if(!strncmp(mode, "stdin", 5)) stdin = f;
    { volatile char *shift = alloca(16 + (callNo * 7919 % 64) * 16); shift[0] = 1; }
    callBegin();
    if(!strcmp(mode, "path")) c = IFF_readFile(name, regp(r));
    else if(!strcmp(mode, "read") || !strcmp(mode, "fifo")) c = IFF_read(name, regp(r));
    else if(!strcmp(mode, "missing")) c = IFF_read(name, regp(r));
    else if(!strcmp(mode, "dir")) c = IFF_readFile(as ? name : scratch, regp(r));
    else if(!strncmp(mode, "stdin", 5)) c = IFF_read(NULL, regp(r));
    else if(raw) c = IFF_readChunk(f, scope, regd(r));
    else c = IFF_readFd(f, regp(r));
    callEnd();
    stdin = saveIn;
    if(posFile) consumed = ftell(f);
    else if(f && unbuf && (!strcmp(mode, "cookie"))) consumed = s.pos;
    posFile = NULL;
    if(f) fclose(f);
    if(named_pipe) { fifoEnd(&fifo, O_RDONLY, th); filesAfter = filesBefore; }
    if(as && strcmp(mode, "dir") && *name) unlink(name);
    free(rmem);
    if(threaded) { pthread_join(th, NULL); filesAfter = filesBefore; /* the other end is closed meanwhile */ }
    hnd[h] = c;
    beginEvent("read"); kint("r", r); kstr("mode", mode); kstr("as", as ? as : ""); kbytes("content", b, n); kbool("chunkwise", raw); kid("scope", scope);
    kint("errat", errAt); kbool("hit", s.hit || oomHit); kint("hitpos", s.hit && !oomHit ? s.hitPos : -1); kint("consumed", consumed);
    kbool("ok", c != NULL); kint("root", nodeOf(c)); dumpTree("nodes", c);
    common(); jcalls(H_CRE, 0); jcalls(H_RD, 1); jcalls(H_FRE, 0); endEvent();
    free(b);
}

/* ------------------------------------------------------------------ writing */

static void doWrite(void)
{
    IFF_Chunk *c = refarg(); int r = num(); char *mode = need(); Buf *w = wname(need()); char *t;
    long cap = -1, failAt = 0, bufsz = -2, pre = -1; int once = 0, raw = 0, dump = 0; IFF_Bool ok = FALSE; FILE *f = NULL, *saveOut; Sink s; char *mem = NULL; IFF_ID scope = 0; const char *as = NULL, *name;
    struct rlimit old, lim; int hit = 0, capped = 0, appended = 0; Buf tmp = {0}; int p[2]; int threaded = 0; Fifo fifo; pthread_t th;
    while((t = tok())) {
        if(!strncmp(t, "cap=", 4)) cap = atol(t + 4);
        else if(!strncmp(t, "fail=", 5)) failAt = atol(t + 5);
        else if(!strncmp(t, "buf=", 4)) bufsz = atol(t + 4);
        else if(!strncmp(t, "pre=", 4)) pre = atol(t + 4);
        else if(!strcmp(t, "noclose")) closeArmed = 1;
        else if(!strcmp(t, "once")) once = 1;
        else if(!strcmp(t, "dump")) dump = 1;
        else if(!strncmp(t, "as=", 3)) as = t + 3;
        else if(!strncmp(t, "scope=", 6)) { raw = 1; scope = strtoul(t + 6, NULL, 16); }
        else die("write option");
    }
    if(badref) return;
    name = named(as, !strcmp(mode, "nodir") ? "nodir/out" : "out");
    setSlots(r);
    memset(&s, 0, sizeof s); s.b = &tmp; s.cap = cap; s.failAt = failAt; s.once = once;
    if(!strcmp(mode, "path") || !strcmp(mode, "write")) {
        unlink(name);
        if(pre >= 0) { unsigned char *x = malloc(pre + 1); memset(x, 0xAB, pre + 1); putFile(name, x, pre); free(x); }
    }
    if(!strcmp(mode, "cookie") || !strcmp(mode, "stdoutcookie")) f = sinkOpen(&s, bufsz, &mem);
    else if(!strcmp(mode, "file")) { unlink(name); f = fopen(name, "wb"); }
    else if(!strcmp(mode, "pipe")) { if(pipe(p)) die("pipe"); fcntl(p[0], F_SETPIPE_SZ, 1 << 20); f = fdopen(p[1], "wb"); threaded = 1; }
    else if(!strcmp(mode, "stdoutfile")) { unlink(name); f = fopen(name, "wb"); }
    else if(!strcmp(mode, "fifo")) { fifo.n = 0; fifo.got = mmap(NULL, FIFO_ROOM, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(fifo.got == MAP_FAILED) die("memory"); fifoMake(&fifo, name, fifoDrain, &th); }
    else if(!strcmp(mode, "closedpipe")) { if(pipe(p)) die("pipe"); close(p[0]); f = fdopen(p[1], "wb"); hit = 1; }
    if(f && bufsz == 0 && strcmp(mode, "cookie") && strcmp(mode, "stdoutcookie")) setvbuf(f, NULL, _IONBF, 0);
    callBegin();
    oomScope = 1; /* writing may allocate nothing that could not be reported */
    saveOut = stdout;
    if(!strcmp(mode, "path") || !strcmp(mode, "write")) {
        if(cap >= 0) { getrlimit(RLIMIT_FSIZE, &old); lim = old; lim.rlim_cur = cap; setrlimit(RLIMIT_FSIZE, &lim); capped = 1; }
        ok = !strcmp(mode, "path") ? IFF_writeFile(name, c, regp(r)) : IFF_write(name, c, regp(r));
        if(capped) setrlimit(RLIMIT_FSIZE, &old);
    }
    else if(!strcmp(mode, "full")) { ok = IFF_writeFile("/dev/full", c, regp(r)); hit = 1; }
    else if(!strcmp(mode, "fifo")) ok = IFF_write(name, c, regp(r));
    else if(!strcmp(mode, "nodir")) { ok = IFF_write(name, c, regp(r)); hit = 1; }
    else if(!strncmp(mode, "stdout", 6)) { stdout = f; ok = IFF_write(NULL, c, regp(r)); stdout = saveOut; }
    else if(raw) ok = IFF_writeChunk(f, c, scope, regd(r));
    else ok = IFF_writeFd(f, c, regp(r));
    callEnd();
    if(!strcmp(mode, "fifo")) { fifoEnd(&fifo, O_WRONLY, th); filesAfter = filesBefore; put(&tmp, fifo.got, fifo.n); munmap(fifo.got, FIFO_ROOM); }
    if(f && raw) { /* IFF_writeChunk leaves flushing to its caller */ if(fflush(f)) appended = 1; }
    if(f && strcmp(mode, "pipe")) { fclose(f); f = NULL; }
    if(!strcmp(mode, "pipe")) { unsigned char x[65536]; ssize_t k; fclose(f); while((k = read(p[0], x, sizeof x)) > 0) put(&tmp, x, k); close(p[0]); }
    if(!strcmp(mode, "path") || !strcmp(mode, "write") || !strcmp(mode, "file") || !strcmp(mode, "stdoutfile")) getFile(name, &tmp);
    if(as && strcmp(mode, "nodir")) unlink(name);
    hit = hit || s.hit || oomHit || closeHit; (void)capped;
    w->n = 0; put(w, tmp.b, tmp.n);
    beginEvent("write"); kint("n", nodeOf(c)); kint("r", r); kstr("mode", mode); kstr("as", as ? as : ""); kbool("chunkwise", raw); kid("scope", scope); kint("cap", cap); kint("fail", failAt); kbool("once", once);
    kbool("hit", hit); kbool("flusherr", appended); kbool("ok", ok); kbytes("bytes", tmp.b, tmp.n); kint("writes", s.nwrites); kbool("dumped", dump);
    dumpTree("nodes", dump ? rootOf(c) : NULL); common(); jcalls(H_WR, 0); endEvent();
    free(tmp.b); free(mem); (void)threaded;
}

/* ------------------------------------------------------------------ streams in use */

static char *streamName(int i) { char t[16]; snprintf(t, sizeof t, "stream%d", i); return spath(t); }
/* open S r|f|c CONTENT (memory, file, in pieces and not seekable) | open S w|W (sink, file) | open S a|u CONTENT (append, update) */
static void openStream(void)
{
    int i = num(); char m = *need(); size_t n = 0;
    memset(&st[i], 0, sizeof st[i]); st[i].kind = m;
    if(strchr("rfcau", m)) st[i].data = content(&n);
    if(strchr("fau", m)) putFile(streamName(i), st[i].data, n);
    if(m == 'r') { st[i].f = n ? fmemopen(st[i].data, n, "rb") : fopen("/dev/null", "rb"); }
    else if(m == 'f') st[i].f = fopen(streamName(i), "rb");
    else if(m == 'c') { st[i].src.b = st[i].data; st[i].src.n = n; st[i].src.errAt = -1; st[i].src.pat[0] = 1; st[i].src.pat[1] = 7; st[i].src.pat[2] = 3; st[i].src.npat = 3; st[i].f = srcOpen(&st[i].src, callNo & 1); }
    else if(m == 'w') { st[i].sink.b = &st[i].buf; st[i].sink.cap = -1; st[i].f = sinkOpen(&st[i].sink, 4096, &st[i].mem); }
    else if(m == 'W') { unlink(streamName(i)); st[i].f = fopen(streamName(i), "wb"); }
    else if(m == 'a') st[i].f = fopen(streamName(i), "ab");
    else if(m == 'u') st[i].f = fopen(streamName(i), "r+b");
    else die("open");
    if(!st[i].f) die("stream");
    if(!st[i].mem && !(m == 'c' && callNo & 1)) { st[i].mem = malloc(4096); setvbuf(st[i].f, st[i].mem, _IOFBF, 4096); }
    beginEvent("open"); kint("s", i); kbytes("content", st[i].data, n); endEvent();
}
static void streamContent(int i, Buf *b) { if(st[i].kind == 'w') { b->n = 0; put(b, (char*)st[i].buf.b, st[i].buf.n); } else getFile(streamName(i), b); }

/* ------------------------------------------------------------------ creation */

static void doMk(void)
{
    long h = num(); char *fn = need(); IFF_Chunk *c = NULL; IFF_ID id = 0, ty = 0; long sz = 0; int kind = -1; size_t n = 0; unsigned char *data = NULL; int i;
    J.n = 0;
    beginEvent("mk"); kstr("fn", fn);
    if(!strcmp(fn, "createForm") || !strcmp(fn, "createCAT") || !strcmp(fn, "createList") || !strcmp(fn, "createProp")) { sz = num(); ty = idarg(); }
    else if(!strcmp(fn, "createGroup")) { id = idarg(); sz = num(); ty = idarg(); }
    else if(!strcmp(fn, "createEmptyGroup")) { id = idarg(); ty = idarg(); }
    else if(!strcmp(fn, "createRawChunk")) { id = idarg(); data = hexarg(need(), &n); sz = n; }
    else if(!strcmp(fn, "createUnparsedForm") || !strcmp(fn, "createUnparsedCAT") || !strcmp(fn, "createUnparsedList") || !strcmp(fn, "createUnparsedProp")) sz = num();
    else if(!strncmp(fn, "ext", 3)) { kind = kindOf(fn + 3); id = idarg(); sz = num(); }
    else if(!strcmp(fn, "createEmptyForm") || !strcmp(fn, "createEmptyProp") || !strcmp(fn, "createEmptyCATWithContentsType") || !strcmp(fn, "createEmptyListWithContentsType")) ty = idarg();
    else if(strcmp(fn, "createEmptyCAT") && strcmp(fn, "createEmptyList")) die("creation function");
    callBegin();
    oomScope = 1;
    if(!strcmp(fn, "createForm")) c = (IFF_Chunk*)IFF_createForm(sz, ty);
    else if(!strcmp(fn, "createCAT")) c = (IFF_Chunk*)IFF_createCAT(sz, ty);
    else if(!strcmp(fn, "createList")) c = (IFF_Chunk*)IFF_createList(sz, ty);
    else if(!strcmp(fn, "createProp")) c = (IFF_Chunk*)IFF_createProp(sz, ty);
    else if(!strcmp(fn, "createGroup")) c = (IFF_Chunk*)IFF_createGroup(id, sz, ty);
    else if(!strcmp(fn, "createEmptyGroup")) c = (IFF_Chunk*)IFF_createEmptyGroup(id, ty);
    else if(!strcmp(fn, "createUnparsedForm")) c = IFF_createUnparsedForm(IFF_ID_FORM, sz);
    else if(!strcmp(fn, "createUnparsedCAT")) c = IFF_createUnparsedCAT(IFF_ID_CAT, sz);
    else if(!strcmp(fn, "createUnparsedList")) c = IFF_createUnparsedList(IFF_ID_LIST, sz);
    else if(!strcmp(fn, "createUnparsedProp")) c = IFF_createUnparsedProp(IFF_ID_PROP, sz);
    else if(!strcmp(fn, "createEmptyForm")) c = (IFF_Chunk*)IFF_createEmptyForm(ty);
    else if(!strcmp(fn, "createEmptyProp")) c = (IFF_Chunk*)IFF_createEmptyProp(ty);
    else if(!strcmp(fn, "createEmptyCATWithContentsType")) c = (IFF_Chunk*)IFF_createEmptyCATWithContentsType(ty);
    else if(!strcmp(fn, "createEmptyListWithContentsType")) c = (IFF_Chunk*)IFF_createEmptyListWithContentsType(ty);
    else if(!strcmp(fn, "createEmptyCAT")) c = (IFF_Chunk*)IFF_createEmptyCAT();
    else if(!strcmp(fn, "createEmptyList")) c = (IFF_Chunk*)IFF_createEmptyList();
    else if(!strcmp(fn, "createRawChunk")) { c = IFF_createRawChunk(id, sz); if(c && payload(c)) IFF_copyDataToRawChunkData((IFF_RawChunk*)c, data); }
    else c = extCreate(kind, id, sz);
    callEnd();
    if(c) {
        Ent *e = insert(c);
        e->kind = kind >= 0 ? kind : !strcmp(fn, "createRawChunk") ? K_RAW : strstr(fn, "List") ? K_LIST : strstr(fn, "CAT") ? K_CAT : strstr(fn, "Prop") ? K_PROP : strstr(fn, "Form") ? K_FORM
                : id == IFF_ID_CAT ? K_CAT : id == IFF_ID_PROP ? K_PROP : K_FORM;
        if(kind >= 0) for(i = 0; i < layout[kind - K_E1].n; i++) { unsigned char *v = hexarg(need(), &n); extSet((Ext*)c, i, v); free(v); }
    }
    hnd[h] = c;
    kid("id", id); kint("sz", sz); kid("ty", ty); kbytes("data", data, data ? n : 0); kint("n", nodeOf(c)); dumpTree("nodes", c); common(); endEvent();
    free(data);
}

static void doAdd(void)
{
    char *fn = need(); IFF_Chunk *p = refarg(), *c = refarg(); int pn, cn;
    if(badref) return;
    pn = nodeOf(p); cn = nodeOf(c);
    callBegin();
    if(!strcmp(fn, "addToForm")) IFF_addToForm((IFF_Form*)p, c);
    else if(!strcmp(fn, "addToCAT")) IFF_addToCAT((IFF_CAT*)p, c);
    else if(!strcmp(fn, "addToList")) IFF_addToList((IFF_List*)p, c);
    else if(!strcmp(fn, "addToProp")) IFF_addToProp((IFF_Prop*)p, c);
    else if(!strcmp(fn, "addToGroup")) IFF_addToGroup((IFF_Group*)p, c);
    else if(!strcmp(fn, "attachToGroup")) IFF_attachToGroup((IFF_Group*)p, c);
    else if(!strcmp(fn, "addPropToList")) IFF_addPropToList((IFF_List*)p, (IFF_Prop*)c);
    else if(!strcmp(fn, "addToCATAndUpdateContentsType")) IFF_addToCATAndUpdateContentsType((IFF_CAT*)p, c);
    else if(!strcmp(fn, "addToListAndUpdateContentsType")) IFF_addToListAndUpdateContentsType((IFF_List*)p, c);
    else die("add function");
    callEnd();
    beginEvent("add"); kstr("fn", fn); kint("p", pn); kint("c", cn); dumpTree("nodes", rootOf(p)); common(); endEvent();
}

/* ------------------------------------------------------------------ the interpreter */

static void endCase(void)
{
    int i;
    for(i = 0; i < NS; i++) if(st[i].f) { fclose(st[i].f); st[i].f = NULL; free(st[i].data); st[i].data = NULL; free(st[i].mem); st[i].mem = NULL; free(st[i].buf.b); memset(&st[i].buf, 0, sizeof(Buf)); }
    for(i = 1; i < NREG; i++) { while(regs[i].nmem) free(regs[i].mem[--regs[i].nmem]); regs[i].n = 0; }
    for(i = 0; i < NW; i++) { wbuf[i].set = 0; wbuf[i].b.n = 0; }
    memset(hnd, 0, sizeof hnd);
    oomAt = oomScope = closeArmed = 0; slotUsed = 0; badref = 0; live = 0; in_lib = 0;
    while(mapUsed) memset(&map[used[--mapUsed]], 0, sizeof(Ent));
    nextNode = 0;
    IFF_errorCallback = &errCapture;
}

static int slotOf(int r, const IFF_ChunkType *t) /* relative to the registry; the library's own handlers have the first slots */
{
    int s, f = 0;
    for(s = 0; s < 5; s++) if(t->createExtensionChunk == builtin[s].cre && t->readExtensionChunkFields == builtin[s].rd) f = s + 1;
    for(s = 0; s < NSLOT; s++) if(slotType[s].createExtensionChunk == t->createExtensionChunk && slotType[s].compareExtensionChunk == t->compareExtensionChunk) f = s - regs[r].base + 1;
    return f;
}
static IFF_ChunkTypesNode *chain(int r, IFF_ChunkTypesNode *shared) /* same | NODES (COUNT (ID SLOT)*)*, child first */
{
    char *t = need(); int n = atoi(t), i, j; IFF_ChunkTypesNode *tail = NULL, *first = tail, **link = &first, *last = NULL;
    if(!strcmp(t, "same")) return shared;
    if(!strcmp(t, "default")) return &IFF_globalChunkTypesNode;
    for(i = 0; i < n; i++) {
        IFF_ChunkTypesNode *x = keep(r, sizeof *x); int m = num();
        x->chunkTypesLength = m; x->chunkTypes = m ? keep(r, m * sizeof(IFF_ChunkType)) : NULL; x->parent = tail;
        for(j = 0; j < m; j++) { IFF_ID id = idarg(); int s = num(); x->chunkTypes[j] = slotType[regs[r].base + s - 1]; x->chunkTypes[j].chunkId = id; }
        *link = x; link = &x->parent; last = x;
    }
    (void)last; return first;
}
static IFF_ChunkTypesNode *chainOf(int r, IFF_ID ty)
{
    unsigned i; for(i = 0; i < regs[r].reg.formChunkTypesLength; i++) if(regs[r].reg.formChunkTypes[i].formType == ty) return regs[r].reg.formChunkTypes[i].chunkTypesNode;
    return NULL;
}
/* reg R NSLOTS kind.. def SLOT glob CHAIN forms N (TYPE CHAIN)..
   reg R like M def ...: with the handlers of registry M, and its chains where they are the same */
static void doReg(void)
{
    int r = num(), i, n, m = -1, lib; char *t = need();
    if(r < 1 || r >= NREG) die("registry number");
    if(!strcmp(t, "like")) { m = num(); n = regs[m].n; regs[r].base = regs[m].base; }
    else { n = atoi(t); regs[r].base = slotUsed; if(slotUsed + n > NSLOT) die("slots"); }
    regs[r].n = n;
    beginEvent("reg"); kint("r", r);
    jkey("kinds"); jraw("[");
    for(i = 0; i < n; i++) { int k = m < 0 ? kindOf(need()) : slotKind[regs[m].base + i]; if(m < 0) slotKind[slotUsed++] = k; if(i) jraw(","); jraw("\""); jraw(kindName[k]); jraw("\""); }
    jraw("]"); need(); t = need(); lib = !strcmp(t, "default"); i = lib ? 5 : atoi(t); kint("def", i); kbool("lib", lib);
    regs[r].def = keep(r, sizeof(IFF_ChunkType)); if(!lib) *regs[r].def = slotType[regs[r].base + i - 1];
    regs[r].reg.defaultChunkType = lib ? &IFF_defaultChunkType : regs[r].def;
    need(); regs[r].reg.globalChunkTypesNode = chain(r, m < 0 ? NULL : regs[m].reg.globalChunkTypesNode);
    need(); n = num(); regs[r].reg.formChunkTypesLength = n; regs[r].reg.formChunkTypes = n ? keep(r, n * sizeof(IFF_FormChunkTypes)) : NULL;
    for(i = 0; i < n; i++) { regs[r].reg.formChunkTypes[i].formType = idarg(); regs[r].reg.formChunkTypes[i].chunkTypesNode = chain(r, m < 0 ? NULL : chainOf(m, regs[r].reg.formChunkTypes[i].formType)); }
    /* log the registry as given */
    { IFF_ChunkTypesNode *x; int j, k;
      jkey("glob"); jraw("["); for(x = regs[r].reg.globalChunkTypesNode, j = 0; x; x = x->parent, j++) { if(j) jraw(","); jraw("["); for(k = 0; k < (int)x->chunkTypesLength; k++) { if(k) jraw(","); jraw("{"); kid("id", x->chunkTypes[k].chunkId); kint("slot", slotOf(r, &x->chunkTypes[k])); jraw("}"); } jraw("]"); } jraw("]");
      jkey("forms"); jraw("["); for(i = 0; i < n; i++) { if(i) jraw(","); jraw("{"); kid("ty", regs[r].reg.formChunkTypes[i].formType); jkey("nodes"); jraw("[");
        for(x = regs[r].reg.formChunkTypes[i].chunkTypesNode, j = 0; x; x = x->parent, j++) { if(j) jraw(","); jraw("["); for(k = 0; k < (int)x->chunkTypesLength; k++) { if(k) jraw(","); jraw("{"); kid("id", x->chunkTypes[k].chunkId); kint("slot", slotOf(r, &x->chunkTypes[k])); jraw("}"); } jraw("]"); }
        jraw("]}"); } jraw("]"); }
    endEvent();
}

static void jnodes(const char *key, void **p, unsigned n) { unsigned i; jkey(key); jraw("["); for(i = 0; i < n; i++) { if(i) jraw(","); jint(nodeOf(p[i])); } jraw("]"); }

static int primSize(const char *type) { return !strcmp(type, "ub") ? 1 : !strcmp(type, "uw") || !strcmp(type, "w") ? 2 : 4; }
static long primSigned(int n, unsigned long v) { return n == 2 && v >= 0x8000 ? (long)v - 0x10000 : n == 4 && v >= 0x80000000UL ? (long)v - 0x100000000L : (long)v; }
static IFF_Bool primWrite(FILE *f, const char *type, unsigned long v)
{
    IFF_ID me = IFF_MAKEID('P', 'R', 'I', 'M'); long sv = primSigned(primSize(type), v);
    if(!strcmp(type, "ub")) return IFF_writeUByte(f, v, me, "x");
    if(!strcmp(type, "uw")) return IFF_writeUWord(f, v, me, "x");
    if(!strcmp(type, "w")) return IFF_writeWord(f, sv, me, "x");
    if(!strcmp(type, "ul")) return IFF_writeULong(f, v, me, "x");
    if(!strcmp(type, "l")) return IFF_writeLong(f, sv, me, "x");
    return IFF_writeId(f, v, me, "x");
}
/* reads one number; *bad if the signed value is not that of v */
static IFF_Bool primRead(FILE *f, const char *type, unsigned long v, unsigned long *got, int *bad)
{
    IFF_ID me = IFF_MAKEID('P', 'R', 'I', 'M'); long sv = primSigned(primSize(type), v); IFF_Bool ok;
    IFF_UByte a = 1; IFF_UWord b = 1; IFF_Word c = 1; IFF_ULong d = 1; IFF_Long e = 1; IFF_ID g = 1;
    if(!strcmp(type, "ub")) { ok = IFF_readUByte(f, &a, me, "x"); *got = a; }
    else if(!strcmp(type, "uw")) { ok = IFF_readUWord(f, &b, me, "x"); *got = b; }
    else if(!strcmp(type, "w")) { ok = IFF_readWord(f, &c, me, "x"); *got = (unsigned long)(long)c; if((long)c != sv) *bad = 1; }
    else if(!strcmp(type, "ul")) { ok = IFF_readULong(f, &d, me, "x"); *got = d; }
    else if(!strcmp(type, "l")) { ok = IFF_readLong(f, &e, me, "x"); *got = (unsigned long)(long)e; if((long)e != sv) *bad = 1; }
    else { ok = IFF_readId(f, &g, me, "x"); *got = g; }
    return ok;
}

static void prim(const char *type, unsigned long from, long count, unsigned long step)
{
    long i; int n = primSize(type); int bad = 0;
    Buf vals = {0}, wrote = {0}, back = {0};
    for(i = 0; i < count; i++) {
        unsigned long v = from + (unsigned long)i * step; unsigned char t[8], u[8]; int j; FILE *f; Buf o = {0}; Sink s = {0}; Src src = {0}; char *mem; IFF_Bool ok = FALSE; unsigned long got = 0;
        v &= n == 1 ? 0xff : n == 2 ? 0xffff : 0xffffffffUL;
        for(j = 0; j < n; j++) t[j] = v >> (8 * (n - 1 - j));
        put(&vals, t, n);
        s.b = &o; s.cap = -1; f = sinkOpen(&s, -2, &mem);
        ok = primWrite(f, type, v);
        fclose(f); if(!ok || (int)o.n != n) bad = 1; put(&wrote, o.b, o.n); free(o.b);
        memset(u, 0xEE, sizeof u); memcpy(u, t, n); src.b = u; src.n = 8; src.errAt = -1; f = srcOpen(&src, 1);
        ok = primRead(f, type, v, &got, &bad);
        if(!ok || src.pos != (size_t)n) bad = 1;
        fclose(f); for(j = 0; j < n; j++) u[j] = got >> (8 * (n - 1 - j));
        put(&back, u, n);
    }
    beginEvent("prim"); kstr("type", type); kint("size", n); kbytes("vals", vals.b, vals.n); kbytes("wrote", wrote.b, wrote.n); kbytes("back", back.b, back.n); kbool("bad", bad); endEvent();
    free(vals.b); free(wrote.b); free(back.b);
}

/* numbers of several types, one behind the other on one stream: seq TYPE HEX ... ; the stream ends after them */
static void primSeq(void)
{
    const char *type[32]; unsigned long v[32]; int k = 0, i, j, bad = 0; char *t; Buf vals = {0}, wrote = {0}, back = {0}; Sink s = {0}; Src src = {0}; char *mem; FILE *f;
    while(k < 32 && (t = tok())) { type[k] = t; v[k++] = strtoul(need(), NULL, 16); }
    s.b = &wrote; s.cap = -1; f = sinkOpen(&s, -2, &mem);
    for(i = 0; i < k; i++) {
        int n = primSize(type[i]); unsigned char u[4];
        for(j = 0; j < n; j++) u[j] = v[i] >> (8 * (n - 1 - j));
        put(&vals, u, n);
        if(!primWrite(f, type[i], v[i])) bad = 1;
    }
    fclose(f);
    src.b = vals.b; src.n = vals.n; src.errAt = -1; f = srcOpen(&src, 1);
    for(i = 0; i < k; i++) {
        int n = primSize(type[i]); unsigned char u[4]; unsigned long got = 0;
        if(!primRead(f, type[i], v[i], &got, &bad)) bad = 1;
        for(j = 0; j < n; j++) u[j] = got >> (8 * (n - 1 - j));
        put(&back, u, n);
    }
    fclose(f);
    beginEvent("prim"); kstr("type", "seq"); kint("size", k); kbytes("vals", vals.b, vals.n); kbytes("wrote", wrote.b, wrote.n); kbytes("back", back.b, back.n); kbool("bad", bad); endEvent();
    free(vals.b); free(wrote.b); free(back.b);
}

/* the same on a destination with room for LIMIT bytes, and a source that ends after them: seqcut LIMIT TYPE HEX ... */
static void primCut(void)
{
    const char *type[32]; unsigned long v[32]; int k = 0, i, j, bad = 0, wok[32], rok[32], wsaid[32], rsaid[32]; long limit = num(); char *t; Buf vals = {0}, wrote = {0}, back = {0}; Sink s = {0}; Src src = {0}; char *mem; FILE *f;
    while(k < 32 && (t = tok())) { type[k] = t; v[k++] = strtoul(need(), NULL, 16); }
    s.b = &wrote; s.cap = limit; f = sinkOpen(&s, 0, &mem);
    for(i = 0; i < k; i++) {
        int n = primSize(type[i]); unsigned char u[4];
        for(j = 0; j < n; j++) u[j] = v[i] >> (8 * (n - 1 - j));
        put(&vals, u, n);
        callBegin(); wok[i] = primWrite(f, type[i], v[i]); callEnd(); wsaid[i] = (int)Diag.n;
    }
    fclose(f);
    src.b = vals.b; src.n = vals.n < (size_t)limit ? vals.n : (size_t)limit; src.errAt = -1; f = srcOpen(&src, callNo & 1);
    for(i = 0; i < k; i++) {
        int n = primSize(type[i]), odd = 0; unsigned char u[4]; unsigned long got = 0;
        callBegin(); rok[i] = primRead(f, type[i], v[i], &got, &odd); callEnd(); rsaid[i] = (int)Diag.n;
        if(rok[i]) { bad |= odd; for(j = 0; j < n; j++) u[j] = got >> (8 * (n - 1 - j)); put(&back, u, n); }
    }
    fclose(f);
    beginEvent("primcut"); kint("limit", limit); kbytes("vals", vals.b, vals.n); kbytes("wrote", wrote.b, wrote.n); kbytes("back", back.b, back.n); kbool("bad", bad);
    jkey("fields"); jraw("["); for(i = 0; i < k; i++) { if(i) jraw(","); jraw("{"); kint("size", primSize(type[i])); kbool("w", wok[i]); kbool("r", rok[i]); kint("wsaid", wsaid[i]); kint("rsaid", rsaid[i]); jraw("}"); } jraw("]");
    endEvent();
    free(vals.b); free(wrote.b); free(back.b);
}

int main(int argc, char **argv)
{
    { void *volatile huge = malloc((size_t)1 << 40); free(huge); } /* the sanitizer opens its log with the first such warning */
    FILE *script; long first, lineNo = 0; int skipping = 1, fd;
    if(argc != 6) die("usage: driver SCRIPT LOG STATUS SCRATCH FIRST");
    script = fopen(argv[1], "r"); logf_ = fopen(argv[2], "a"); first = atol(argv[5]); snprintf(scratch, sizeof scratch, "%s", argv[4]);
    fd = open(argv[3], O_RDWR | O_CREAT, 0600); if(!script || !logf_ || fd < 0 || ftruncate(fd, 16)) die("files");
    status = mmap(NULL, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    map = mmap(NULL, MAPSZ * sizeof(Ent), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if(chdir(scratch)) die("scratch directory");
    signal(SIGXFSZ, SIG_IGN); signal(SIGPIPE, SIG_IGN);
    realStdin = stdin; realStdout = stdout; realStderr = stderr;
    capOut = capture(&Out); capErr = capture(&Err);
    put(&Out, "", 1); put(&Err, "", 1); put(&Diag, "", 1); put(&J, "", 1);
    __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
    caseNo = -1; status[0] = -1; status[1] = 0; status[2] = 0;
    endCase();
    while(getline(&line, &lineCap, script) > 0) {
        char *op; lineNo++; cur = line; op = tok();
        if(!op || *op == '#') continue;
        if(!strcmp(op, "case")) {
            caseNo++; skipping = caseNo < first; status[0] = caseNo; status[1] = lineNo;
            if(skipping) continue;
            endCase(); beginEvent("case"); kint("i", caseNo); kstr("name", need()); endEvent();
            continue;
        }
        if(skipping) continue;
        status[1] = lineNo;
        if(badref) continue; /* a reference of this case did not resolve: nothing more to observe in it */
        if(!strcmp(op, "end")) { beginEvent("end"); kint("live", live); endEvent(); }
        else if(!strcmp(op, "errcb")) { char *cb = need(); IFF_errorCallback = !strcmp(cb, "default") ? &IFF_errorCallbackStderr : &errCapture; beginEvent("errcb"); kstr("cb", cb); endEvent(); }
        else if(!strcmp(op, "reg")) doReg();
        else if(!strcmp(op, "oom")) oomAt = num(); /* of the next call */
        else if(!strcmp(op, "mk")) doMk();
        else if(!strcmp(op, "add")) doAdd();
        else if(!strcmp(op, "read")) doRead();
        else if(!strcmp(op, "write")) doWrite();
        else if(!strcmp(op, "fill") || !strcmp(op, "setraw") || !strcmp(op, "settext")) {
            IFF_Chunk *c = refarg(); size_t n; unsigned char *d = hexarg(need(), &n), *old;
            if(!badref) {
                IFF_RawChunk *rc = (IFF_RawChunk*)c; int same; old = rc->chunkData;
                callBegin();
                if(op[0] == 'f') IFF_copyDataToRawChunkData(rc, d);
                else if(!strcmp(op, "setraw")) { unsigned char *x = malloc(n ? n : 1); memcpy(x, d, n); IFF_setRawChunkData(rc, x, n); }
                else { char *x; in_lib = 0; x = malloc(n + 1); memcpy(x, d, n); x[n] = 0; in_lib = 1; IFF_setTextData(rc, x); in_lib = 0; free(x); }
                callEnd();
                same = rc->chunkData == old;
                if(op[0] != 'f' && !same) free(old); /* the caller owns the former payload */
                beginEvent("payload"); kstr("fn", op); kint("n", nodeOf(c)); kbytes("data", d, n); dumpTree("nodes", rootOf(c)); common(); endEvent();
            }
            free(d);
        }
        else if(!strcmp(op, "poke")) {
            IFF_Chunk *c = refarg(); char *what = need();
            if(!badref) {
                if(!strcmp(what, "sz")) c->chunkSize = num(); else if(!strcmp(what, "id")) c->chunkId = idarg(); else if(!strcmp(what, "ty")) ((IFF_Group*)c)->groupType = idarg();
                else if(!strcmp(what, "byte")) { long i = num(); ((IFF_RawChunk*)c)->chunkData[i] = num(); }
                else if(!strcmp(what, "ext")) { long i = num(); size_t n; unsigned char *v = hexarg(need(), &n); extSet((Ext*)c, i, v); free(v); }
                else die("poke");
                beginEvent("poke"); kint("n", nodeOf(c)); dumpTree("nodes", rootOf(c)); endEvent();
            }
        }
        else if(!strcmp(op, "hold")) { long h = num(); IFF_Chunk *c = refarg(); hnd[h] = c; } /* a handle of a chunk within a hierarchy */
        else if(!strcmp(op, "detach")) { /* the application takes a chunk out of its group, whose size stays, to add it to another one of the same hierarchy */
            IFF_Chunk *c = refarg(); IFF_Group *p = c ? c->parent : NULL; unsigned i, found = 0;
            if(!badref && p && alive(p)) {
                IFF_List *l = kindOfPtr((IFF_Chunk*)p) == K_LIST ? (IFF_List*)p : NULL;
                for(i = 0; i < p->chunkLength; i++) if(p->chunk[i] == c) { memmove(p->chunk + i, p->chunk + i + 1, (p->chunkLength - i - 1) * sizeof *p->chunk); p->chunkLength--; found = 1; break; }
                for(i = 0; !found && l && i < l->propLength; i++) if((IFF_Chunk*)l->prop[i] == c) { memmove(l->prop + i, l->prop + i + 1, (l->propLength - i - 1) * sizeof *l->prop); l->propLength--; found = 1; break; }
            }
            if(!badref && !found) badref = 1;
            if(!badref) { beginEvent("detach"); kint("n", nodeOf(c)); dumpTree("nodes", rootOf((IFF_Chunk*)p)); dumpTree("nodes2", c); endEvent(); }
        }
        else if(!strcmp(op, "update")) {
            IFF_Chunk *c = refarg();
            if(!badref) { callBegin(); IFF_updateChunkSizes(c); callEnd(); beginEvent("update"); kint("n", nodeOf(c)); dumpTree("nodes", rootOf(c)); common(); endEvent(); }
        }
        else if(!strcmp(op, "check") || !strcmp(op, "checkc")) {
            IFF_Chunk *c = refarg(); int r = num(), sub = !strcmp(op, "checkc"); IFF_ID scope = sub ? idarg() : 0; IFF_Bool v; char *t = tok();
            if(!badref) { setSlots(r); callBegin(); v = sub ? IFF_checkChunk(c, scope, regd(r)) : IFF_check(c, regp(r)); callEnd();
                beginEvent("check"); kint("n", nodeOf(c)); kint("r", r); kbool("chunkwise", sub); kid("scope", scope); kbool("v", v); kbool("dumped", t != NULL); dumpTree("nodes", t ? rootOf(c) : NULL); common(); jcalls(H_CHK, 0); endEvent(); }
        }
        else if(!strcmp(op, "cmp")) {
            IFF_Chunk *a = refarg(), *b = refarg(); int r = num(); IFF_Bool v; char *t = tok(); int sub = t && !strncmp(t, "scope=", 6); IFF_ID scope = sub ? strtoul(t + 6, NULL, 16) : 0;
            if(sub) t = tok();
            if(!badref) { setSlots(r); callBegin(); v = sub ? IFF_compareChunk(a, b, scope, regd(r)) : IFF_compare(a, b, regp(r)); callEnd();
                beginEvent("cmp"); kint("a", nodeOf(a)); kint("b", nodeOf(b)); kint("r", r); kid("scope", scope); kbool("v", v); kbool("dumped", t != NULL); dumpTree("nodes", t ? rootOf(a) : NULL); dumpTree("nodes2", t ? rootOf(b) : NULL); common(); jcalls(H_CMP, 0); endEvent(); }
        }
        else if(!strcmp(op, "search")) {
            IFF_Chunk *c = refarg(); int k = num(), i; IFF_ID *ty = malloc(k * sizeof *ty); /* not a byte more than there are */ unsigned int n = 12345; IFF_Form **f; char *t; int lib;
            for(i = 0; i < k; i++) ty[i] = idarg();
            t = tok();
            if(!badref) {
                callBegin(); f = k == 1 ? IFF_searchForms(c, ty[0], &n) : IFF_searchFormsFromArray(c, ty, k, &n); callEnd(); lib = live - liveBefore;
                beginEvent("search"); kint("n", nodeOf(c)); jkey("types"); jraw("["); for(i = 0; i < k; i++) { if(i) jraw(","); jid(ty[i]); } jraw("]");
                kint("count", n > 1000000 ? -1 : (int)n); if(n > 1000000 || (n && !alive(f)) || (n && __sanitizer_get_allocated_size(f) < n * sizeof *f)) jnodes("res", NULL, 0); else jnodes("res", (void**)f, n);
                kint("given", f != NULL); kint("held", lib);
                free(f); kbool("dumped", t != NULL); dumpTree("nodes", t ? rootOf(c) : NULL); common(); endEvent();
            }
            free(ty);
        }
        else if(!strcmp(op, "get") || !strcmp(op, "getall") || !strcmp(op, "getdata") || !strcmp(op, "getp") || !strcmp(op, "getprop")) {
            IFF_Chunk *c = refarg(); IFF_ID id = idarg(); void *res = NULL, **arr = NULL; unsigned int n = 12345; char *t = tok(); int lib;
            if(!badref) {
                callBegin();
                if(!strcmp(op, "get")) res = IFF_getChunkFromForm((IFF_Form*)c, id); else if(!strcmp(op, "getdata")) res = IFF_getDataChunkFromForm((IFF_Form*)c, id);
                else if(!strcmp(op, "getp")) res = IFF_getChunkFromProp((IFF_Prop*)c, id); else if(!strcmp(op, "getprop")) res = IFF_getPropFromList((IFF_List*)c, id);
                else arr = (void**)IFF_getChunksFromForm((IFF_Form*)c, id, &n);
                callEnd(); lib = live - liveBefore;
                beginEvent("get"); kstr("fn", op); kint("n", nodeOf(c)); kid("id", id);
                if(!strcmp(op, "getall")) { kint("count", n > 1000000 ? -1 : (int)n); if(n > 1000000 || (n && !alive(arr)) || (n && __sanitizer_get_allocated_size(arr) < n * sizeof *arr)) jnodes("res", NULL, 0); else jnodes("res", arr, n); kint("given", arr != NULL); free(arr); }
                else { kint("count", res != NULL); jnodes("res", &res, res != NULL); kint("given", 0); }
                kint("held", lib); kbool("dumped", t != NULL); dumpTree("nodes", t ? rootOf(c) : NULL); common(); endEvent();
            }
        }
        else if(!strcmp(op, "print")) {
            IFF_Chunk *c = refarg(); int r = num(); long ind = num(); char *t = tok(); int sub = t && !strncmp(t, "scope=", 6); IFF_ID scope = sub ? strtoul(t + 6, NULL, 16) : 0;
            if(sub) t = tok();
            if(!badref) { setSlots(r); callBegin(); if(sub) IFF_printChunk(c, ind, scope, regd(r)); else IFF_print(c, ind, regp(r)); callEnd();
                beginEvent("print"); kint("n", nodeOf(c)); kint("r", r); kid("scope", scope); kint("indent", ind); kbool("dumped", t != NULL); dumpTree("nodes", t ? rootOf(c) : NULL); common(); jcalls(H_PRT, 0); endEvent(); }
        }
        else if(!strcmp(op, "free")) {
            IFF_Chunk *c = refarg(); int r = num(); int n; char *t = tok(); IFF_ID scope = t ? strtoul(t + 6, NULL, 16) : 0;
            if(!badref) { int i; n = nodeOf(c); setSlots(r); callBegin(); if(t) IFF_freeChunk(c, scope, regd(r)); else IFF_free(c, regp(r)); callEnd();
                for(i = 0; i < NH; i++) if(hnd[i] == c) hnd[i] = NULL;
                beginEvent("free"); kint("n", n); kint("r", r); kid("scope", scope); common(); jcalls(H_FRE, 0); endEvent(); }
        }
        else if(!strcmp(op, "find")) {
            int r = num(); IFF_ID scope = idarg(), id = idarg(); IFF_ChunkType *t; int slot;
            setSlots(r); callBegin(); t = IFF_findChunkType(regd(r), scope, id); callEnd();
            slot = slotOf(r, t);
            beginEvent("find"); kint("r", r); kid("scope", scope); kid("id", id); kint("slot", slot); common(); endEvent();
        }
        else if(!strcmp(op, "chkid") || !strcmp(op, "chkft")) {
            IFF_ID id = idarg(); IFF_Bool v; callBegin(); v = op[3] == 'i' ? IFF_checkId(id) : IFF_checkFormType(id); callEnd();
            beginEvent("idcheck"); kstr("fn", op); kid("id", id); kbool("v", v); common(); endEvent();
        }
        else if(!strcmp(op, "seq")) primSeq();
        else if(!strcmp(op, "seqcut")) primCut();
        else if(!strcmp(op, "prim")) { char *t = need(); unsigned long from = strtoul(need(), NULL, 16); long count = num(); unsigned long step = strtoul(need(), NULL, 16); prim(t, from, count, step); }
        else if(!strcmp(op, "open")) openStream();
        else if(!strcmp(op, "seek")) { int i = num(); long to = num(); fseek(st[i].f, to, SEEK_SET); } /* seek S OFFSET */
        else if(!strcmp(op, "readc") || !strcmp(op, "readfd")) { /* readc H R S SCOPE | readfd H R S */
            long h = num(); int r = num(), i = num(), whole = !strcmp(op, "readfd"); IFF_ID scope = whole ? 0 : idarg(); IFF_Chunk *c; long before, after;
            if(st[i].kind == 'u') fseek(st[i].f, 0, SEEK_CUR); /* as the C standard demands between writing and reading */
            setSlots(r); posFile = st[i].kind == 'c' ? NULL : st[i].f; before = posFile ? ftell(st[i].f) : -1;
            callBegin(); c = whole ? IFF_readFd(st[i].f, regp(r)) : IFF_readChunk(st[i].f, scope, regd(r)); callEnd(); after = posFile ? ftell(st[i].f) : -1; posFile = NULL; hnd[h] = c;
            beginEvent("readc"); kint("r", r); kint("s", i); kbool("whole", whole); kid("scope", scope); kint("from", before); kint("to", after); kbool("ok", c != NULL); kint("root", nodeOf(c)); dumpTree("nodes", c); common(); jcalls(H_CRE, 0); jcalls(H_RD, 1); jcalls(H_FRE, 0); endEvent();
        }
        else if(!strcmp(op, "writec") || !strcmp(op, "writefd")) { /* writec H R S SCOPE | writefd H R S */
            IFF_Chunk *c = refarg(); int r = num(), i = num(), whole = !strcmp(op, "writefd"); IFF_ID scope = whole ? 0 : idarg(); IFF_Bool ok; Buf old = {0}, now = {0}, fin = {0}; long from, to; int stored, kept;
            if(!badref) {
                if(st[i].kind == 'u') fseek(st[i].f, 0, SEEK_CUR);
                setSlots(r); fflush(st[i].f); streamContent(i, &old); from = st[i].kind == 'u' ? ftell(st[i].f) : (long)old.n;
                callBegin(); ok = whole ? IFF_writeFd(st[i].f, c, regp(r)) : IFF_writeChunk(st[i].f, c, scope, regd(r)); callEnd();
                streamContent(i, &now); fflush(st[i].f); streamContent(i, &fin); to = st[i].kind == 'u' ? ftell(st[i].f) : (long)fin.n;
                stored = now.n == fin.n && !memcmp(now.b ? (char*)now.b : "", fin.b ? (char*)fin.b : "", fin.n);
                if(to < from || to > (long)fin.n) to = from > (long)fin.n ? (long)fin.n : from;
                kept = from <= (long)fin.n && (long)fin.n == ((long)old.n > to ? (long)old.n : to) && (!from || !memcmp(old.b, fin.b, from)) && ((long)old.n <= to || !memcmp(old.b + to, fin.b + to, old.n - to));
                beginEvent("writec"); kint("n", nodeOf(c)); kint("r", r); kint("s", i); kbool("whole", whole); kid("scope", scope); kint("from", from); kbool("ok", ok); kbytes("bytes", fin.b + (from < to ? from : to), to - (from < to ? from : to)); kbool("stored", stored); kbool("kept", kept); common(); jcalls(H_WR, 0); endEvent();
                free(old.b); free(now.b); free(fin.b);
            }
        }
        else if(!strcmp(op, "sleep")) usleep(num() * 1000);
        else die(op);
        if(badref & 1) { beginEvent("noref"); endEvent(); }
        else badref = 0; /* nothing was read or created there: just without this operation */
    }
    status[2] = 1;
    _exit(0);
}
