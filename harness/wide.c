/*
 * Groups with more members than 16 bits can count:
 *
 *   wide LOG
 *
 * Each kind of group with 65536 members of one sort and 9 of another behind them goes through each operation in
 * a process of its own.  What shows is written as an event "wide" in runs of equal items: {"n": how often, "x":
 * bytes of the item}.  The kind "data" is a FORM with a payload that 24 bits cannot count, and a small one.  spec/IffTrace.tla says what the runs must be.  The groups are put together by hand, so that
 * one operation is examined at a time.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <sys/wait.h>
#include "iff.h"
#include "chunk.h"
#include "group.h"
#include "form.h"
#include "cat.h"
#include "list.h"
#include "prop.h"
#include "rawchunk.h"
#include "defaultregistry.h"
#include "id.h"
#include "error.h"

#define N1 65536
#define N2 9
#define N (N1 + N2)
#define BIG ((1 << 24) + 3)
#define ID4(s) ((IFF_ID)(unsigned char)(s)[0] << 24 | (IFF_ID)(s)[1] << 16 | (IFF_ID)(s)[2] << 8 | (IFF_ID)(s)[3])
static const char *kinds[] = {"form", "prop", "cat", "list", "props", "nested", "data"};
static const char *stages[] = {"read", "write", "check", "cmp", "search", "get", "add", "track", "update", "print", "free"};
enum {FORMK, PROPK, CATK, LISTK, PROPSK, NESTED, DATAK};
static FILE *out;
static void quiet(const char *fmt, va_list ap) { (void)fmt; (void)ap; }

/* runs of equal items */
static unsigned char item[512]; static size_t itemLen; static long itemCount, items;
static void runsBegin(void) { itemCount = items = 0; fprintf(out, ",\"runs\":["); }
static void runOut(void) { size_t i; if(itemCount && items++ < 50) { fprintf(out, "%s{\"n\":%ld,\"x\":[", items > 1 ? "," : "", itemCount); for(i = 0; i < itemLen; i++) fprintf(out, i ? ",%d" : "%d", item[i]); fprintf(out, "]}"); } }
static void run(const void *p, size_t n) { if(n > sizeof item) n = sizeof item; if(itemCount && n == itemLen && !memcmp(item, p, n)) { itemCount++; return; } runOut(); memcpy(item, p, n); itemLen = n; itemCount = 1; }
static void runsEnd(void) { runOut(); fprintf(out, "]"); }

static IFF_Chunk *member(int kind, int last)
{
    IFF_ID id = ID4(last ? "LAST" : kind == FORMK || kind == PROPK ? "BODY" : "TEST"); IFF_UByte d = last ? 'b' : 'a';
    if(kind == FORMK || kind == PROPK) { IFF_RawChunk *r = (IFF_RawChunk*)IFF_createRawChunk(id, 1); IFF_copyDataToRawChunkData(r, &d); return (IFF_Chunk*)r; }
    return kind == PROPSK ? (IFF_Chunk*)IFF_createProp(4, id) : (IFF_Chunk*)IFF_createForm(4, id);
}
static long unit(int kind) { return kind == FORMK || kind == PROPK ? 10 : 12; }
static IFF_Group *empty(int kind, IFF_Long size)
{
    return kind == FORMK || kind == NESTED ? (IFF_Group*)IFF_createForm(size, ID4("WIDE")) : kind == PROPK ? (IFF_Group*)IFF_createProp(size, ID4("WIDE"))
        : kind == CATK ? (IFF_Group*)IFF_createCAT(size, ID4("JJJJ")) : (IFF_Group*)IFF_createList(size, ID4("JJJJ"));
}
/* where the members are */
static unsigned int membersOf(int kind, IFF_Group *g, IFF_Chunk ***a)
{
    if(kind == PROPSK) { *a = (IFF_Chunk**)((IFF_List*)g)->prop; return ((IFF_List*)g)->propLength; }
    *a = g->chunk; return g->chunkLength;
}
static IFF_Group *make(int kind)
{
    IFF_Group *g = empty(kind, 4 + N * unit(kind)); IFF_Chunk **a = malloc(N * sizeof *a); int j;
    for(j = 0; j < N; j++) { a[j] = member(kind, j >= N1); a[j]->parent = g; }
    if(kind == PROPSK) { ((IFF_List*)g)->prop = (IFF_Prop**)a; ((IFF_List*)g)->propLength = N; }
    else { g->chunk = a; g->chunkLength = N; }
    return g;
}
static IFF_Chunk *lastOf(int kind, IFF_Group *g) { IFF_Chunk **a; membersOf(kind, g, &a); return a[N - 1]; }
static void members(int kind, IFF_Group *g)
{
    IFF_Chunk **a; unsigned int n = membersOf(kind, g, &a), j;
    runsBegin();
    for(j = 0; j < n; j++) {
        unsigned char x[16]; int i; IFF_Chunk *c = a[j]; IFF_ID t = ((IFF_Group*)c)->groupType;
        for(i = 0; i < 4; i++) { x[i] = c->chunkId >> (24 - 8 * i); x[4 + i] = c->chunkSize >> (24 - 8 * i); if(unit(kind) == 12) x[8 + i] = t >> (24 - 8 * i); }
        if(unit(kind) == 10) x[8] = ((IFF_RawChunk*)c)->chunkData[0];
        x[unit(kind) == 10 ? 9 : 12] = c->parent == g;
        run(x, unit(kind) == 10 ? 10 : 13);
    }
    runsEnd();
}
static char *encoded(int kind, size_t *n)
{
    IFF_Long size = 4 + N * unit(kind); char *b = malloc(8 + size), *p = b; int j;
    memcpy(p, kind == FORMK || kind == NESTED ? "FORM" : kind == PROPK ? "PROP" : kind == CATK ? "CAT " : "LIST", 4);
    p[4] = size >> 24; p[5] = size >> 16; p[6] = size >> 8; p[7] = size; memcpy(p + 8, kind == FORMK || kind == PROPK || kind == NESTED ? "WIDE" : "JJJJ", 4); p += 12;
    for(j = 0; j < N; j++) {
        if(unit(kind) == 10) memcpy(p, j < N1 ? "BODY\0\0\0\1a\0" : "LAST\0\0\0\1b\0", 10);
        else { memcpy(p, kind == PROPSK ? "PROP\0\0\0\4" : "FORM\0\0\0\4", 8); memcpy(p + 8, j < N1 ? "TEST" : "LAST", 4); }
        p += unit(kind);
    }
    *n = p - b; return b;
}
/* for each chunk found, whether it is the one expected there */
static void found(const char *what, IFF_Chunk **res, unsigned int n, IFF_Chunk **a, unsigned int from)
{
    unsigned int j; unsigned char x;
    fprintf(out, ",\"%s\":{\"n\":%u", what, n); runsBegin();
    for(j = 0; j < n && n <= 2 * N; j++) { x = from + j < N && res[j] == a[from + j]; run(&x, 1); }
    runsEnd(); fprintf(out, "}");
}

static IFF_Form *bigForm(void)
{
    IFF_Form *g = IFF_createForm(4 + 8 + BIG + 1 + 10, ID4("WIDE")); IFF_RawChunk *r = (IFF_RawChunk*)IFF_createRawChunk(ID4("BODY"), BIG); IFF_Chunk **a = malloc(2 * sizeof *a);
    memset(r->chunkData, 'a', BIG - 3); memset(r->chunkData + BIG - 3, 'b', 3);
    a[0] = (IFF_Chunk*)r; a[1] = member(FORMK, 1); a[0]->parent = a[1]->parent = (IFF_Group*)g; g->chunk = a; g->chunkLength = 2;
    return g;
}
static int stageData(const char *s)
{
    IFF_Form *g, *h; size_t n = 12 + 8 + BIG + 1 + 10, p; char *b; FILE *f; IFF_Bool ok; IFF_Long sz = n - 8, i;
    fprintf(out, "{\"op\":\"wide\",\"kind\":\"data\",\"stage\":\"%s\"", s);
    if(!strcmp(s, "read")) {
        b = malloc(n); memcpy(b, "FORM", 4); for(i = 0; i < 4; i++) { b[4 + i] = sz >> (24 - 8 * i); b[16 + i] = BIG >> (24 - 8 * i); } memcpy(b + 8, "WIDEBODY", 8);
        memset(b + 20, 'a', BIG - 3); memset(b + 20 + BIG - 3, 'b', 3); memcpy(b + 20 + BIG, "\0LAST\0\0\0\1b\0", 11);
        f = fmemopen(b, n, "rb"); g = (IFF_Form*)IFF_readFd(f, NULL);
        fprintf(out, ",\"ok\":%s,\"sz\":%d,\"sz2\":%d", g ? "true" : "false", g ? g->chunkSize : -1, g && g->chunkLength == 2 ? g->chunk[0]->chunkSize : -1); runsBegin();
        if(g && g->chunkLength == 2 && g->chunk[0]->chunkSize == BIG && g->chunk[1]->chunkSize == 1) { for(i = 0; i < BIG; i++) run(((IFF_RawChunk*)g->chunk[0])->chunkData + i, 1); run("--", 2); run(((IFF_RawChunk*)g->chunk[1])->chunkData, 1); }
        runsEnd();
    }
    else if(!strcmp(s, "write")) {
        f = open_memstream(&b, &p); ok = IFF_writeFd(f, (IFF_Chunk*)bigForm(), NULL); fclose(f);
        fprintf(out, ",\"ok\":%s,\"len\":%zu", ok ? "true" : "false", p); runsBegin();
        if(p == n) { run(b, 20); for(i = 0; i < BIG + 1; i++) run(b + 20 + i, 1); run(b + n - 10, 10); }
        runsEnd();
    }
    else if(!strcmp(s, "cmp")) {
        g = bigForm(); h = bigForm(); ok = IFF_compare((IFF_Chunk*)g, (IFF_Chunk*)h, NULL); ((IFF_RawChunk*)h->chunk[0])->chunkData[BIG - 1] = 'c';
        fprintf(out, ",\"v\":%s,\"v2\":%s", ok ? "true" : "false", IFF_compare((IFF_Chunk*)g, (IFF_Chunk*)h, NULL) ? "true" : "false");
    }
    else if(!strcmp(s, "check")) fprintf(out, ",\"v\":%s", IFF_check((IFF_Chunk*)bigForm(), NULL) ? "true" : "false");
    else if(!strcmp(s, "update")) { g = bigForm(); g->chunkSize = 0; IFF_updateChunkSizes((IFF_Chunk*)g); fprintf(out, ",\"sz\":%d", g->chunkSize); }
    else return 0;
    fprintf(out, "}\n");
    return 1;
}

static int stage(int kind, const char *s)
{
    IFF_Group *g, *h; IFF_Chunk **a; int j; size_t n; char *b; FILE *f; IFF_Bool ok;
    fprintf(out, "{\"op\":\"wide\",\"kind\":\"%s\",\"stage\":\"%s\"", kinds[kind], s);
    if(!strcmp(s, "read")) {
        b = encoded(kind, &n); f = fmemopen(b, n, "rb"); g = (IFF_Group*)IFF_readFd(f, NULL);
        fprintf(out, ",\"ok\":%s,\"sz\":%d", g ? "true" : "false", g ? g->chunkSize : -1);
        if(g) members(kind, g); else { runsBegin(); runsEnd(); }
    }
    else if(!strcmp(s, "write")) {
        size_t p; g = make(kind); f = open_memstream(&b, &n); ok = IFF_writeFd(f, (IFF_Chunk*)g, NULL); fclose(f);
        fprintf(out, ",\"ok\":%s,\"len\":%zu", ok ? "true" : "false", n);
        runsBegin(); run(b, n < 12 ? n : 12); for(p = 12; p < n; p += unit(kind)) run(b + p, n - p < unit(kind) ? n - p : unit(kind)); runsEnd();
    }
    else if(!strcmp(s, "check")) {
        g = make(kind); ok = IFF_checkChunk((IFF_Chunk*)g, 0, &IFF_defaultChunkRegistry);
        if(unit(kind) == 10) lastOf(kind, g)->chunkId = ID4("\1AST"); else ((IFF_Group*)lastOf(kind, g))->groupType = ID4("last");
        fprintf(out, ",\"v\":%s,\"v2\":%s", ok ? "true" : "false", IFF_checkChunk((IFF_Chunk*)g, 0, &IFF_defaultChunkRegistry) ? "true" : "false");
    }
    else if(!strcmp(s, "cmp")) {
        g = make(kind); h = make(kind); ok = IFF_compare((IFF_Chunk*)g, (IFF_Chunk*)h, NULL);
        if(unit(kind) == 10) ((IFF_RawChunk*)lastOf(kind, h))->chunkData[0] = 'c'; else ((IFF_Group*)lastOf(kind, h))->groupType = ID4("ELSE");
        fprintf(out, ",\"v\":%s,\"v2\":%s", ok ? "true" : "false", IFF_compare((IFF_Chunk*)g, (IFF_Chunk*)h, NULL) ? "true" : "false");
    }
    else if(!strcmp(s, "search")) {
        IFF_ID t[2] = { ID4("LAST"), ID4("TEST") }; unsigned int k; IFF_Chunk **r;
        if(kind != CATK && kind != LISTK && kind != NESTED) return 0;
        g = make(kind); membersOf(kind, g, &a);
        r = (IFF_Chunk**)IFF_searchForms((IFF_Chunk*)g, t[1], &k); found("a", r, k, a, 0);
        r = (IFF_Chunk**)IFF_searchForms((IFF_Chunk*)g, t[0], &k); found("b", r, k, a, N1);
        r = (IFF_Chunk**)IFF_searchFormsFromArray((IFF_Chunk*)g, t, 2, &k); found("all", r, k, a, 0);
    }
    else if(!strcmp(s, "get")) {
        unsigned int k; IFF_Chunk **r, *c;
        if(kind != FORMK && kind != PROPK && kind != PROPSK) return 0;
        g = make(kind); membersOf(kind, g, &a);
        c = kind == FORMK ? IFF_getChunkFromForm((IFF_Form*)g, ID4("LAST")) : kind == PROPK ? IFF_getChunkFromProp((IFF_Prop*)g, ID4("LAST")) : (IFF_Chunk*)IFF_getPropFromList((IFF_List*)g, ID4("LAST"));
        found("one", &c, c != NULL, a, N1);
        if(kind == FORMK) { r = IFF_getChunksFromForm((IFF_Form*)g, ID4("BODY"), &k); found("a", r, k, a, 0); r = IFF_getChunksFromForm((IFF_Form*)g, ID4("LAST"), &k); found("b", r, k, a, N1); }
    }
    else if(!strcmp(s, "add") || !strcmp(s, "track")) {
        int track = *s == 't';
        if(track && kind != CATK && kind != LISTK) return 0;
        g = empty(kind, 4);
        for(j = 0; j < N; j++) {
            IFF_Chunk *c = member(kind, j >= N1);
            if(kind == FORMK || kind == NESTED) IFF_addToForm((IFF_Form*)g, c); else if(kind == PROPK) IFF_addToProp((IFF_Prop*)g, c); else if(kind == PROPSK) IFF_addPropToList((IFF_List*)g, (IFF_Prop*)c);
            else if(kind == CATK) (track ? IFF_addToCATAndUpdateContentsType : IFF_addToCAT)((IFF_CAT*)g, c); else (track ? IFF_addToListAndUpdateContentsType : IFF_addToList)((IFF_List*)g, c);
            if(track && j == N1 - 1) { IFF_ID t = g->groupType; fprintf(out, ",\"tya\":[%d,%d,%d,%d]", t >> 24, t >> 16 & 255, t >> 8 & 255, t & 255); }
        }
        fprintf(out, ",\"sz\":%d,\"ty\":[%d,%d,%d,%d]", g->chunkSize, g->groupType >> 24, g->groupType >> 16 & 255, g->groupType >> 8 & 255, g->groupType & 255); members(kind, g);
    }
    else if(!strcmp(s, "update")) {
        g = make(kind); g->chunkSize = 7; if(unit(kind) == 12) lastOf(kind, g)->chunkSize = 9;
        IFF_updateChunkSizes((IFF_Chunk*)g); fprintf(out, ",\"sz\":%d", g->chunkSize); members(kind, g);
    }
    else if(!strcmp(s, "print")) {
        char *p, *q; FILE *o = stdout; g = make(kind); stdout = open_memstream(&b, &n); IFF_print((IFF_Chunk*)g, 0, NULL); fclose(stdout); stdout = o;
        fprintf(out, ",\"len\":%zu", n); runsBegin(); /* pieces that end with an empty line */
        for(p = b; p < b + n; p = q) { q = memmem(p, b + n - p, "\n\n", 2); q = q ? q + 2 : b + n; run(p, q - p); }
        runsEnd();
    }
    else { g = make(kind); IFF_free((IFF_Chunk*)g, NULL); }
    fprintf(out, "}\n");
    return 1;
}

int main(int argc, char **argv)
{
    FILE *log = argc == 2 ? fopen(argv[1], "w") : NULL; int k, i, nk = sizeof kinds / sizeof *kinds, ns = sizeof stages / sizeof *stages;
    static FILE *part[16][16]; static pid_t pid[16][16];
    if(!log) return 3;
    IFF_errorCallback = &quiet;
    for(k = 0; k < nk; k++) {
        for(i = 0; i < ns; i++) {
            part[k][i] = tmpfile(); if(!part[k][i]) return 3;
            if((pid[k][i] = fork()) == 0) { alarm(60); out = part[k][i]; if(!(k == DATAK ? stageData(stages[i]) : stage(k, stages[i]))) { rewind(out); if(ftruncate(fileno(out), 0)) _exit(9); } else fflush(out); _exit(0); }
        }
        for(i = 0; i < ns; i++) {
            int st; char t[4096]; size_t r;
            waitpid(pid[k][i], &st, 0);
            if(st) { fprintf(log, "{\"op\":\"crash\",\"what\":\"wide-%s\"}\n", stages[i]); continue; }
            rewind(part[k][i]); while((r = fread(t, 1, sizeof t, part[k][i])) > 0) fwrite(t, 1, r, log);
            fclose(part[k][i]);
        }
    }
    return fclose(log) ? 3 : 0;
}
