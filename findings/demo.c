/* Demonstrations of the defects found in the original tree: demo N prints "DEFECT n ..." / "ok n".
 * Built and run by findings/run.sh against /repo's current tree. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sanitizer/lsan_interface.h>
#include "iff.h"
#include "chunk.h"
#include "form.h"
#include "cat.h"
#include "list.h"
#include "prop.h"
#include "rawchunk.h"
#include "id.h"
#include "io.h"
#include "field.h"
#include "error.h"
#include "chunkregistry.h"
#include "defaultregistry.h"

static char errbuf[65536];
static void cb(const char *f, va_list ap) { size_t n = strlen(errbuf); vsnprintf(errbuf + n, sizeof errbuf - n, f, ap); }
#define ID IFF_MAKEID

typedef struct { IFF_Group *parent; IFF_ID chunkId; IFF_Long chunkSize; IFF_UByte a, b; IFF_UWord c; } Helo;
static IFF_Chunk *hc(const IFF_ID i, const IFF_Long s) { Helo *h = (Helo*)IFF_createChunk(i, s, sizeof(Helo)); if(h) { h->a = h->b = 0; h->c = 0; } return (IFF_Chunk*)h; }
static IFF_Bool hr(FILE *f, IFF_Chunk *c, const IFF_ChunkRegistry *r, IFF_Long *bp) { Helo *h = (Helo*)c; IFF_FieldStatus s;
    if((s = IFF_readUByteField(f, &h->a, c, "a", bp)) != IFF_FIELD_MORE) return IFF_deriveSuccess(s);
    if((s = IFF_readUByteField(f, &h->b, c, "b", bp)) != IFF_FIELD_MORE) return IFF_deriveSuccess(s);
    if((s = IFF_readUWordField(f, &h->c, c, "c", bp)) != IFF_FIELD_MORE) return IFF_deriveSuccess(s);
    return TRUE; }
static IFF_Bool hw(FILE *f, const IFF_Chunk *c, const IFF_ChunkRegistry *r, IFF_Long *bp) { Helo *h = (Helo*)c; IFF_FieldStatus s;
    if((s = IFF_writeUByteField(f, h->a, c, "a", bp)) != IFF_FIELD_MORE) return IFF_deriveSuccess(s);
    if((s = IFF_writeUByteField(f, h->b, c, "b", bp)) != IFF_FIELD_MORE) return IFF_deriveSuccess(s);
    if((s = IFF_writeUWordField(f, h->c, c, "c", bp)) != IFF_FIELD_MORE) return IFF_deriveSuccess(s);
    return TRUE; }
static IFF_Bool hk(const IFF_Chunk *c, const IFF_ChunkRegistry *r) { return TRUE; }
static void hf(IFF_Chunk *c, const IFF_ChunkRegistry *r) {}
static void hp(const IFF_Chunk *c, const unsigned int i, const IFF_ChunkRegistry *r) {}
static IFF_Bool hq(const IFF_Chunk *c, const IFF_Chunk *d, const IFF_ChunkRegistry *r) { return TRUE; }
static IFF_ChunkType types[] = {{ID('H','E','L','O'), hc, hr, hw, hk, hf, hp, hq}};
static IFF_ChunkTypesNode node = {1, types, NULL};
static IFF_FormChunkTypes fct[] = {{ID('T','E','S','T'), &node}};
static const IFF_ChunkRegistry reg = IFF_EXTEND_DEFAULT_REGISTRY_WITH_FORM_CHUNK_TYPES(1, fct);

static IFF_Chunk *rd(const char *b, size_t n, const IFF_ChunkRegistry *r) { FILE *f = fmemopen((void*)b, n, "rb"); IFF_Chunk *c = IFF_readFd(f, r); fclose(f); return c; }
static int verdict(int n, int bad, const char *what) { printf("%s %d: %s\n", bad ? "DEFECT" : "ok", n, what); return bad; }

int main(int argc, char **argv)
{
    int n = atoi(argv[1]);
    IFF_errorCallback = cb;
    setvbuf(stdout, NULL, _IONBF, 0);
    switch(n)
    {
    case 1: { /* FORM of size 2 whose type field would overrun its declared size */
        static const char b[] = "FORM\0\0\0\2AB";
        IFF_Chunk *c = rd(b, 10, NULL);
        int bad = c == NULL;
        if(c) IFF_free(c, NULL);
        return verdict(1, bad, "field read past the declared end of a chunk shorter than the field"); }
    case 2: { /* FORM nested in FORM TEST with a TEST-scoped chain */
        IFF_ChunkType *t = IFF_findChunkType(&reg, ID('T','E','S','T'), IFF_ID_FORM);
        return verdict(2, t->createExtensionChunk != &IFF_createUnparsedForm, "global chunk type shadowed by a form-scoped chain"); }
    case 3: {
        IFF_Form *f = IFF_createEmptyForm(ID('T','E','S','T'));
        int bad = IFF_write("/dev/full", (IFF_Chunk*)f, NULL);
        IFF_free((IFF_Chunk*)f, NULL);
        return verdict(3, bad, "IFF_write reports success although nothing was stored"); }
    case 4: {
        IFF_CAT *c = IFF_createEmptyCAT(); unsigned int len; IFF_Form **r; int bad;
        IFF_addToCAT(c, (IFF_Chunk*)IFF_createEmptyForm(ID('T','E','S','T')));
        r = IFF_searchForms((IFF_Chunk*)c, ID('T','E','S','T'), &len);
        free(r); r = NULL;
        IFF_free((IFF_Chunk*)c, NULL);
        bad = __lsan_do_recoverable_leak_check();
        return verdict(4, bad, "IFF_searchForms leaks intermediate results"); }
    case 5: { /* same input twice: same diagnostics? reports the actual amount? */
        static const char b[] = "FORM\0\0\0\6TEST" "ABCD\0\0\0\0";
        IFF_Chunk *c = rd(b, 20, NULL);
        int bad = strstr(errbuf, "is: 12 bytes") == NULL;
        if(c) IFF_free(c, NULL);
        return verdict(5, bad, "overrun diagnostic prints a pointer"); }
    case 6: {
        IFF_List *l[2]; int i, bad;
        for(i = 0; i < 2; i++) { IFF_Prop *p = IFF_createEmptyProp(ID('T','E','S','T')); l[i] = IFF_createEmptyListWithContentsType(ID('T','E','S','T')); IFF_addPropToList(l[i], p); p->chunkSize += 2 * i; }
        bad = IFF_compare((IFF_Chunk*)l[0], (IFF_Chunk*)l[1], NULL);
        for(i = 0; i < 2; i++) IFF_free((IFF_Chunk*)l[i], NULL);
        return verdict(6, bad, "lists with PROPs of different chunkSize compare equal"); }
    case 7: { /* HELO of size 8, file ends after 4 body bytes */
        static const char b[] = "FORM\0\0\0\24TEST" "HELO\0\0\0\10abcd";
        IFF_Chunk *c = rd(b, 24, &reg);
        char name[] = "/tmp/iffdemoXXXXXX"; int fd = mkstemp(name); FILE *f = fdopen(fd, "w+b"); int bad;
        fwrite(b, 1, 24, f); rewind(f);
        if(c) IFF_free(c, &reg);
        c = IFF_readFd(f, &reg); bad = c != NULL;
        if(c) IFF_free(c, &reg);
        fclose(f); unlink(name);
        return verdict(7, bad, "truncated extension chunk accepted"); }
    }
    return 2;
}
