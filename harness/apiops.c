/* Interpreter for lists of C API operations on containers (check C25).  One operation per line, one result line each:
 * result | frees.  Values are integers kept in the pointers; keys are hex strings or numbers. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <stdint.h>
#include "jsi.h"
#define N 16
#define NE 4000
static FILE *out;
static struct ct {
    int kind;               /* H hash, T tree, h t l: map of hash, tree, list */
    unsigned kt;
    void *p;
} C[N];
static Jsi_List *L[N];
static Jsi_ListEntry *E[NE];
static Jsi_Stack *S[N];
static Jsi_DString *D[N];
static char frees[1<<20];
static int flen;
static long compares;
static char *Keys[20000];
static int nKeys;

static Jsi_RC freeProc(Jsi_Interp *interp, Jsi_HashEntry *h, void *data) {
    if (flen < (int)sizeof(frees)-40) flen += sprintf(frees+flen, " %ld", (long)data);
    return JSI_OK;
}
static int countCompare(Jsi_Tree *t, const void *a, const void *b) {
    compares++;
    return -Jsi_Strcmp((char*)a, (char*)b);
}
static int unhex(const char *s, unsigned char *o) {
    int n = 0;
    if (*s == '-') return 0;
    for (; s[0] && s[1]; s += 2) { unsigned v; sscanf(s, "%2x", &v); o[n++] = v; }
    return n;
}
static const void *keyOf(struct ct *c, const char *s) {
    static unsigned char b[4][100000];
    static int k;
    unsigned char *o = b[k++ & 3];
    if (c->kt == JSI_KEYS_ONEWORD) return (void*)(uintptr_t)strtoull(s, NULL, 10);
    int n = unhex(s, o);
    o[n] = 0;
    if (c->kt != JSI_KEYS_STRINGKEY) return o;
    for (int i=0; i<nKeys; i++) if (!strcmp(Keys[i], (char*)o)) return Keys[i];
    return Keys[nKeys++] = strdup((char*)o);
}
static void showKey(struct ct *c, const void *k) {
    if (c->kt == JSI_KEYS_ONEWORD) { fprintf(out, "%llu", (unsigned long long)(uintptr_t)k); return; }
    int n = (c->kt >= JSI_KEYS_STRUCT_MINSIZE ? (int)c->kt : (int)strlen((char*)k));
    if (!n) fputc('-', out);
    for (int i=0; i<n; i++) fprintf(out, "%02x", ((unsigned char*)k)[i]);
}
#define PICK(c,h,t,m) ((c)->kind=='H' ? (void*)(uintptr_t)(h) : (c)->kind=='T' ? (void*)(uintptr_t)(t) : (void*)(uintptr_t)(m))
static void *eKey(struct ct *c, void *e) { return PICK(c, Jsi_HashKeyGet(e), Jsi_TreeKeyGet(e), Jsi_MapKeyGet(e, 0)); }
static void *eVal(struct ct *c, void *e) { return PICK(c, Jsi_HashValueGet(e), Jsi_TreeValueGet(e), Jsi_MapValueGet(e)); }
static void eSet(struct ct *c, void *e, void *v) {
    if (c->kind=='H') Jsi_HashValueSet(e, v); else if (c->kind=='T') Jsi_TreeValueSet(e, v); else Jsi_MapValueSet(e, v);
}
static int eDel(struct ct *c, void *e) { return c->kind=='H' ? Jsi_HashEntryDelete(e) : c->kind=='T' ? Jsi_TreeEntryDelete(e) : Jsi_MapEntryDelete(e); }
static void *find(struct ct *c, const void *k) { return PICK(c, Jsi_HashEntryFind(c->p, k), Jsi_TreeEntryFind(c->p, k), Jsi_MapEntryFind(c->p, k)); }
static void *first(struct ct *c, Jsi_MapSearch *s, int fl, const void *key) {
    if (c->kind=='H') return Jsi_HashSearchFirst(c->p, &s->v.hash);
    if (c->kind=='T') return Jsi_TreeSearchFirst(c->p, &s->v.tree, fl, key);
    return Jsi_MapSearchFirst(c->p, s, fl);
}
static void *next(struct ct *c, Jsi_MapSearch *s) { return PICK(c, Jsi_HashSearchNext(&s->v.hash), Jsi_TreeSearchNext(&s->v.tree), Jsi_MapSearchNext(s)); }
static void done(struct ct *c, Jsi_MapSearch *s) { if (c->kind=='T') Jsi_TreeSearchDone(&s->v.tree); else if (c->kind!='H') Jsi_MapSearchDone(s); }

static int walkStop, walkCnt;
static struct ct *walkC;
static Jsi_RC walk(Jsi_Tree *t, Jsi_TreeEntry *e, void *data) {
    fputc(' ', out);
    showKey(walkC, Jsi_TreeKeyGet(e));
    fprintf(out, "=%ld", (long)Jsi_TreeValueGet(e));
    return ++walkCnt == walkStop ? JSI_ERROR : JSI_OK;
}

static void dsShow(Jsi_DString *d) {
    char *cp = Jsi_DSValue(d);
    int n = Jsi_DSLength(d);
    fprintf(out, "%d %d ", n, cp[n]);
    if (n > 40000) { unsigned h = 0; for (int i=0; i<n; i++) h = h*31 + (unsigned char)cp[i]; fprintf(out, "#%u", h); return; }
    for (int i=0; i<n; i++) fprintf(out, "%02x", (unsigned char)cp[i]);
}

int vt_api_main(FILE *in, FILE *o) {
    static char line[400000], op[40], a[6][200000];
    out = o;
    while (fgets(line, sizeof(line), in)) {
        op[0] = 0;
        for (int i=0; i<6; i++) strcpy(a[i], "0");
        int n = sscanf(line, "%39s %199999s %199999s %199999s %199999s %199999s %199999s", op, a[0], a[1], a[2], a[3], a[4], a[5]);
        if (n < 1) continue;
        int i = atoi(a[0]) % N, j = atoi(a[1]);
        struct ct *c = C+i;
        bool isNew = 0;
        flen = 0; frees[0] = 0;
#define IS(s) !strcmp(op, s)
        if (IS("new")) {
            unsigned kt = atoi(a[2]);
            void *fp = atoi(a[3]) ? freeProc : NULL;
            c->kind = a[1][0]; c->kt = kt;
            c->p = c->kind=='H' ? (void*)Jsi_HashNew(NULL, kt, fp) : c->kind=='T' ? (void*)Jsi_TreeNew(NULL, kt, fp) :
                (void*)Jsi_MapNew(NULL, c->kind=='h'?JSI_MAP_HASH:c->kind=='t'?JSI_MAP_TREE:JSI_MAP_LIST, kt, fp);
            fprintf(o, "%d", c->p != NULL);
        } else if (IS("count")) {           /* count compares, in descending order */
            Jsi_MapOpts mo;
            if (c->kind=='T') Jsi_TreeConf(c->p, &mo, 0); else Jsi_MapConf(c->p, &mo, 0);
            mo.compareTreeProc = countCompare;
            if (c->kind=='T') Jsi_TreeConf(c->p, &mo, 1); else Jsi_MapConf(c->p, &mo, 1);
            fprintf(o, "%d %d", mo.mapType, mo.keyType);
        } else if (IS("ncmp")) {
            compares = 0;
            void *e = find(c, keyOf(c, a[1]));
            fprintf(o, "%d %ld", e != NULL, compares);
        } else if (IS("set")) {
            const void *k = keyOf(c, a[1]);
            void *v = (void*)(intptr_t)atol(a[2]);
            void *e = c->kind=='H' ? (void*)Jsi_HashSet(c->p, k, v) : c->kind=='T' ? (void*)Jsi_TreeSet(c->p, k, v) : (void*)Jsi_MapSet(c->p, k, v);
            showKey(c, eKey(c, e)); fprintf(o, "=%ld", (long)eVal(c, e));
        } else if (IS("fill")) {            /* keys and values j .. j+n-1, as text or numbers */
            int m = atoi(a[2]), st = atoi(a[3]);
            for (int q=0; q<m; q++) {
                char b[200] = ""; int kk = (int)((unsigned)(j + q*(long)st) % 1000003u);
                const void *k;
                sprintf(b, "%s%d", "k", kk);
                if (c->kt == JSI_KEYS_ONEWORD) k = (void*)(intptr_t)kk;
                else if (c->kt == JSI_KEYS_STRINGKEY) { char hx[400]; int z=0; for (char *p=b; *p; p++) z += sprintf(hx+z, "%02x", *p); k = keyOf(c, hx); }
                else k = b;
                void *v = (void*)(intptr_t)(kk+1);
                if (c->kind=='H') Jsi_HashSet(c->p, k, v); else if (c->kind=='T') Jsi_TreeSet(c->p, k, v); else Jsi_MapSet(c->p, k, v);
            }
        } else if (IS("ent")) {
            const void *k = keyOf(c, a[1]);
            void *e = c->kind=='H' ? (void*)Jsi_HashEntryNew(c->p, k, &isNew) : c->kind=='T' ? (void*)Jsi_TreeEntryNew(c->p, k, &isNew) : (void*)Jsi_MapEntryNew(c->p, k, &isNew);
            fprintf(o, "%d ", isNew); showKey(c, eKey(c, e)); fprintf(o, "=%ld", (long)eVal(c, e));
        } else if (IS("get")) {
            const void *k = keyOf(c, a[1]);
            fprintf(o, "%ld", (long)PICK(c, Jsi_HashGet(c->p, k, 0), Jsi_TreeGet(c->p, (void*)k, 0), Jsi_MapGet(c->p, k, 0)));
        } else if (IS("find") || IS("vset") || IS("edel")) {
            void *e = find(c, keyOf(c, a[1]));
            if (!e) fprintf(o, "none");
            else if (IS("edel")) fprintf(o, "%d", eDel(c, e));
            else {
                if (IS("vset")) eSet(c, e, (void*)(intptr_t)atol(a[2]));
                showKey(c, eKey(c, e)); fprintf(o, "=%ld", (long)eVal(c, e));
            }
        } else if (IS("unset")) {
            const void *k = keyOf(c, a[1]);
            fprintf(o, "%d", c->kind=='H' ? Jsi_HashUnset(c->p, k) : c->kind=='T' ? Jsi_TreeUnset(c->p, (void*)k) : 0);
        } else if (IS("size")) {
            fprintf(o, "%d", (int)(intptr_t)PICK(c, Jsi_HashSize(c->p), Jsi_TreeSize(c->p), Jsi_MapSize(c->p)));
        } else if (IS("iter") || IS("iterdel")) {   /* c order stopAfter startKey | c modulus */
            Jsi_MapSearch s;
            int cnt = 0, stop = atoi(a[2]);
            const void *key = IS("iter") && n > 4 ? keyOf(c, a[3]) : NULL;
            void *e = first(c, &s, IS("iter") ? j : 0, key);
            for (; e; e = next(c, &s)) {
                fputc(' ', o);
                showKey(c, eKey(c, e)); fprintf(o, "=%ld", (long)eVal(c, e));
                if (IS("iterdel") && ((long)eVal(c, e)) % j == 0) eDel(c, e);
                if (++cnt == stop && IS("iter")) break;
            }
            done(c, &s);
        } else if (IS("walk")) {
            walkC = c; walkCnt = 0; walkStop = atoi(a[2]);
            Jsi_RC rc = Jsi_TreeWalk(c->p, walk, NULL, j);
            fprintf(o, " rc=%d", rc == JSI_OK);
        } else if (IS("clear")) { if (c->kind=='H') Jsi_HashClear(c->p); else if (c->kind=='T') Jsi_TreeClear(c->p); else Jsi_MapClear(c->p); }
        else if (IS("del")) fprintf(o, "%d", c->kind=='H' ? Jsi_HashDelete(c->p) : c->kind=='T' ? Jsi_TreeDelete(c->p) : Jsi_MapDelete(c->p));
        /* map of list: key 0 is the front for find and the back for new */
        else if (IS("lnew")) { L[i] = Jsi_ListNew(NULL, 0, atoi(a[1]) ? freeProc : NULL); fprintf(o, "%d", Jsi_ListSize(L[i])); }
        else if (IS("lpush")) {             /* l e value where: -1 back, -2 front, else before entry */
            int w = atoi(a[3]);
            void *v = (void*)(intptr_t)atol(a[2]);
            E[j] = w == -1 ? Jsi_ListPushBackNew(L[i], v) : w == -2 ? Jsi_ListPushFrontNew(L[i], v) : Jsi_ListEntryNew(L[i], v, E[w]);
            fprintf(o, "%ld", (long)Jsi_ListValueGet(E[j]));
        } else if (IS("lpop")) {            /* l: front -2, back -1, entry; the entry stays allocated */
            Jsi_ListEntry *e = j == -1 ? Jsi_ListPopBack(L[i]) : j == -2 ? Jsi_ListPopFront(L[i]) : Jsi_ListPop(L[i], E[j]);
            fprintf(o, "%ld", (long)Jsi_ListValueGet(e));
        } else if (IS("lmove")) {           /* l e where: push an existing entry */
            int w = atoi(a[2]);
            Jsi_ListEntry *e = w == -1 ? Jsi_ListPushBack(L[i], E[j]) : w == -2 ? Jsi_ListPushFront(L[i], E[j]) : Jsi_ListPush(L[i], E[j], E[w]);
            fprintf(o, "%ld", (long)Jsi_ListValueGet(e));
        } else if (IS("ldel")) fprintf(o, "%d", Jsi_ListEntryDelete(E[j]));
        else if (IS("lset")) Jsi_ListValueSet(E[j], (void*)(intptr_t)atol(a[2]));
        else if (IS("lends")) fprintf(o, "%d %d", Jsi_ListGetFront(L[i]) ? (int)(intptr_t)Jsi_ListValueGet(Jsi_ListGetFront(L[i])) : -1, Jsi_ListGetFront(L[i]) ? (int)(intptr_t)Jsi_ListValueGet(Jsi_ListGetBack(L[i])) : -1);
        else if (IS("liter")) {
            Jsi_ListSearch s;
            Jsi_ListEntry *e;
            fprintf(o, "%d:", Jsi_ListSize(L[i]));
            int cnt = 0;
            for (e = Jsi_ListSearchFirst(L[i], &s, j ? JSI_LIST_REVERSE : 0); e && cnt++ < 5000; e = Jsi_ListSearchNext(&s)) {
                fprintf(o, " %ld", (long)Jsi_ListValueGet(e));
                if (atoi(a[2]) && ((long)Jsi_ListValueGet(e)) % atoi(a[2]) == 0) { Jsi_ListPop(L[i], e); Jsi_ListEntryDelete(e); }
            }
        } else if (IS("lclear")) { Jsi_ListClear(L[i]); fprintf(o, "%d", Jsi_ListSize(L[i])); }
        else if (IS("ldelete")) fprintf(o, "%d", Jsi_ListDelete(L[i]));
        else if (IS("snew")) S[i] = Jsi_StackNew();
        else if (IS("spush")) { int m = atoi(a[2]) > 1 ? atoi(a[2]) : 1; for (int q=0; q<m; q++) Jsi_StackPush(S[i], (void*)(intptr_t)(j+q)); }
        else if (IS("spop")) fprintf(o, "%ld", (long)Jsi_StackPop(S[i]));
        else if (IS("speek")) fprintf(o, "%ld", (long)Jsi_StackPeek(S[i]));
        else if (IS("sunshift")) fprintf(o, "%ld", (long)Jsi_StackUnshift(S[i]));
        else if (IS("shead")) fprintf(o, "%ld", (long)Jsi_StackHead(S[i]));
        else if (IS("ssize")) fprintf(o, "%d", Jsi_StackSize(S[i]));
        else if (IS("sfree")) Jsi_StackFree(S[i]);
        else if (IS("dnew")) {              /* d how: 0 zeroed, 1 Init, 2 with text in it, 3.. own size */
            static struct { JSI_DSTRING_DECL_FIELDS(5000) } big[N];
            if (j <= 2) {
                Jsi_DString *d = D[i] = calloc(1, sizeof(Jsi_DString));
                if (j == 1) Jsi_DSInit(d);
                if (j == 2) strcpy(d->Str, "Here is");
            } else {
                Jsi_DString *d = D[i] = (Jsi_DString*)&big[i];
                d->staticSize = j; d->strA = 0; d->Str[0] = 0; d->spaceAvl = d->len = 0;
            }
            dsShow(D[i]);
        } else if (IS("dlen")) {            /* append bytes with a length (-1: to the NUL) */
            static unsigned char b[200000];
            int m = unhex(a[1], b); b[m] = 0;
            Jsi_DSAppendLen(D[i], (char*)b, atoi(a[2]) < 0 ? -1 : m); dsShow(D[i]);
        } else if (IS("drep")) { char *s = malloc(j+1); memset(s, a[2][0], j); s[j] = 0; Jsi_DSAppendLen(D[i], s, -1); free(s); dsShow(D[i]); }
        else if (IS("dapp")) { Jsi_DSAppend(D[i], a[1], a[2], n > 4 ? a[3] : NULL, NULL); dsShow(D[i]); }
        else if (IS("dfmt")) { Jsi_DSPrintf(D[i], "<%0*d|%s|%.3f>", j, 7, a[2], 2.5); dsShow(D[i]); }
        else if (IS("dset")) { Jsi_DSSet(D[i], a[1][0] == '-' ? "" : a[1]); dsShow(D[i]); }
        else if (IS("dsize")) { uint r = Jsi_DSSetLength(D[i], j); fprintf(o, "%d ", r >= (uint)j || r > Jsi_DSLength(D[i])); dsShow(D[i]); }
        else if (IS("dfree")) { Jsi_DSFree(D[i]); dsShow(D[i]); }
        else if (IS("ddup")) { char *cp = Jsi_DSFreeDup(D[i]); int m = strlen(cp); fprintf(o, "%d ", m); for (int q=0; q<m && m<=40000; q++) fprintf(o, "%02x", (unsigned char)cp[q]); Jsi_Free(cp); fputc(' ', o); dsShow(D[i]); }
        else if (IS("split")) {             /* text separator */
            static unsigned char b[200000], sp[1000];
            int m = unhex(a[0], b), ac; b[m] = 0; m = unhex(a[1], sp); sp[m] = 0;
            char **av = NULL;
            Jsi_DString d = {};
            Jsi_SplitStr((char*)b, &ac, &av, (char*)sp, &d);
            fprintf(o, "%d", ac);
            for (int q=0; q<ac; q++) { fputc(' ', o); if (!av[q][0]) fputc('-', o); for (char *p=av[q]; *p; p++) fprintf(o, "%02x", (unsigned char)*p); }
            Jsi_DSFree(&d);
        } else fprintf(o, "?%s", op);
        fprintf(o, " |%s\n", frees);
    }
    return 0;
}
