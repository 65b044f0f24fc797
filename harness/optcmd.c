/* opt(verb, handle, ...): a record with one field of every option type, handled through the public option API. */
#include "jsi.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <inttypes.h>

typedef struct { int n; char s[6]; Jsi_Value *v; double f; } Sub;
typedef struct { int x; const char *k; } Elt;

typedef struct {
    uint64_t g0;
    bool bool_;
    int8_t i8; int16_t i16; int32_t i32; int64_t i64;
    uint8_t u8; uint16_t u16; uint32_t u32; uint64_t u64;
    int i; uint ui; long l; ulong ul; short sh; ushort us;
    size_t sz; ssize_t ssz; intptr_t ip; uintptr_t up;
    float f; double d; ldouble ld; Jsi_Number num;
    char buf[10];
    uint8_t g1;
    const char *key;
    Jsi_DString ds;
    Jsi_Value *str, *val, *obj, *arr, *re, *fn, *fn2;
    int64_t tw; double td; time_t tt;
    int en; int8_t en8; int64_t enx; int enc;
    uint8_t b8; uint16_t b16; uint32_t b32; uint64_t b64;
    uint8_t g2;
    Sub sub;
    uint8_t g3;
    int ca[4];
    uint8_t g4;
    Elt ce[3];
    uint8_t g5;
    int nul;
    int ro, io, lk;
    int alpha, alphabet, alp;
    uint64_t g9;
} R;
typedef struct { int req1; const char *req2; int other; double io; } Q;

static const char *en[] = {"red", "green", "redder", "blue", NULL};
static const char *enc[] = {"Alpha", "beta", "GAMMA", NULL};
static const char *enp[] = {"onetwo", "one", "two", NULL};
static const char *bn8[] = {"b0","b1","b2","b3","b4","b5","b6","b7","c8","c9",NULL};
static const char *bn32[] = {"b0","b1","b2","b3","b4","b5","b6","b7","b8","b9","b10","b11","b12","b13","b14","b15","b16","b17","b18","b19","b20","b21","b22","b23","b24","b25","b26","b27","b28","b29","b30","b31",NULL};
static const char *bn64[] = {"b0","b1","b2","b3","b4","b5","b6","b7","b8","b9","b10","b11","b12","b13","b14","b15","b16","b17","b18","b19","b20","b21","b22","b23","b24","b25","b26","b27","b28","b29","b30","b31","d32","d33","d34","d35","d36","d37","d38","d39","d40",NULL};
static const char *bn16[] = {"b0","b1","b2","b3","b4","b5","b6","b7","b8","b9","b10","b11",NULL};

static Jsi_OptionSpec subSpec[] = {
    JSI_OPT(INT, Sub, n), JSI_OPT(STRBUF, Sub, s), JSI_OPT(VALUE, Sub, v), JSI_OPT(DOUBLE, Sub, f),
    JSI_OPT_END(Sub)
};
static Jsi_OptionSpec eltSpec[] = {
    JSI_OPT(INT, Elt, x), JSI_OPT(STRKEY, Elt, k),
    JSI_OPT_END(Elt)
};
static Jsi_OptionSpec caSpec[] = { JSI_OPT_CARRAY_ITEM(INT, R, ca), JSI_OPT_END(R) };
static Jsi_OptionSpec ceSpec[] = {
    { .sig=JSI_SIG_OPTS, .id=JSI_OPTION_CUSTOM, .name="ce", .offset=0, .size=sizeof(((R*)0)->ce), .custom=Jsi_Opt_SwitchSuboption, .data=eltSpec },
    JSI_OPT_END(R)
};

static Jsi_OptionSpec spec[] = {
    JSI_OPT(BOOL, R, bool_),
    JSI_OPT(INT8, R, i8), JSI_OPT(INT16, R, i16), JSI_OPT(INT32, R, i32), JSI_OPT(INT64, R, i64),
    JSI_OPT(UINT8, R, u8), JSI_OPT(UINT16, R, u16), JSI_OPT(UINT32, R, u32), JSI_OPT(UINT64, R, u64),
    JSI_OPT(INT, R, i), JSI_OPT(UINT, R, ui), JSI_OPT(LONG, R, l), JSI_OPT(ULONG, R, ul),
    JSI_OPT(SHORT, R, sh), JSI_OPT(USHORT, R, us), JSI_OPT(SIZE_T, R, sz), JSI_OPT(SSIZE_T, R, ssz),
    JSI_OPT(INTPTR_T, R, ip), JSI_OPT(UINTPTR_T, R, up),
    JSI_OPT(FLOAT, R, f), JSI_OPT(DOUBLE, R, d), JSI_OPT(LDOUBLE, R, ld), JSI_OPT(NUMBER, R, num),
    JSI_OPT(STRBUF, R, buf), JSI_OPT(STRKEY, R, key), JSI_OPT(DSTRING, R, ds),
    JSI_OPT(STRING, R, str), JSI_OPT(VALUE, R, val), JSI_OPT(OBJ, R, obj), JSI_OPT(ARRAY, R, arr),
    JSI_OPT(REGEXP, R, re), JSI_OPT(FUNC, R, fn),
    JSI_OPT(FUNC, R, fn2, .help="", .flags=0, .custom=0, .data=(void*)"a:number, b:string"),
    JSI_OPT(TIME_W, R, tw), JSI_OPT(TIME_D, R, td), JSI_OPT(TIME_T, R, tt),
    JSI_OPT(CUSTOM, R, en, .help="", .flags=0, .custom=Jsi_Opt_SwitchEnum, .data=en),
    JSI_OPT(CUSTOM, R, en8, .help="", .flags=0, .custom=Jsi_Opt_SwitchEnum, .data=enp),
    JSI_OPT(CUSTOM, R, enx, .help="", .flags=JSI_OPT_ENUM_EXACT, .custom=Jsi_Opt_SwitchEnum, .data=en),
    JSI_OPT(CUSTOM, R, enc, .help="", .flags=JSI_OPT_CUST_NOCASE, .custom=Jsi_Opt_SwitchEnum, .data=enc),
    JSI_OPT(CUSTOM, R, b8, .help="", .flags=0, .custom=Jsi_Opt_SwitchBitset, .data=bn8),
    JSI_OPT(CUSTOM, R, b16, .help="", .flags=0, .custom=Jsi_Opt_SwitchBitset, .data=bn16),
    JSI_OPT(CUSTOM, R, b32, .help="", .flags=0, .custom=Jsi_Opt_SwitchBitset, .data=bn32),
    JSI_OPT(CUSTOM, R, b64, .help="", .flags=0, .custom=Jsi_Opt_SwitchBitset, .data=bn64),
    JSI_OPT(CUSTOM, R, sub, .help="", .flags=0, .custom=Jsi_Opt_SwitchSuboption, .data=subSpec),
    JSI_OPT_CARRAY(R, ca, "", 0, caSpec, 4, "int", NULL),
    JSI_OPT_CARRAY(R, ce, "", 0, ceSpec, 3, "Elt", NULL),
    JSI_OPT(CUSTOM, R, nul, .help="", .flags=0, .custom=Jsi_Opt_SwitchNull),
    JSI_OPT(INT, R, ro, .help="", .flags=JSI_OPT_READ_ONLY),
    JSI_OPT(INT, R, io, .help="", .flags=JSI_OPT_INIT_ONLY),
    JSI_OPT(INT, R, lk, .help="", .flags=JSI_OPT_LOCKSAFE),
    JSI_OPT(INT, R, alphabet), JSI_OPT(INT, R, alpha), JSI_OPT(INT, R, alp),
    JSI_OPT_END(R)
};
static Jsi_OptionSpec qspec[] = {
    JSI_OPT(INT, Q, req1, .help="", .flags=JSI_OPT_REQUIRED),
    JSI_OPT(STRKEY, Q, req2, .help="", .flags=JSI_OPT_REQUIRED),
    JSI_OPT(INT, Q, other),
    JSI_OPT(DOUBLE, Q, io, .help="", .flags=JSI_OPT_INIT_ONLY|JSI_OPT_REQUIRED),
    JSI_OPT_END(Q)
};

#define NREC 8
static struct { int used, kind; R r; Q q; } recs[NREC];
#define GUARD 0x5a5a5a5a5a5a5a5aULL

static void put(Jsi_Interp *interp, Jsi_Value *o, const char *k, Jsi_Value *v)
{
    Jsi_IncrRefCount(interp, v);
    Jsi_ValueInsert(interp, o, k, v, 0);
    Jsi_DecrRefCount(interp, v);
}
static void ps(Jsi_Interp *interp, Jsi_Value *o, const char *k, const char *s, int len)
{ put(interp, o, k, s ? Jsi_ValueNewBlob(interp, (unsigned char*)s, len<0?(int)strlen(s):len) : Jsi_ValueNewNull(interp)); }
static void pi(Jsi_Interp *interp, Jsi_Value *o, const char *k, int64_t n)
{ char b[40]; snprintf(b, sizeof b, "%" PRId64, n); ps(interp, o, k, b, -1); }
static void pu(Jsi_Interp *interp, Jsi_Value *o, const char *k, uint64_t n)
{ char b[40]; snprintf(b, sizeof b, "%" PRIu64, n); ps(interp, o, k, b, -1); }
static void pf(Jsi_Interp *interp, Jsi_Value *o, const char *k, double n)
{ char b[40]; snprintf(b, sizeof b, "%.17g", n); ps(interp, o, k, b, -1); }
static void pv(Jsi_Interp *interp, Jsi_Value *o, const char *k, Jsi_Value *v)
{ put(interp, o, k, v ? v : Jsi_ValueNewNull(interp)); }

static void fill(R *r) { r->g0 = r->g9 = GUARD; r->g1 = r->g2 = r->g3 = r->g4 = r->g5 = 0x5a; }

static Jsi_RC optCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this, Jsi_Value **ret, Jsi_Func *funcPtr)
{
    const char *verb = Jsi_ValueArrayIndexToStr(interp, args, 0, NULL);
    Jsi_Value *hv = Jsi_ValueArrayIndex(interp, args, 1), *a2 = Jsi_ValueArrayIndex(interp, args, 2), *a3 = Jsi_ValueArrayIndex(interp, args, 3);
    Jsi_Number hn = 0;
    if (hv) Jsi_ValueGetNumber(interp, hv, &hn);
    int h = (int)hn;
    if (!verb || h<0 || h>=NREC) return Jsi_LogError("opt: bad call");
    int kind = recs[h].kind;
    void *rec = kind ? (void*)&recs[h].q : (void*)&recs[h].r;
    Jsi_OptionSpec *sp = kind ? qspec : spec;
    R *r = &recs[h].r;
    if (!strcmp(verb, "new") || !strcmp(verb, "newq")) {
        if (recs[h].used) return Jsi_LogError("opt: in use");
        memset(&recs[h], 0, sizeof(recs[h]));
        recs[h].used = 1; recs[h].kind = verb[3]=='q';
        fill(r);
        return JSI_OK;
    }
    if (!recs[h].used) return Jsi_LogError("opt: not in use");
    if (!strcmp(verb, "process")) {
        int n = Jsi_OptionsProcess(interp, sp, rec, a2, 0);
        if (n<0) return JSI_ERROR;
        Jsi_ValueMakeNumber(interp, ret, n);
        return JSI_OK;
    }
    if (!strcmp(verb, "clear")) return Jsi_OptionsProcess(interp, sp, rec, NULL, 0)<0 ? JSI_ERROR : JSI_OK;
    if (!strcmp(verb, "conf")) return Jsi_OptionsConf(interp, sp, rec, a2, ret, 0);
    if (!strcmp(verb, "set")) return Jsi_OptionsSet(interp, sp, rec, Jsi_ValueString(interp, a2, NULL), a3, 0);
    if (!strcmp(verb, "get")) return Jsi_OptionsGet(interp, sp, rec, Jsi_ValueString(interp, a2, NULL), ret, 0);
    if (!strcmp(verb, "changed")) {
        Jsi_ValueMakeNumber(interp, ret, Jsi_OptionsChanged(interp, sp, Jsi_ValueString(interp, a2, NULL), NULL));
        return JSI_OK;
    }
    if (!strcmp(verb, "free")) { Jsi_OptionsFree(interp, sp, rec, 0); return JSI_OK; }
    if (!strcmp(verb, "drop")) { Jsi_OptionsFree(interp, sp, rec, 0); recs[h].used = 0; return JSI_OK; }
    if (strcmp(verb, "raw")) return Jsi_LogError("opt: unknown verb");
    Jsi_Value *o = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNew(interp));
    Jsi_IncrRefCount(interp, o);
    if (kind) {
        Q *q = &recs[h].q;
        pi(interp, o, "req1", q->req1); ps(interp, o, "req2", q->req2, -1); pi(interp, o, "other", q->other); pf(interp, o, "io", q->io);
    } else {
        int ok = r->g0==GUARD && r->g9==GUARD && r->g1==0x5a && r->g2==0x5a && r->g3==0x5a && r->g4==0x5a && r->g5==0x5a;
        pi(interp, o, "_guards", ok);
        pi(interp, o, "bool_", *(unsigned char*)&r->bool_);
#define I(f) pi(interp, o, #f, r->f)
#define U(f) pu(interp, o, #f, r->f)
#define F(f) pf(interp, o, #f, (double)r->f)
#define V(f) pv(interp, o, #f, r->f)
        I(i8); I(i16); I(i32); I(i64); U(u8); U(u16); U(u32); U(u64); I(i); U(ui); I(l); U(ul); I(sh); U(us); U(sz); I(ssz); I(ip); U(up);
        F(f); F(d); F(ld); F(num);
        ps(interp, o, "buf", r->buf, -1); ps(interp, o, "key", r->key, -1);
        ps(interp, o, "ds", Jsi_DSValue(&r->ds), Jsi_DSLength(&r->ds));
        V(str); V(val); V(obj); V(arr); V(re); V(fn); V(fn2);
        I(tw); F(td); I(tt); I(en); I(en8); I(enx); I(enc);
        U(b8); U(b16); U(b32); U(b64);
        pi(interp, o, "sub.n", r->sub.n); ps(interp, o, "sub.s", r->sub.s, -1); pv(interp, o, "sub.v", r->sub.v); pf(interp, o, "sub.f", r->sub.f);
        for (int i=0; i<4; i++) { char b[20]; snprintf(b, sizeof b, "ca[%d]", i); pi(interp, o, b, r->ca[i]); }
        for (int i=0; i<3; i++) {
            char b[20];
            snprintf(b, sizeof b, "ce[%d].x", i); pi(interp, o, b, r->ce[i].x);
            snprintf(b, sizeof b, "ce[%d].k", i); ps(interp, o, b, r->ce[i].k, -1);
        }
        I(nul); I(ro); I(io); I(lk); I(alpha); I(alphabet); I(alp);
    }
    Jsi_ValueReplace(interp, ret, o);
    Jsi_DecrRefCount(interp, o);
    return JSI_OK;
}

void vt_opt_reg(Jsi_Interp *interp) { Jsi_CommandCreate(interp, "opt", optCmd, NULL); }
