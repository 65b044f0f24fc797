/* Fork server that runs jsi scripts against /repo's sources, one fresh child per case.
 * Request on stdin : "<flags> <len>\n" + len bytes of script.
 * Response on fd 1 : "<status> <outlen> <errlen> <rc>\n" + out + err.
 *   status = wait() status of the child, rc = Jsi_RC of the top-level eval (from a shared page).
 * Only the public API in jsi.h is used.
 */
#define _GNU_SOURCE
#include "jsi.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#ifdef HAVE_ASAN
size_t __sanitizer_get_current_allocated_bytes(void);
static long live_bytes(void) { return (long)__sanitizer_get_current_allocated_bytes(); }
#else
#include <malloc.h>
static long live_bytes(void) { struct mallinfo2 m = mallinfo2(); return (long)(m.uordblks+m.hblkhd); }
#endif

extern int vt_api_main(FILE *in, FILE *out);   /* apiops.c */
extern void vt_opt_reg(Jsi_Interp *interp);      /* optcmd.c */

static void dump_str(FILE *f, const char *s, int len)
{
    fputc('"', f);
    for (int i=0; i<len; i++) {
        unsigned char c = (unsigned char)s[i];
        if (c<0x20 || c>0x7e || c=='"' || c=='\\') fprintf(f, "\\x%02x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

static void dump_num(FILE *f, double d)
{
    if (isnan(d)) fputs("#nan", f);
    else if (isinf(d)) fputs(d>0?"#inf":"#-inf", f);
    else if (d==0 && signbit(d)) fputs("#-0", f);
    else fprintf(f, "#%.17g", d);
}

static void dump_val(Jsi_Interp *interp, FILE *f, Jsi_Value *v, int depth)
{
    if (!v) { fputc('u', f); return; }
    if (depth>60) { fputs("DEEP", f); return; }
    switch (Jsi_ValueTypeGet(v)) {
        case JSI_VT_UNDEF: fputc('u', f); return;
        case JSI_VT_NULL: fputc('n', f); return;
        case JSI_VT_BOOL: fputc(Jsi_ValueIsTrue(interp, v)?'t':'f', f); return;
        case JSI_VT_NUMBER: { Jsi_Number n = 0; Jsi_ValueGetNumber(interp, v, &n); dump_num(f, n); return; }
        case JSI_VT_STRING: { int l = 0; const char *s = Jsi_ValueGetStringLen(interp, v, &l); dump_str(f, s?s:"", s?l:0); return; }
        case JSI_VT_OBJECT: {
            if (Jsi_ValueIsArray(interp, v)) {
                int n = Jsi_ValueGetLength(interp, v);
                fputc('[', f);
                for (int i=0; i<n; i++) {
                    dump_val(interp, f, Jsi_ValueArrayIndex(interp, v, i), depth+1);
                    fputc(',', f);
                }
                fputc(']', f);
                return;
            }
            if (Jsi_ValueIsObjType(interp, v, JSI_OT_NUMBER)) { Jsi_Number n = 0; Jsi_ValueGetNumber(interp, v, &n); fputs("(N", f); dump_num(f, n); fputc(')', f); return; }
            if (Jsi_ValueIsObjType(interp, v, JSI_OT_STRING)) { int l = 0; const char *s = Jsi_ValueGetStringLen(interp, v, &l); dump_str(f, s?s:"", s?l:0); return; } /* byte strings are string objects */
            if (Jsi_ValueIsObjType(interp, v, JSI_OT_BOOL)) { bool b = 0; Jsi_GetBoolFromValue(interp, v, &b); fprintf(f, "(B%d)", (int)b); return; }
            if (Jsi_ValueIsFunction(interp, v)) { fputc('F', f); return; }
            if (Jsi_ValueIsObjType(interp, v, JSI_OT_REGEXP)) { fputc('R', f); return; }
            if (Jsi_ValueIsObjType(interp, v, JSI_OT_USEROBJ)) { fputc('O', f); return; }
            Jsi_Value *kv = Jsi_ValueNew1(interp);
            if (Jsi_ValueGetKeys(interp, v, kv) != JSI_OK) { fputs("{?}", f); Jsi_DecrRefCount(interp, kv); return; }
            int n = Jsi_ValueGetLength(interp, kv);
            fputc('{', f);
            for (int i=0; i<n; i++) {
                int l = 0;
                const char *k = Jsi_ValueArrayIndexToStr(interp, kv, i, &l);
                if (!k) continue;
                dump_str(f, k, l);
                fputc(':', f);
                dump_val(interp, f, Jsi_ValueObjLookup(interp, v, k, 0), depth+1);
                fputc(',', f);
            }
            fputc('}', f);
            Jsi_DecrRefCount(interp, kv);
            return;
        }
        default: fputc('?', f);
    }
}

/* emit(v,...): one line per argument, independent of the interpreter's own formatting. */
static Jsi_RC emitCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this, Jsi_Value **ret, Jsi_Func *funcPtr)
{
    int n = Jsi_ValueGetLength(interp, args);
    for (int i=0; i<n; i++) {
        dump_val(interp, stdout, Jsi_ValueArrayIndex(interp, args, i), 0);
        fputc('\n', stdout);
    }
    if (!n) fputs("u\n", stdout);
    return JSI_OK;
}

/* raw(s): string bytes hex-decoded from a hex string: builds any byte string in the script. */
static Jsi_RC rawCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this, Jsi_Value **ret, Jsi_Func *funcPtr)
{
    int l = 0;
    const char *s = Jsi_ValueArrayIndexToStr(interp, args, 0, &l);
    if (!s) return JSI_ERROR;
    unsigned char *b = (unsigned char*)Jsi_Malloc(l/2+1);
    for (int i=0; i+1<l; i+=2) {
        char t[3] = {s[i], s[i+1], 0};
        b[i/2] = (unsigned char)strtoul(t, NULL, 16);
    }
    b[l/2] = 0;
    Jsi_ValueMakeBlob(interp, ret, b, l/2);
    return JSI_OK;
}

extern int __lsan_do_recoverable_leak_check(void) __attribute__((weak));
/* liveBytes(): bytes currently allocated in this process. */
static Jsi_RC liveCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this, Jsi_Value **ret, Jsi_Func *funcPtr)
{
    Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)live_bytes());
    return JSI_OK;
}

/* A virtual clock for timers: gettimeofday, usleep and sleep of the code under test use it once it is set.
 * vclock(): milliseconds now; vclock(ms): set; vclock(ms, step): each look at the clock takes step microseconds. */
static int vc_on;
static long long vc_us, vc_step, vc_slept;
#undef gettimeofday
int __real_gettimeofday(struct timeval *tv, void *tz);
int __real_usleep(useconds_t us);
unsigned __real_sleep(unsigned s);
int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
    if (!vc_on) return __real_gettimeofday(tv, tz);
    tv->tv_sec = vc_us/1000000; tv->tv_usec = vc_us%1000000;
    vc_us += vc_step;
    return 0;
}
int __wrap_usleep(useconds_t us)
{
    if (!vc_on) return __real_usleep(us);
    us = (us+5)/10*10;  /* not the business of timers */
    vc_us += us; vc_slept += us;
    return 0;
}
unsigned __wrap_sleep(unsigned s)
{
    if (!vc_on) return __real_sleep(s);
    vc_us += s*1000000LL; vc_slept += s*1000000LL;
    return 0;
}
static Jsi_RC vclockCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this, Jsi_Value **ret, Jsi_Func *funcPtr)
{
    Jsi_Number n = 0;
    Jsi_Value *a = Jsi_ValueArrayIndex(interp, args, 0), *b = Jsi_ValueArrayIndex(interp, args, 1);
    if (a && Jsi_ValueGetNumber(interp, a, &n) == JSI_OK) { vc_on = 1; vc_us = (long long)(n*1000+0.5); }
    if (b && Jsi_ValueGetNumber(interp, b, &n) == JSI_OK) vc_step = (long long)n;
    Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)(vc_us/1000));
    return JSI_OK;
}

static void reg(Jsi_Interp *interp)
{
    vt_opt_reg(interp);
    Jsi_CommandCreate(interp, "vclock", vclockCmd, NULL);
    Jsi_CommandCreate(interp, "emit", emitCmd, NULL);
    Jsi_CommandCreate(interp, "rawstr", rawCmd, NULL);
    Jsi_CommandCreate(interp, "liveBytes", liveCmd, NULL);
}

static int readn(int fd, char *b, size_t n)
{
    size_t got = 0;
    while (got<n) {
        ssize_t r = read(fd, b+got, n-got);
        if (r<0 && errno==EINTR) continue;
        if (r<=0) return -1;
        got += r;
    }
    return 0;
}

static void writen(int fd, const char *b, size_t n)
{
    while (n) {
        ssize_t r = write(fd, b, n);
        if (r<0 && errno==EINTR) continue;
        if (r<=0) _exit(3);
        b += r; n -= r;
    }
}

struct shared { int rc; int phase; };

static Jsi_InterpOpts mo;
static char *gArgv[] = {(char*)"jsrun", NULL};

static Jsi_Interp *mkinterp(int argc, char **argv)
{
    static Jsi_InterpOpts opts;
    memset(&opts, 0, sizeof(opts));
    opts.argc = argc; opts.argv = argv;
    opts.no_interactive = 1;
    opts.no_exit = 1;
    Jsi_Interp *interp = Jsi_InterpNew(&opts);
    return interp;
}

static void child(Jsi_Interp *interp, int flags, char *script, int len, struct shared *sh)
{
    struct rlimit rl = {20, 25};
    setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = rl.rlim_max = 512u<<20; setrlimit(RLIMIT_FSIZE, &rl);
    if (flags & 4) {              /* API operation list */
        FILE *in = fmemopen(script, len?len:1, "r");
        sh->phase = 1;
        sh->rc = vt_api_main(in, stdout);
        fflush(stdout);
        sh->phase = 3;
        _exit(0);
    }
    if (flags & 2) {              /* leak oracle: same script in several fresh interps */
        long base[6];
        for (int i=0; i<5; i++) {
            base[i] = live_bytes();
            Jsi_Interp *in2 = mkinterp(1, gArgv);
            reg(in2);
            sh->rc = Jsi_EvalString(in2, script, JSI_EVAL_ISMAIN|JSI_EVAL_NOSKIPBANG);
            if (!Jsi_InterpGone(in2)) Jsi_InterpDelete(in2);
        }
        base[5] = live_bytes();
        fflush(stdout);
        if (getenv("VT_LSAN") && __lsan_do_recoverable_leak_check) __lsan_do_recoverable_leak_check();
        printf("\nLEAK %ld %ld %ld\n", base[3]-base[2], base[4]-base[3], base[5]-base[4]);
        fflush(stdout);
        sh->phase = 3;
        _exit(0);
    }
    sh->phase = 1;
    Jsi_RC rc = Jsi_EvalString(interp, script, JSI_EVAL_ISMAIN|JSI_EVAL_NOSKIPBANG);
    sh->rc = rc;
    sh->phase = 2;
    if (rc == JSI_EXIT) {         /* exit() was called: the interpreter is gone */
        fflush(stdout); fflush(stderr);
        sh->phase = 3;
        _exit(0);
    }
    if (rc != JSI_OK) {
        const char *fn = NULL; int line = 0;
        const char *e = Jsi_InterpLastError(interp, &fn, &line);
        fprintf(stderr, "\nEVALRC %d: %s\n", rc, e?e:"");
    }
    fflush(stdout); fflush(stderr);
    if (flags & 1) {              /* also tear the interpreter down under the sanitizer */
        Jsi_InterpDelete(interp);
        fflush(stdout);
    }
    sh->phase = 3;
    _exit(0);
}

int main(int argc, char **argv)
{
    int in = dup(0), out = dup(1);
    fcntl(in, F_SETFD, FD_CLOEXEC); fcntl(out, F_SETFD, FD_CLOEXEC);
    int nul = open("/dev/null", O_RDWR);
    dup2(nul, 0);
    int fo = memfd_create("out", MFD_CLOEXEC), fe = memfd_create("err", MFD_CLOEXEC);
    dup2(fo, 1);
    struct shared *sh = mmap(NULL, 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    setvbuf(stdout, NULL, _IOFBF, 1<<16);
    gArgv[0] = argv[0];
    Jsi_Interp *interp = mkinterp(1, gArgv);
    if (!interp) return 2;
    mo.argc = 1; mo.argv = gArgv; mo.no_interactive = 1; mo.no_exit = 1; mo.interp = interp;
    if (argc<2 || strcmp(argv[1], "nozip"))
        Jsi_Main(&mo);            /* mounts the zip appended to this executable, like jsish */
    reg(interp);
    fflush(stdout); fflush(stderr);
    signal(SIGPIPE, SIG_DFL);
    for (;;) {
        char hdr[64]; int i = 0;
        for (;;) {
            if (readn(in, hdr+i, 1)) return 0;
            if (hdr[i] == '\n' || i>60) break;
            i++;
        }
        hdr[i] = 0;
        int flags = 0, tmo = 60; long len = 0;
        if (sscanf(hdr, "%d %ld %d", &flags, &len, &tmo) < 2) return 4;
        char *buf = malloc(len+1);
        if (readn(in, buf, len)) return 5;
        buf[len] = 0;
        ftruncate(fo, 0); ftruncate(fe, 0);
        lseek(fo, 0, SEEK_SET); lseek(fe, 0, SEEK_SET);
        sh->rc = -1; sh->phase = 0;
        pid_t pid = fork();
        if (pid == 0) {
            setpgid(0, 0);
            dup2(fe, 2);
            close(in); close(out);
            child(interp, flags, buf, (int)len, sh);
        }
        int st = 0; long waited = 0; int killed = 0;
        /* CPU time is limited in the child; wall time only guards against sleeping forever. */
        for (;;) {
            pid_t w = waitpid(pid, &st, killed ? 0 : WNOHANG);
            if (w == pid) break;
            if (w < 0 && errno != EINTR) break;
            useconds_t d = waited < 5000 ? 100 : waited < 100000 ? 500 : 5000;
            usleep(d); waited += d;
            if (waited > (long)tmo*1000000L && !killed) { kill(-pid, SIGKILL); kill(pid, SIGKILL); killed = 1; }
        }
        kill(-pid, SIGKILL);      /* anything the case left behind in its own group */
        free(buf);
        off_t no = lseek(fo, 0, SEEK_END), ne = lseek(fe, 0, SEEK_END);
        if (no > (64<<20)) no = 64<<20;
        if (ne > (1<<20)) ne = 1<<20;
        char *ob = malloc(no+ne+1);
        pread(fo, ob, no, 0); pread(fe, ob+no, ne, 0);
        int hl = snprintf(hdr, sizeof(hdr), "%d %ld %ld %d %d %d\n", st, (long)no, (long)ne, sh->rc, sh->phase, killed);
        writen(out, hdr, hl);
        writen(out, ob, no+ne);
        free(ob);
    }
}
