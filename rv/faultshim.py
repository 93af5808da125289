"""Fault injection at the system-call boundary: an LD_PRELOAD library that counts the file-changing calls below one
directory and, at the n-th of them, kills the process (before or in the middle of the call) or lets calls fail."""
import os, subprocess

SRC = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
static char prefix[PATH_MAX];
static size_t plen;
static int armed, mode, logfd = -1;
static long target, seen;
enum { COUNT = 0, KILL = 1, TORN = 2, NOSPACE = 3, ONCE = 4 };
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)
static ssize_t rwrite(int fd, const void *b, size_t n) { REAL(ssize_t, "write", int, const void *, size_t); return real(fd, b, n); }
void rv_arm(const char *p, long n, int m, int lfd) { strncpy(prefix, p, sizeof prefix - 1); plen = strlen(prefix); target = n; mode = m; logfd = lfd; seen = 0; armed = 1; }
void rv_disarm(void) { armed = 0; }
static int under(const char *p) { return armed && p && strncmp(p, prefix, plen) == 0; }
static int fdunder(int fd, char *out) {
    if (!armed) return 0;
    char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, out, PATH_MAX - 1);
    if (n <= 0) return 0;
    out[n] = 0;
    return under(out);
}
/* returns 0: carry on, 1: do half and die, 2: fail.  what: 'w' write-like, 'o' creating open, 'r' rename, 'u' unlink, 't' truncate */
static int event(char what, const char *path) {
    seen++;
    if (logfd >= 0) { char b[PATH_MAX + 64]; int k = snprintf(b, sizeof b, "%c %s\n", what, path + plen); rwrite(logfd, b, k); }
    if (mode == COUNT || target <= 0) return 0;
    if (mode == KILL && seen == target) { raise(SIGKILL); }
    if (mode == TORN && seen == target) { if (what == 'w') return 1; raise(SIGKILL); }
    if (mode == NOSPACE && seen >= target && (what == 'w' || what == 'o' || what == 't')) { errno = ENOSPC; return 2; }
    if (mode == ONCE && seen == target) { errno = EIO; return 2; }
    return 0;
}
ssize_t write(int fd, const void *b, size_t n) {
    char p[PATH_MAX];
    if (fd != logfd && fdunder(fd, p)) { int e = event('w', p); if (e == 2) return -1; if (e == 1) { rwrite(fd, b, n / 2); raise(SIGKILL); } }
    return rwrite(fd, b, n);
}
#define PW(name, T) ssize_t name(int fd, const void *b, size_t n, T off) { REAL(ssize_t, #name, int, const void *, size_t, T); char p[PATH_MAX]; \
    if (fdunder(fd, p)) { int e = event('w', p); if (e == 2) return -1; if (e == 1) { real(fd, b, n / 2, off); raise(SIGKILL); } } return real(fd, b, n, off); }
PW(pwrite, off_t)
PW(pwrite64, off64_t)
ssize_t writev(int fd, const struct iovec *v, int c) { REAL(ssize_t, "writev", int, const struct iovec *, int); char p[PATH_MAX];
    if (fdunder(fd, p)) { int e = event('w', p); if (e == 2) return -1; if (e == 1) raise(SIGKILL); } return real(fd, v, c); }
size_t fwrite(const void *b, size_t s, size_t n, FILE *f) { REAL(size_t, "fwrite", const void *, size_t, size_t, FILE *); char p[PATH_MAX];
    if (armed && f && fileno(f) != logfd && fdunder(fileno(f), p)) { int e = event('w', p); if (e == 2) return 0; if (e == 1) { real(b, s, n / 2, f); fflush(f); raise(SIGKILL); } } return real(b, s, n, f); }
#define OP(name) int name(const char *path, int flags, ...) { REAL(int, #name, const char *, int, ...); va_list a; va_start(a, flags); int m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a); \
    if ((flags & (O_CREAT | O_TRUNC)) && under(path)) { int e = event('o', path); if (e == 2) return -1; if (e == 1) raise(SIGKILL); } return real(path, flags, m); }
OP(open)
OP(open64)
#define OPA(name) int name(int d, const char *path, int flags, ...) { REAL(int, #name, int, const char *, int, ...); va_list a; va_start(a, flags); int m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a); \
    if ((flags & (O_CREAT | O_TRUNC)) && under(path)) { int e = event('o', path); if (e == 2) return -1; if (e == 1) raise(SIGKILL); } return real(d, path, flags, m); }
OPA(openat)
OPA(openat64)
#define FO(name) FILE *name(const char *path, const char *m) { REAL(FILE *, #name, const char *, const char *); \
    if ((strchr(m, 'w') || strchr(m, 'a')) && under(path)) { int e = event('o', path); if (e == 2) return NULL; if (e == 1) raise(SIGKILL); } return real(path, m); }
FO(fopen)
FO(fopen64)
int rename(const char *a, const char *b) { REAL(int, "rename", const char *, const char *);
    if (under(a) || under(b)) { int e = event('r', b); if (e == 2) return -1; if (e == 1) raise(SIGKILL); } return real(a, b); }
int renameat(int x, const char *a, int y, const char *b) { REAL(int, "renameat", int, const char *, int, const char *);
    if (under(a) || under(b)) { int e = event('r', b); if (e == 2) return -1; if (e == 1) raise(SIGKILL); } return real(x, a, y, b); }
int link(const char *a, const char *b) { REAL(int, "link", const char *, const char *);
    if (under(b)) { int e = event('r', b); if (e == 2) return -1; if (e == 1) raise(SIGKILL); } return real(a, b); }
int unlink(const char *a) { REAL(int, "unlink", const char *);
    if (under(a)) { int e = event('u', a); if (e == 2) return -1; if (e == 1) raise(SIGKILL); } return real(a); }
int unlinkat(int d, const char *a, int f) { REAL(int, "unlinkat", int, const char *, int);
    if (under(a)) { int e = event('u', a); if (e == 2) return -1; if (e == 1) raise(SIGKILL); } return real(d, a, f); }
#define FT(name, T) int name(int fd, T n) { REAL(int, #name, int, T); char p[PATH_MAX]; if (fdunder(fd, p)) { int e = event('t', p); if (e == 2) return -1; if (e == 1) raise(SIGKILL); } return real(fd, n); }
FT(ftruncate, off_t)
FT(ftruncate64, off64_t)
'''
MODES = dict(count=0, kill=1, torn=2, nospace=3, once=4)


def build(d):
    src, so = os.path.join(d, 'shim.c'), os.path.join(d, 'shim.so')
    with open(src, 'w') as f:
        f.write(SRC)
    p = subprocess.run(['gcc', '-O1', '-w', '-shared', '-fPIC', '-o', so, src, '-ldl'], capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError(p.stderr[-500:])
    return so


# ---- host process: runs commands in forked children with the library armed
def host():
    import ctypes, json, sys, tempfile
    shim = ctypes.CDLL(None)
    shim.rv_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int, ctypes.c_int]
    out = os.fdopen(os.dup(1), 'w')
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)

    def command(prog, opts):
        if prog == 'rrdesi':
            from redrock.external.desi import rrdesi
            rrdesi(opts)
        else:
            from redrock.external.boss import rrboss
            rrboss(opts)
    for line in sys.stdin:
        j = json.loads(line)
        if j.get('warm'):
            try:
                command(j['prog'], j['opts'])
                rep = dict(status='ok')
            except BaseException as e:
                rep = dict(status='raised', err=repr(e)[:300])
        else:
            log = tempfile.TemporaryFile()
            err = tempfile.TemporaryFile()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    shim.rv_arm(j['dir'].encode(), j['n'], MODES[j['mode']], log.fileno())
                    command(j['prog'], j['opts'])
                    sys.stdout.flush()
                except BaseException as e:
                    code = 0 if isinstance(e, SystemExit) and e.code in (0, None) else 3
                    os.write(err.fileno(), repr(e)[:300].encode())
                # interpreter exit would close what is still open
                import gc
                gc.collect()
                os._exit(code)
            _, st = os.waitpid(pid, 0)
            log.seek(0)
            err.seek(0)
            rep = dict(status='killed' if os.WIFSIGNALED(st) and os.WTERMSIG(st) == 9 else 'ok' if st == 0 else 'raised' if os.WIFEXITED(st) else f'signal {st}',
                       events=log.read().decode().splitlines(), err=err.read().decode())
        out.write(json.dumps(rep) + '\n')
        out.flush()


class Host:
    def __init__(self, so):
        import sys
        self.p = subprocess.Popen([sys.executable, '-m', 'rv.faultshim'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=dict(os.environ, LD_PRELOAD=so))

    def run(self, **job):
        import json
        self.p.stdin.write(json.dumps(job) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError('host process died')
        return json.loads(line)

    def close(self):
        self.p.stdin.close()
        self.p.wait()


if __name__ == '__main__':
    host()
