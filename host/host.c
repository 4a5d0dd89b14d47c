/* Native replay host: loads the harness shared object (the real knuffel code, compiled by
   the same rustc run that produced the LLVM IR) and runs one harness entry on concrete input
   bytes.  usage: host LIB.so ; stdin lines: "entry param arg-hex input-hex" ("-" = empty) ; one output line per case:
   "outcome obs-hash nobs reach message"  (outcome: ok|fail|assume|panic|signal|timeout|short) */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

static struct shared { uint64_t h, n, reach; int outcome; char msg[512]; } *S;
static unsigned char in[4096];
static unsigned char arg[65536];
static size_t inlen, inpos, arglen;
enum { O_RUN, O_OK, O_FAIL, O_ASSUME, O_SHORT };

void ksym_symbolic(unsigned char *p, size_t n) {
    if (inpos + n > inlen) { S->outcome = O_SHORT; _exit(0); }
    memcpy(p, in + inpos, n); inpos += n;
}
uint64_t ksym_arg(unsigned char *p, size_t n) { if (n > arglen) n = arglen; memcpy(p, arg, n); return n; }
static size_t unhex(const char *h, unsigned char *o) {
    size_t n = strcmp(h, "-") ? strlen(h) / 2 : 0;
    for (size_t i = 0; i < n; i++) { unsigned b; sscanf(h + 2 * i, "%2x", &b); o[i] = b; }
    return n;
}
void ksym_assume(_Bool c) { if (!c) { S->outcome = O_ASSUME; _exit(0); } }
void ksym_fail(const char *p, size_t n) {
    if (n > sizeof S->msg - 1) n = sizeof S->msg - 1;
    memcpy(S->msg, p, n); S->msg[n] = 0; S->outcome = O_FAIL; _exit(0);
}
void ksym_reach(uint64_t k) { S->reach |= 1ull << (k & 63); }
void ksym_observe(uint64_t v) {
    for (int i = 0; i < 8; i++) { S->h ^= (v >> (8 * i)) & 255; S->h *= 0x100000001b3ull; }
    S->n++;
}
uint64_t ksym_concretize(uint64_t v) { return v; }
uint64_t ksym_is_symbolic(void) { return 0; }

int main(int argc, char **argv) {
    void *lib = dlopen(argv[1], RTLD_NOW | RTLD_LOCAL);
    if (!lib) { fprintf(stderr, "%s\n", dlerror()); return 2; }
    S = mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    static char line[262144];
    while (fgets(line, sizeof line, stdin)) {
        static char entry[256], ahex[131000], hex[8200]; unsigned long long param;
        if (sscanf(line, "%255s %llu %130999s %8199s", entry, &param, ahex, hex) < 4) continue;
        arglen = unhex(ahex, arg); inlen = unhex(hex, in); inpos = 0;
        void (*f)(uint64_t) = (void (*)(uint64_t))dlsym(lib, entry);
        memset(S, 0, sizeof *S); S->h = 0xcbf29ce484222325ull;
        if (!f) { printf("noentry 0 0 0 -\n"); fflush(stdout); continue; }
        pid_t p = fork();
        if (p == 0) {
            struct rlimit r = { 0, 0 }; setrlimit(RLIMIT_CORE, &r);
            if (!getenv("HOST_STDERR")) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); }
            alarm(20);
            f(param);
            if (S->outcome == O_RUN) S->outcome = O_OK;
            _exit(0);
        }
        int st; waitpid(p, &st, 0);
        const char *o = "short";
        if (WIFSIGNALED(st)) o = WTERMSIG(st) == SIGABRT ? "panic" : WTERMSIG(st) == SIGALRM ? "timeout" : "signal";
        else if (S->outcome == O_OK) o = "ok"; else if (S->outcome == O_FAIL) o = "fail"; else if (S->outcome == O_ASSUME) o = "assume";
        for (char *c = S->msg; *c; c++) if (*c == '\n') *c = ' ';
        printf("%s %016llx %llu %llu %s\n", o, (unsigned long long)S->h, (unsigned long long)S->n, (unsigned long long)S->reach, S->msg[0] ? S->msg : "-");
        fflush(stdout);
    }
    return 0;
}
