/* Runs harnesses natively on concrete inputs: each line of stdin is "HARNESS HEX"; prints "OUTCOME HASH MESSAGE" per line.
   OUTCOME: pass, abort, assume (a precondition fails), violated, crash */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
struct shared { uint64_t hash; char msg[256]; int noabort; int done; };
static struct shared *sh;
static unsigned char *in;
static size_t in_len, in_pos;
static int verbose;
void sym_bytes(unsigned char *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = in_pos < in_len ? in[in_pos++] : 0; }
void sym_assume(unsigned char c) { if (!c) _exit(3); }
void sym_prop(unsigned char c, const char *m, size_t n) { if (!c) { if (n > 255) n = 255; memcpy(sh->msg, m, n); sh->msg[n] = 0; _exit(7); } }
void sym_reach(const char *m, size_t n) { if (verbose) fprintf(stderr, "  reached: %.*s\n", (int)n, m); }
void sym_observe(const unsigned char *p, size_t n) { for (size_t i = 0; i < n; i++) sh->hash = (sh->hash ^ p[i]) * 0x100000001b3ull; }
unsigned long sym_pin(unsigned long x) { return x; }
void sym_noabort(unsigned char on) { sh->noabort = on; }
void sym_field(const unsigned char *p) {
    static const unsigned long q[4] = { 4332616871279656263ul, 10917124144477883021ul, 13281191951274694749ul, 3486998266802970665ul };
    unsigned long x[4]; memcpy(x, p, 32);
    for (int i = 3; i >= 0; i--) { if (x[i] < q[i]) return; if (x[i] > q[i]) break; }
    _exit(3);
}
void sym_generic(unsigned char on) { (void)on; }
int main(int argc, char **argv) {
    if (argc < 2) return 2;
    verbose = argc > 2 && !strcmp(argv[2], "-v");
    void *h = dlopen(argv[1], RTLD_NOW);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
    sh = mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    struct rlimit rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    char *line = 0; size_t cap = 0;
    while (getline(&line, &cap, stdin) > 0) {
        char *name = strtok(line, " \n"), *hex = strtok(0, " \n");
        if (!name) continue;
        in_len = hex ? strlen(hex) / 2 : 0; in_pos = 0;
        in = malloc(in_len + 1);
        for (size_t i = 0; i < in_len; i++) { unsigned x; sscanf(hex + 2 * i, "%2x", &x); in[i] = x; }
        memset(sh, 0, sizeof *sh); sh->hash = 0xcbf29ce484222325ull;
        fflush(stdout);
        pid_t p = fork();
        if (!p) {
            void (*f)(void) = (void (*)(void))dlsym(h, name);
            if (!f) _exit(9);
            if (!verbose) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); }
            alarm(60);
            f();
            sh->done = 1;
            _exit(0);
        }
        int st; waitpid(p, &st, 0);
        const char *o = "crash";
        if (WIFEXITED(st)) o = WEXITSTATUS(st) == 0 && sh->done ? "pass" : WEXITSTATUS(st) == 3 ? "assume" : WEXITSTATUS(st) == 7 ? "violated" : WEXITSTATUS(st) == 9 ? "missing" : "crash";
        else if (WTERMSIG(st) == SIGABRT) { o = sh->noabort ? "violated" : "abort"; if (sh->noabort) strcpy(sh->msg, "the operation completes without aborting"); }
        printf("%s %016llx %s\n", o, (unsigned long long)sh->hash, sh->msg);
        free(in);
    }
    return 0;
}
