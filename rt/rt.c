/* Native runtime for the harness binaries: replays symx traces.
 *
 * usage: harness <entry> <trace-file>
 *
 * The trace file holds a sequence of traces.  A trace starts with a line
 * "T [arg...]", followed by lines "i <name> <width> <hex>" giving the inputs in
 * the order the harness asks for them.  Other lines are ignored.  Each trace
 * runs in a child process of its own (with a CPU/wall limit); the parent prints
 *   B <index>
 *   o <tag> <value>      (harness outputs, in order)
 *   r <label>            (reachability marks, in order)
 *   C <message>          (a failed check)
 *   E <kind> <code>      (exit code / signal / timeout)
 */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <setjmp.h>
#include <sys/wait.h>
#include <sys/resource.h>

struct inp { char name[64]; int width; uint64_t val; };
static struct inp *g_in; static size_t g_n, g_cap, g_pos;
static uint64_t g_args[16]; static int g_nargs;

static uint64_t pop(const char *name, size_t len, int width) {
  if (g_pos >= g_n) {
    /* inputs the symbolic path never created: any value will do */
    printf("D exhausted %.*s\n", (int)len, name); fflush(stdout); _exit(5);
  }
  struct inp *i = &g_in[g_pos++];
  if (i->width != width) {
    printf("D width %.*s want %d have %s %d\n", (int)len, name, width, i->name, i->width);
    fflush(stdout); _exit(5);
  }
  return i->val;
}
uint8_t  symx_u8 (const char *p, size_t n) { return (uint8_t) pop(p, n, 8); }
uint16_t symx_u16(const char *p, size_t n) { return (uint16_t)pop(p, n, 16); }
uint32_t symx_u32(const char *p, size_t n) { return (uint32_t)pop(p, n, 32); }
uint64_t symx_u64(const char *p, size_t n) { return pop(p, n, 64); }
void symx_make(uint8_t *b, size_t len, const char *p, size_t n) {
  for (size_t k = 0; k < len; k++) b[k] = (uint8_t)pop(p, n, 8);
}
void symx_assume(_Bool c) { if (!c) { printf("A\n"); fflush(stdout); _exit(3); } }
void symx_check(_Bool c, const char *m, size_t n) {
  if (!c) { printf("C %.*s\n", (int)n, m); fflush(stdout); _exit(1); }
}
void symx_reach(const char *m, size_t n) { printf("r %.*s\n", (int)n, m); fflush(stdout); }
void symx_out(uint64_t tag, uint64_t v) {
  printf("o %llx %llx\n", (unsigned long long)tag, (unsigned long long)v); fflush(stdout);
}
uint64_t symx_concretize(uint64_t v) { return v; }
_Bool symx_is_symbolic(uint64_t v) { (void)v; return 0; }
void symx_debug(uint64_t v) { fprintf(stderr, "debug %llx\n", (unsigned long long)v); }
void symx_stop(void) { printf("E exit 0\n"); fflush(stdout); _exit(0); }

/* one level is enough: the harnesses call the program in sequence */
static jmp_buf g_jmp; static int g_armed;
int symx_catch(void (*f)(void *), void *a) {
  if (setjmp(g_jmp) == 0) { g_armed = 1; f(a); g_armed = 0; return 0; }
  return 1;
}
void symx_throw(void) {
  if (g_armed) { g_armed = 0; longjmp(g_jmp, 1); }
  _exit(7);
}
/* the arguments that std::env::args() gives */
extern void (*__init_array_start[])(int, char **, char **);
extern void (*__init_array_end[])(int, char **, char **);
void symx_args(int argc, char **argv, char **envp) {
  for (size_t i = 0; &__init_array_start[i] < __init_array_end; i++) __init_array_start[i](argc, argv, envp);
}

/* provided by the harness */
extern int harness_dispatch(const char *name, const uint64_t *args, size_t nargs);

static void add(const char *name, int width, uint64_t v) {
  if (g_n == g_cap) { g_cap = g_cap ? g_cap * 2 : 256; g_in = realloc(g_in, g_cap * sizeof *g_in); }
  struct inp *i = &g_in[g_n++];
  snprintf(i->name, sizeof i->name, "%s", name); i->width = width; i->val = v;
}

extern pid_t _Fork(void);
static void run_one(const char *entry, size_t idx) {
  printf("B %zu\n", idx); fflush(stdout);
  pid_t pid = _Fork();
  if (pid == 0) {
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    struct rlimit as = {4ull << 30, 4ull << 30}; setrlimit(RLIMIT_AS, &as);
    alarm(20);
    g_pos = 0;
    int r = harness_dispatch(entry, g_args, g_nargs);
    if (r != 0) { printf("D noentry\n"); fflush(stdout); _exit(6); }
    fflush(stdout);
    _exit(0);
  }
  int st = 0; waitpid(pid, &st, 0);
  if (WIFSIGNALED(st)) printf("E signal %d\n", WTERMSIG(st));
  else printf("E exit %d\n", WEXITSTATUS(st));
  fflush(stdout);
}

int rt_main(int argc, char **argv) {
  if (argc < 3) { fprintf(stderr, "usage: %s <entry> <traces>\n", argv[0]); return 2; }
  FILE *f = fopen(argv[2], "r");
  if (!f) { perror(argv[2]); return 2; }
  char line[4096]; size_t idx = 0; int have = 0;
  while (fgets(line, sizeof line, f)) {
    if (line[0] == 'T') {
      if (have) run_one(argv[1], idx++);
      have = 1; g_n = 0; g_nargs = 0;
      char *p = line + 1;
      for (;;) {
        char *e; unsigned long long v = strtoull(p, &e, 0);
        if (e == p) break;
        if (g_nargs < 16) g_args[g_nargs++] = v;
        p = e;
      }
    } else if (line[0] == 'i') {
      char name[256]; int w; unsigned long long v;
      if (sscanf(line + 1, "%255s %d %llx", name, &w, &v) == 3) add(name, w, v);
    }
  }
  if (have) run_one(argv[1], idx++);
  return 0;
}
