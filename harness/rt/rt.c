/* Native side of the symbolic runtime: replays a recorded input byte stream against the real build. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
#include <stdbool.h>

static const uint8_t *in_p;
static size_t in_n, in_pos;
static uint64_t emit_h;
static int emit_show;

static void die(const char *m, int code) {
  fflush(stdout);
  dprintf(1, "%s\n", m);
  _exit(code);
}
static uint8_t next(void) {
  if (in_pos >= in_n) die("INVALID input exhausted", 77);
  return in_p[in_pos++];
}
void __sym_bytes(uint8_t *p, size_t n) {
  for (size_t i = 0; i < n; i++) p[i] = next();
}
uint8_t __sym_from(const uint8_t *set, size_t n) {
  uint8_t b = next();
  for (size_t i = 0; i < n; i++)
    if (set[i] == b) return b;
  die("INVALID byte not in set", 77);
  return 0;
}
uint32_t __sym_below(uint32_t n) {
  uint8_t b = next();
  if (b >= n) die("INVALID choice", 77);
  return b;
}
uint32_t __sym_choice(uint32_t n) { return __sym_below(n); }
void __sym_assume(bool c) {
  if (!c) die("INVALID assumption", 77);
}
void __sym_fail(const char *p, size_t n) {
  fflush(stdout);
  dprintf(1, "FAIL %.*s\n", (int)n, p);
  _exit(3);
}
void __sym_emit(const uint8_t *p, size_t n) {
  for (size_t i = 0; i < n; i++) emit_h = (emit_h ^ p[i]) * 0x100000001b3ull;
  emit_h = (emit_h ^ 0xff) * 0x100000001b3ull;
  if (emit_show) dprintf(1, "OUT %.*s\n", (int)n, (const char *)p);
}
void __sym_cover(const char *p, size_t n) { (void)p; (void)n; }
bool __sym_native(void) { return true; }

/* reads hex lines from stdin; runs each in a forked child */
int rt_batch(int (*run)(void), int show) {
  static char line[1 << 16];
  static uint8_t buf[1 << 15];
  emit_show = show;
  setvbuf(stdout, NULL, _IONBF, 0);
  while (fgets(line, sizeof line, stdin)) {
    size_t n = 0;
    for (char *c = line; c[0] && c[1] && c[0] != '\n'; c += 2) {
      unsigned v;
      if (sscanf(c, "%2x", &v) != 1) break;
      buf[n++] = (uint8_t)v;
    }
    pid_t pid = fork();
    if (pid == 0) {
      alarm(20);
      in_p = buf; in_n = n; in_pos = 0;
      emit_h = 0xcbf29ce484222325ull;
      int r = run();
      dprintf(1, "%s %016llx\n", r ? "PANIC" : "DONE", (unsigned long long)emit_h);
      _exit(r ? 4 : 0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFSIGNALED(st)) dprintf(1, "SIGNAL %d\n", WTERMSIG(st));
    dprintf(1, "END\n");
  }
  return 0;
}
