/* Runs histories of allocations and releases against the allocator's C interface.
 * Input: lines "a S N" allocate N cells of slab S; "f S HOW N" release N live cells of S (HOW: 0 newest first, 1 oldest first,
 * 2 every other, else pseudo-random with HOW as seed); "v S" verify contents; "x S" try one more in a full pool. Each history ends with "q". */
#include <mnml/lisp.h>
#include <mnml/slab.h>
#include <mnml/utils.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#define MAXS 3
typedef struct { atom_t cell; uint64_t tag; } live_t;
static struct { slab_t slab; live_t* live; size_t n, cap, allocs, frees, peak, distinct; uint64_t* seen; size_t seencap; } S[MAXS];
static uint64_t tag = 1;
static long line = 0;

static void fail(const char* m) { printf("FAIL line %ld: %s\n", line, m); fflush(stdout); _exit(3); }

static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }

/* set of addresses ever handed out */
static void seen_add(int s, uint64_t a)
{
  if (2 * (S[s].distinct + 1) > S[s].seencap) {
    size_t oc = S[s].seencap, nc = oc ? oc * 2 : 8192;
    uint64_t* o = S[s].seen;
    S[s].seen = calloc(nc, 8);
    S[s].seencap = nc;
    for (size_t i = 0; i < oc; i++)
      if (o[i]) { size_t j = mix(o[i]) & (nc - 1); while (S[s].seen[j]) j = (j + 1) & (nc - 1); S[s].seen[j] = o[i]; }
    free(o);
  }
  size_t j = mix(a) & (S[s].seencap - 1);
  while (S[s].seen[j] && S[s].seen[j] != a) j = (j + 1) & (S[s].seencap - 1);
  if (!S[s].seen[j]) { S[s].seen[j] = a; S[s].distinct++; }
}

static void fill(atom_t c, uint64_t t)
{
  uint64_t m = mix(t);
  c->refs = (uint32_t)m | 1;
  c->type = T_NUMBER;
  c->flags = (uint16_t)(m >> 32);
  c->cache = (atom_t)(m * 3);
  c->pair.car = (atom_t)mix(m);
  c->pair.cdr = (atom_t)mix(m + 7);
}

static int same(atom_t c, uint64_t t)
{
  uint64_t m = mix(t);
  return c->refs == ((uint32_t)m | 1) && c->type == T_NUMBER && c->flags == (uint16_t)(m >> 32) && c->cache == (atom_t)(m * 3) &&
         c->pair.car == (atom_t)mix(m) && c->pair.cdr == (atom_t)mix(m + 7);
}

static void counters(int s)
{
#ifndef VERIF_NO_COUNTERS
  if (S[s].slab->n_alloc != S[s].allocs) fail("the allocation counter is wrong");
  if (S[s].slab->n_free != S[s].frees) fail("the release counter is wrong");
#endif
}

static void open_slab(int s)
{
  if (S[s].slab) return;
  S[s].slab = slab_new();
  if (!S[s].slab) fail("cannot create a slab");
  counters(s);
}

static void alloc(int s, long n)
{
  static const char zero[sizeof(struct atom)];
  for (long i = 0; i < n; i++) {
    atom_t c = slab_allocate(S[s].slab);
    if (!c) fail("no cell");
    if ((uintptr_t)c % 16) fail("a cell is not aligned");
    if (memcmp(c, zero, sizeof zero)) {
      /* either not zeroed, or in use */
      fail("a cell that is handed out is not zeroed");
    }
    S[s].allocs++;
    if (S[s].n == S[s].cap) { S[s].cap = S[s].cap ? 2 * S[s].cap : 4096; S[s].live = realloc(S[s].live, S[s].cap * sizeof(live_t)); }
    S[s].live[S[s].n].cell = c;
    S[s].live[S[s].n++].tag = tag;
    fill(c, tag++);
    if (S[s].n > S[s].peak) S[s].peak = S[s].n;
    seen_add(s, (uint64_t)c);
    counters(s);
  }
  /* released cells are reused before the pool grows: by doubling, from 2048 cells */
  size_t room = 2048;
  while (room < S[s].peak) room *= 2;
  if (S[s].distinct > room) fail("the pool grew while released cells were left");
}

static void verify(int s)
{
  for (size_t i = 0; i < S[s].n; i++)
    if (!same(S[s].live[i].cell, S[s].live[i].tag)) fail("the contents of a live cell changed");
}

static void rel(int s, size_t i)
{
  if (!same(S[s].live[i].cell, S[s].live[i].tag)) fail("the contents of a live cell changed");
  slab_deallocate(S[s].slab, S[s].live[i].cell);
  S[s].frees++;
  counters(s);
}

static void release(int s, long how, long n)
{
  if ((size_t)n > S[s].n) n = S[s].n;
  if (n == 0) return;
  if (how == 0) {
    for (long i = 0; i < n; i++) rel(s, --S[s].n);
  } else if (how == 1) {
    for (long i = 0; i < n; i++) rel(s, i);
    memmove(S[s].live, S[s].live + n, (S[s].n - n) * sizeof(live_t));
    S[s].n -= n;
  } else if (how == 2) {
    size_t w = 0, r, done = 0;
    for (r = 0; r < S[s].n; r++)
      if (r % 2 == 0 && done < (size_t)n) { rel(s, r); done++; } else S[s].live[w++] = S[s].live[r];
    S[s].n = w;
  } else {
    for (long i = 0; i < n; i++) {
      size_t k = mix(how + i) % S[s].n;
      rel(s, k);
      S[s].live[k] = S[s].live[--S[s].n];
    }
  }
}

/* one cell more than a full pool holds: the process ends, nothing is handed out */
static void beyond(int s)
{
  int st = 0;
  pid_t p;
  fflush(stdout);
  p = fork();
  if (p < 0) fail("cannot fork");
  if (p == 0) {
    if (!freopen("/dev/null", "w", stderr)) _exit(1);
    slab_allocate(S[s].slab);
    _exit(7);
  }
  if (waitpid(p, &st, 0) != p || !WIFSIGNALED(st)) fail("a cell is handed out beyond the pool's capacity");
  if (WTERMSIG(st) != SIGABRT) fail("allocating beyond the pool's capacity does not end the process cleanly");
}

int main(void)
{
  char buf[128];
  long hist = 0;
  while (fgets(buf, sizeof buf, stdin)) {
    int s = 0;
    long a = 0, b = 0;
    line++;
    if (buf[0] == 'q') {
      for (s = 0; s < MAXS; s++) {
        if (!S[s].slab) continue;
        verify(s);
        release(s, 1, S[s].n);
        counters(s);
        slab_delete(S[s].slab);
        free(S[s].live);
        free(S[s].seen);
      }
      memset(S, 0, sizeof S);
      hist++;
      continue;
    }
    sscanf(buf + 1, "%d %ld %ld", &s, &a, &b);
    open_slab(s);
    if (buf[0] == 'a') alloc(s, a);
    if (buf[0] == 'f') release(s, a, b);
    if (buf[0] == 'v') verify(s);
    if (buf[0] == 'x') beyond(s);
  }
  printf("OK %ld\n", hist);
  return 0;
}
