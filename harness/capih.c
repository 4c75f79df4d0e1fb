/* A program that embeds the library: several interpreters, eight registers each, driven by lines of commands.
 * Every register owns one reference. Texts are in hexadecimal. */
#include <mnml/closure.h>
#include <mnml/lexer.h>
#include <mnml/lisp.h>
#include <mnml/module.h>
#include <mnml/slab.h>
#include <mnml/utils.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#define NI 4
#define NR 8
static struct { lisp_t L; slab_t slab; atom_t r[NR]; int mods; } I[NI];
static atom_t Q;
static char text[1 << 20];
static size_t tlen;

static void fail(const char* m) { printf("FAIL %s\n", m); fflush(stdout); _exit(3); }

static void unhex(const char* h)
{
  tlen = 0;
  for (; h[0] && h[1] && h[0] != '-'; h += 2) {
    unsigned v;
    sscanf((char[]){ h[0], h[1], 0 }, "%x", &v);
    text[tlen++] = (char)v;
  }
  text[tlen] = 0;
}

static void consumer(const lisp_t L, const atom_t cell) { Q = lisp_append(L, Q, cell); }

static void set(int i, int d, atom_t v)
{
  atom_t old = I[i].r[d];
  I[i].r[d] = v;
  if (old) lisp_drop(I[i].L, old);
}

static atom_t evaltext(lisp_t L, const char* s, size_t len, int evaluate)
{
  char* copy = malloc(len + 1);
  memcpy(copy, s, len + 1);
  atom_t keep = Q, res = lisp_make_nil(L), nil = lisp_make_nil(L);
  Q = lisp_make_nil(L);
  lexer_t lx = lexer_create(L, consumer);
  lexer_parse(lx, copy, len, true);
  lexer_destroy(lx);
  while (!IS_NULL(Q)) {
    atom_t x = lisp_car(L, Q), n = lisp_cdr(L, Q);
    X(L, Q);
    Q = n;
    X(L, res);
    res = evaluate ? lisp_eval(L, nil, x) : x;
  }
  X(L, Q);
  X(L, nil);
  Q = keep;
  free(copy);
  return res;
}

static void open_one(int i, int mods)
{
  I[i].slab = slab_new();
  I[i].L = lisp_new(I[i].slab);
  I[i].mods = mods;
  lisp_io_push(I[i].L);
  if (!module_init(I[i].L)) fail("module_init");
  if (mods) {
    module_load_defaults(I[i].L);
    const char* s = "(load 'std 'io 'logic 'math)";
    atom_t r = evaltext(I[i].L, s, strlen(s), 1);
    if (IS_NULL(r)) fail("load");
    X(I[i].L, r);
  }
}

static void close_one(int i)
{
  lisp_t L = I[i].L;
  for (int k = 0; k < NR; k++)
    if (I[i].r[k]) { lisp_drop(L, I[i].r[k]); I[i].r[k] = NULL; }
  lisp_io_pop(L);
  lisp_fini(L);
  lisp_delete(L);
#ifndef VERIF_NO_COUNTERS
  long live = (long)(I[i].slab->n_alloc - I[i].slab->n_free);
  if (live) { printf("LIVE %ld\n", live); fail("cells are left when the interpreter is gone"); }
#endif
  slab_delete(I[i].slab);
  I[i].L = NULL;
}

/* Frames of compiled functions, and the pool they come from. */
#define NF 12
static struct { closure_t f; closure_t parent; size_t n; int64_t tag; } F[NF];
static closure_t pool;
static struct { closure_t f; size_t n; } free_[4096];
static int nfree;
static int64_t tags;

static void frames_check(void)
{
  for (int k = 0; k < NF; k++) {
    if (!F[k].f) continue;
    if (F[k].f->C != F[k].parent) fail("a frame in use lost its parent");
    if (F[k].f->N < F[k].n) fail("a frame is smaller than what was asked for");
    for (size_t j = 0; j < F[k].n; j++)
      if (F[k].f->V[j].number != F[k].tag + (int64_t)j) fail("a frame in use was overwritten");
  }
}

static void frame_get(int k, size_t n, closure_t parent)
{
  frames_check();
  closure_t f = lisp_closure_get(&pool, parent, n);
  for (int j = 0; j < NF; j++)
    if (F[j].f == f) fail("a frame was given out twice");
  int fit = 0, at = -1;
  for (int j = 0; j < nfree; j++) {
    fit |= free_[j].n >= n;
    if (free_[j].f == f) at = j;
  }
  if (fit && at < 0) fail("the pool grows although it has a frame");
  if (at >= 0) free_[at] = free_[--nfree];
  F[k].f = f; F[k].parent = parent; F[k].n = n; F[k].tag = tags += 1000;
  for (size_t j = 0; j < n; j++) f->V[j].number = F[k].tag + (int64_t)j;
  frames_check();
}

static void frame_put(int k)
{
  frames_check();
  if (!F[k].f) return;
  for (int j = 0; j < NF; j++)
    if (j != k && F[j].f && F[j].parent == F[k].f) return;
  if (nfree == 4096) return;
  free_[nfree].f = F[k].f;
  free_[nfree++].n = F[k].f->N;
  lisp_closure_put(&pool, F[k].f);
  F[k].f = NULL;
  frames_check();
}

int main(void)
{
  static char line[1 << 21];
  char op[16], hex[1 << 16];
  setvbuf(stdout, NULL, _IOFBF, 1 << 16);
  while (fgets(line, sizeof line, stdin)) {
    int i, d = 0, n = 0;
    long a = 0, b = 0, c = 0;
    if (sscanf(line, "%15s %d %n", op, &i, &n) < 2) continue;
    char* rest = line + n;
    lisp_t L = I[i].L;
    atom_t* r = I[i].r;
#define IS(s) (!strcmp(op, s))
#define NUMS(k) if (sscanf(rest, "%d %ld %ld %ld", &d, &a, &b, &c) < (k)) fail("command")
#define HEX if (sscanf(rest, "%d %65535s", &d, hex) < 2) fail("command"); unhex(hex)
    if (IS("new")) { open_one(i, atoi(rest)); }
    else if (IS("del")) { close_one(i); printf("gone\n"); }
    else if (IS("num")) { NUMS(2); set(i, d, lisp_make_number(L, a)); }
    else if (IS("chr")) { NUMS(2); set(i, d, lisp_make_char(L, (char)a)); }
    else if (IS("nil")) { NUMS(1); set(i, d, lisp_make_nil(L)); }
    else if (IS("tru")) { NUMS(1); set(i, d, lisp_make_true(L)); }
    else if (IS("wld")) { NUMS(1); set(i, d, lisp_make_wildcard(L)); }
    else if (IS("quo")) { NUMS(1); set(i, d, lisp_make_quote(L)); }
    else if (IS("sym")) { HEX; set(i, d, lisp_make_symbol_from_string(L, text, tlen)); }
    else if (IS("sy2")) { HEX; MAKE_SYMBOL_STATIC(s, text); set(i, d, lisp_make_symbol(L, s)); }
    else if (IS("sy3")) { HEX; MAKE_SYMBOL_DYNAMIC_N(s, text, tlen); set(i, d, lisp_make_symbol(L, s)); free(s); }
    else if (IS("str")) { HEX; set(i, d, lisp_make_string(L, text, tlen)); }
    else if (IS("cons")) { NUMS(3); set(i, d, lisp_cons(L, UP(r[a]), UP(r[b]))); }
    else if (IS("conc")) { NUMS(3); set(i, d, lisp_conc(L, UP(r[a]), UP(r[b]))); }
    else if (IS("app")) { NUMS(3); set(i, d, lisp_append(L, UP(r[a]), UP(r[b]))); }
    else if (IS("car")) { NUMS(2); set(i, d, lisp_car(L, r[a])); }
    else if (IS("cdr")) { NUMS(2); set(i, d, lisp_cdr(L, r[a])); }
    else if (IS("dup")) { NUMS(2); set(i, d, lisp_dup(L, r[a])); }
    else if (IS("equ")) { NUMS(2); printf("%d %d\n", lisp_equ(r[d], r[a]), lisp_neq(r[d], r[a])); }
    else if (IS("cmp")) { NUMS(2); int v = lisp_symbol_compare(r[d], &r[a]->symbol); printf("%d %d\n", (v > 0) - (v < 0), lisp_symbol_match(r[d], &r[a]->symbol)); }
    else if (IS("sye")) { HEX; printf("%d\n", lisp_symbol_equal(r[d], text)); }
    else if (IS("len")) { NUMS(1); printf("%zu\n", lisp_len(r[d])); }
    else if (IS("iss")) { NUMS(1); printf("%d\n", lisp_is_string(r[d])); }
    else if (IS("cst")) {
      NUMS(2);
      char* buf = malloc(a + 1);
      size_t k = lisp_make_cstring(r[d], buf, a, 0);
      printf("%zu ", k);
      for (size_t j = 0; j < k; j++) printf("%02x", (unsigned char)buf[j]);
      printf(" %d\n", buf[k] == 0);
      free(buf);
    }
    else if (IS("esc")) { NUMS(2); set(i, d, lisp_process_escapes(L, UP(r[a]), false, lisp_make_nil(L))); }
    else if (IS("mrg")) {
      NUMS(3);
      atom_t m = lisp_merge(L, lisp_dup(L, r[a]), r[b]);
      set(i, d, m);
      for (atom_t p = m; IS_PAIR(p) && IS_PAIR(CDR(p)); p = CDR(p))
        if (lisp_symbol_compare(CAR(CAR(p)), &CAR(CAR(CDR(p)))->symbol) >= 0) fail("merged names out of order");
    }
    else if (IS("bind")) { NUMS(4); set(i, d, lisp_bind(L, UP(r[a]), UP(r[b]), UP(r[c]))); }
    else if (IS("lkp")) { NUMS(3); set(i, d, lisp_lookup(L, r[a], r[b])); }
    else if (IS("may")) { NUMS(2); printf("%d\n", lisp_may_apply(r[d], r[a])); }
    else if (IS("prog")) { NUMS(2); atom_t nil = lisp_make_nil(L); set(i, d, lisp_prog(L, nil, UP(r[a]), lisp_make_nil(L))); X(L, nil); }
    else if (IS("eval")) { NUMS(3); set(i, d, lisp_eval(L, r[b], UP(r[a]))); }
    else if (IS("ev")) { HEX; set(i, d, evaltext(L, text, tlen, 1)); }
    else if (IS("rd")) { HEX; set(i, d, evaltext(L, text, tlen, 0)); }
    else if (IS("glo")) {
      /* a global: its name in one register, its value in another */
      NUMS(2);
      L->globals = lisp_setq(L, L->globals, lisp_cons(L, UP(r[d]), UP(r[a])));
    }
    else if (IS("get")) {
      NUMS(1);
      printf("%d", lisp_get_type(r[d]));
      if (IS_NUMB(r[d])) printf(" %ld", (long)lisp_get_number(r[d]));
      if (IS_CHAR(r[d])) printf(" %d", lisp_get_char(r[d]));
      if (IS_SYMB(r[d])) printf(" %.16s", lisp_get_symbol(r[d]));
      printf("\n");
    }
    else if (IS("pr")) { NUMS(2); lisp_prin(L, r[d], a); printf("\n"); }
    else if (IS("drop")) { NUMS(1); if (r[d]) { lisp_drop(L, r[d]); r[d] = NULL; } }
    else if (IS("fget")) { NUMS(3); if (!F[d].f) frame_get(d, (size_t)a, b < NF ? F[b].f : NULL); }
    else if (IS("fput")) { NUMS(1); frame_put(d); }
    else if (IS("fclr")) {
      for (int again = 1; again;) {
        again = 0;
        for (int k = 0; k < NF; k++)
          if (F[k].f) { frame_put(k); again = 1; }
      }
      lisp_closure_clear(&pool);
      if (pool) fail("the pool is not empty after it was cleared");
      nfree = 0;
    }
    else if (IS("mark")) { printf("\x1d@@\x1e%s", rest); }
    else fail("unknown command");
  }
  for (int i = 0; i < NI; i++)
    if (I[i].L) close_one(i);
  printf("\x1d@@\x1e" "E\n");
  return 0;
}
