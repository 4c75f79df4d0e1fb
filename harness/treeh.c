/* Runs histories of operations against the symbol tree's C interface, next to a sorted array.
 * Input: "a K V" add, "u K V" update, "r K" remove, "g K" get; "d" visit all; "s K" visit until K; "q" ends a history. */
#include <mnml/lisp.h>
#include <mnml/slab.h>
#include <mnml/tree.h>
#include <mnml/utils.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#define MAXK 4096
#define MAXV 65536
static struct { char k[17]; long v; } M[MAXK]; /* sorted by name */
static int n;
static atom_t vals[MAXV]; /* value atoms, one reference held here */
static int held[MAXV];    /* references the tree must have */
static int nv;
static struct lisp L;
static atom_t root;
static long line;

static void fail(const char* m) { printf("FAIL line %ld: %s\n", line, m); fflush(stdout); _exit(3); }

static int find(const char* k, int* at)
{
  int lo = 0, hi = n;
  while (lo < hi) { int m = (lo + hi) / 2; if (strncmp(M[m].k, k, 16) < 0) lo = m + 1; else hi = m; }
  *at = lo;
  return lo < n && !strncmp(M[lo].k, k, 16);
}

static atom_t pair_of(const char* k, long v)
{
  MAKE_SYMBOL_STATIC(s, k);
  if (nv == MAXV) fail("too many values");
  atom_t val = lisp_make_number(&L, v);
  vals[nv] = UP(val);
  held[nv] = 0;
  nv++;
  return lisp_cons(&L, lisp_make_symbol(&L, s), val);
}

static int pos, stopat, stopped;
static long vis_errors;

static bool visit(const atom_t key, const atom_t val)
{
  if (pos >= n) { vis_errors++; return true; }
  if (!IS_SYMB(key) || strncmp(key->symbol.val, M[pos].k, 16)) vis_errors++;
  if (val != vals[M[pos].v] || !IS_NUMB(val)) vis_errors++;
  pos++;
  if (pos - 1 == stopat) { stopped = 1; return true; }
  return false;
}

static int height(atom_t x, atom_t parent, int depth)
{
  if (depth > 200) fail("the tree is a chain or has a cycle");
  if (IS_NULL(x)) return 0;
#ifdef PARENT
  if (parent ? PARENT(x) != parent : !IS_NULL(PARENT(x))) fail("a node has the wrong parent");
#endif
  int l = height(LEFT(x), x, depth + 1), r = height(RIGHT(x), x, depth + 1);
  return 1 + (l > r ? l : r);
}

static void check(void)
{
  pos = 0, stopat = -1, stopped = 0, vis_errors = 0;
  atom_t r = lisp_tree_dfs(&L, root, visit);
  if (!IS_NULL(r)) fail("the visit stopped early");
  X(&L, r);
  if (vis_errors || pos != n) fail("the visit is not the entries in name order");
  int h = height(root, NULL, 0), lim = 0;
  while ((1L << lim) < n + 1) lim++;
  if (h > 2 * lim) fail("the tree is not balanced");
  for (int i = 0; i < nv; i++)
    if ((int)vals[i]->refs != 1 + held[i]) fail("a value has the wrong number of references");
}

static void finish(void)
{
  check();
  X(&L, root);
  for (int i = 0; i < nv; i++) {
    if (vals[i]->refs != 1) fail("a value is still referenced after the tree is gone");
    X(&L, vals[i]);
  }
#ifndef VERIF_NO_COUNTERS
  if (L.slab->n_alloc != L.slab->n_free) fail("cells are left behind");
#endif
  slab_delete(L.slab);
  L.slab = NULL;
  n = nv = 0;
}

int main(void)
{
  char buf[128], k[64];
  long v, hist = 0, ops = 0;
  while (fgets(buf, sizeof buf, stdin)) {
    line++;
    if (!L.slab) {
      memset(&L, 0, sizeof L);
      L.slab = slab_new();
      root = lisp_make_nil(&L);
    }
    k[0] = 0, v = 0;
    sscanf(buf + 1, "%40s %ld", k, &v);
    int at, in = find(k, &at);
    ops++;
    if (buf[0] == 'q') { finish(); hist++; continue; }
    if (buf[0] == 'a') {
      atom_t kv = pair_of(k, v);
      root = lisp_tree_add(&L, root, kv);
      if (in) held[M[at].v]--;
      else {
        memmove(M + at + 1, M + at, (n - at) * sizeof M[0]);
        n++;
        memset(M[at].k, 0, 17);
        strncpy(M[at].k, k, 16);
      }
      M[at].v = nv - 1;
      held[nv - 1]++;
    } else if (buf[0] == 'u') {
      atom_t kv = pair_of(k, v);
      atom_t r = lisp_tree_upd(&L, root, kv);
      if (in) {
        if (r != kv || CDR(kv) != vals[M[at].v]) fail("update does not give back the previous value");
        held[M[at].v]--;
        M[at].v = nv - 1;
        held[nv - 1]++;
        X(&L, kv);
      } else {
        if (!IS_NULL(r)) fail("update of an absent name");
        X(&L, r);
        X(&L, kv);
      }
    } else if (buf[0] == 'r') {
      MAKE_SYMBOL_STATIC(s, k);
      atom_t r = lisp_tree_rem(&L, root, s);
      if (in) {
        root = r;
        held[M[at].v]--;
        memmove(M + at, M + at + 1, (n - at - 1) * sizeof M[0]);
        n--;
      } else {
        if (!IS_NULL(r) && r != root) fail("removal of an absent name");
        if (r != root) X(&L, r);
      }
    } else if (buf[0] == 'g') {
      MAKE_SYMBOL_STATIC(s, k);
      atom_t r = lisp_tree_get(&L, root, s);
      if (in) {
        if (!IS_PAIR(r) || strncmp(CAR(r)->symbol.val, M[at].k, 16) || CDR(r) != vals[M[at].v]) fail("get does not give the entry");
      } else if (!IS_NULL(r)) fail("get of an absent name");
      X(&L, r);
    } else if (buf[0] == 's') {
      if (in) {
        pos = 0, stopat = at, stopped = 0, vis_errors = 0;
        atom_t r = lisp_tree_dfs(&L, root, visit);
        if (IS_NULL(r) || !stopped || vis_errors || pos != at + 1) fail("the visit did not stop where asked");
        X(&L, r);
      }
    }
    if (n < 200 || buf[0] == 'd' || ops % 16 == 0) check();
  }
  printf("OK %ld\n", hist);
  return 0;
}
