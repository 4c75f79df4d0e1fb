From c37d62588f636898c1858f8e5f987b6c9b08cd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:54 +0000
Subject: [PATCH 01/64] verif: heap-backed cells under MNML_VERIF_HEAP

---
 lib/core/slab.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/core/slab.c b/lib/core/slab.c
index f48400c..a36947a 100644
--- a/lib/core/slab.c
+++ b/lib/core/slab.c
@@ -127,6 +127,14 @@ slab_delete(const slab_t slab)
 atom_t
 slab_allocate(const slab_t slab)
 {
+#ifdef MNML_VERIF_HEAP
+  /*
+   * Verification hook: one heap block per cell, so that memory checkers see
+   * each cell's lifetime.
+   */
+  slab->n_alloc += 1;
+  return (atom_t)calloc(1, sizeof(struct atom));
+#endif
   /*
    * Expand if necessary. Die if we can't.
    */
@@ -154,6 +162,11 @@ slab_allocate(const slab_t slab)
 void
 slab_deallocate(const slab_t slab, const atom_t _p)
 {
+#ifdef MNML_VERIF_HEAP
+  slab->n_free += 1;
+  free(_p);
+  return;
+#endif
   size_t n = ((uintptr_t)_p - (uintptr_t)slab->entries) / sizeof(struct atom);
   atom_t entry = &slab->entries[n];
   TRACE_SLAB("%ld", n);
-- 
2.43.0


From d8f88f5619699b59a87d8605791c28fe91491ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:54 +0000
Subject: [PATCH 02/64] fix: reserve room for the terminator of the module file
 name

---
 lib/core/module.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/core/module.c b/lib/core/module.c
index ad1ef96..6a295d1 100644
--- a/lib/core/module.c
+++ b/lib/core/module.c
@@ -109,8 +109,8 @@ module_find_at_path(const char* const dirpath, const char* const name,
   /* LIB NAME .DYLIB\0 = 3 + STRLEN(NAME) + 7 */
   const size_t lib_name_len = strlen(name) + 10;
 #else
-  /* LIB NAME .SO\0 = 3 + STRLEN(NAME) + 3 */
-  const size_t lib_name_len = strlen(name) + 6;
+  /* LIB NAME .SO\0 = 3 + STRLEN(NAME) + 4 */
+  const size_t lib_name_len = strlen(name) + 7;
 #endif
   char* const lib_name = alloca(lib_name_len);
   memset(lib_name, 0, lib_name_len);
-- 
2.43.0


From f0fcda0c2f87a93e85e2511d41e8e1bc824ae21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:53 +0000
Subject: [PATCH 03/64] fix: compile without debug support

---
 include/mnml/slab.h | 2 +-
 lib/stubs/extern.c  | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mnml/slab.h b/include/mnml/slab.h
index 4403ab1..c9fc900 100644
--- a/include/mnml/slab.h
+++ b/include/mnml/slab.h
@@ -41,7 +41,7 @@ atom_t lisp_decref(const atom_t, const char* const name);
 #else
 
 #define UP(__c) ((__c)->refs++, (__c))
-#define DOWN(__c) ((__c)->refs--, (__c))
+#define DOWN(__c) ((__c)->refs--)
 
 #endif
 
diff --git a/lib/stubs/extern.c b/lib/stubs/extern.c
index 9720c67..f22d42c 100644
--- a/lib/stubs/extern.c
+++ b/lib/stubs/extern.c
@@ -1,6 +1,7 @@
 #include <mnml/lisp.h>
 #include <mnml/utils.h>
 #include <limits.h>
+#include <stdio.h>
 #include <unistd.h>
 
 /*
-- 
2.43.0


From 9bac22c5b4f3e8732fa231abf656ae33d280c16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:41 +0000
Subject: [PATCH 04/64] fix: keep the text before NIL in symbolic output

---
 lib/core/print.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/core/print.c b/lib/core/print.c
index 19ded27..939931f 100644
--- a/lib/core/print.c
+++ b/lib/core/print.c
@@ -69,7 +69,7 @@ lisp_prin_atom(FILE* const handle, char* const buf, const size_t idx,
 {
   switch (cell->type) {
     case T_NIL:
-      return s ? lisp_write(handle, buf, idx, "NIL", 3) : 0;
+      return s ? lisp_write(handle, buf, idx, "NIL", 3) : idx;
     case T_TRUE:
       return lisp_write(handle, buf, idx, "T", 1);
     case T_CHAR: {
-- 
2.43.0


From c51d0969ae9f8890e9016f1d091e95dd081a75e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:41 +0000
Subject: [PATCH 05/64] fix: print the backslash character so that it can be
 read back

---
 lib/core/print.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/core/print.c b/lib/core/print.c
index 939931f..a4b4e7f 100644
--- a/lib/core/print.c
+++ b/lib/core/print.c
@@ -89,6 +89,9 @@ lisp_prin_atom(FILE* const handle, char* const buf, const size_t idx,
           case '\t':
             nxt = lisp_write(handle, buf, nxt, "\\t", 2);
             break;
+          case '\\':
+            nxt = lisp_write(handle, buf, nxt, "\\\\", 2);
+            break;
           default:
             nxt = lisp_write(handle, buf, nxt, &c, 1);
             break;
-- 
2.43.0


From e52e4213c4d966f1777b2db1f9faaaae758aff69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:41 +0000
Subject: [PATCH 06/64] fix: return the previous value and release the cells in
 <-

---
 lib/mnml/std/set.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/mnml/std/set.c b/lib/mnml/std/set.c
index 742c6e4..e1d6388 100644
--- a/lib/mnml/std/set.c
+++ b/lib/mnml/std/set.c
@@ -13,6 +13,7 @@ lisp_function_set(const lisp_t lisp, const atom_t closure)
   atom_t sym = lisp_eval(lisp, C, lisp_car(lisp, ANY));
   atom_t cdr = lisp_cdr(lisp, ANY);
   atom_t val = lisp_eval(lisp, C, lisp_car(lisp, cdr));
+  X(lisp, cdr);
   /*
    * Check if sym is a symbol.
    */
@@ -40,14 +41,15 @@ lisp_function_set(const lisp_t lisp, const atom_t closure)
   atom_t elt = lisp_cons(lisp, sym, val);
   atom_t res = lisp_tree_upd(lisp, lisp->globals, elt);
   if (!IS_NULL(res)) {
-    return res;
+    atom_t old = lisp_cdr(lisp, res);
+    X(lisp, res);
+    return old;
   }
-  X(lisp, res);
   /*
    * The symbol was not found.
    */
-  X(lisp, sym, val);
-  return lisp_make_nil(lisp);
+  X(lisp, elt);
+  return res;
 }
 
 /* clang-format off */
-- 
2.43.0


From 42adb4efdc6a5237816d280f3bcf8bedc1743cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:41 +0000
Subject: [PATCH 07/64] fix: release the name in def when it is not a symbol

---
 lib/mnml/std/def.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/mnml/std/def.c b/lib/mnml/std/def.c
index 92be82f..a9879a2 100644
--- a/lib/mnml/std/def.c
+++ b/lib/mnml/std/def.c
@@ -12,6 +12,7 @@ lisp_function_def(const lisp_t lisp, const atom_t closure)
    */
   atom_t symb = lisp_car(lisp, ANY);
   if (!IS_SYMB(symb)) {
+    X(lisp, symb);
     return lisp_make_nil(lisp);
   }
   /*
-- 
2.43.0


From 3a3d8a93679c6893bb92fa39572367723ba11acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:41 +0000
Subject: [PATCH 08/64] fix: accept functions without a list of expressions as
 body

---
 lib/core/utils.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/core/utils.c b/lib/core/utils.c
index 8fbdcf1..b7fb233 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -524,6 +524,12 @@ lisp_mark_tail_calls(const lisp_t lisp, const atom_t symb, const atom_t args,
   TRACE_TAIL_SEXP(symb);
   TRACE_TAIL_SEXP(args);
   TRACE_TAIL_SEXP(body);
+  /*
+   * There is nothing to mark if the body is not a list of expressions.
+   */
+  if (!IS_PAIR(body)) {
+    return;
+  }
   /*
    * Grab the last expression of the body.
    */
-- 
2.43.0


From 59daf184a8d62226f3f8d1c624565e6ea5b57331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:41 +0000
Subject: [PATCH 09/64] fix: the tail of when and unless is their last
 expression

---
 lib/core/utils.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/core/utils.c b/lib/core/utils.c
index b7fb233..44ba560 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -492,7 +492,15 @@ lisp_collect_tails(const lisp_t lisp, const atom_t cell)
           lisp_symbol_equal(CAR(cell), "when")) {
         atom_t cd0 = lisp_cdr(lisp, cell);
         atom_t cd1 = lisp_cdr(lisp, cd0);
-        res = lisp_collect_tails(lisp, lisp_car(lisp, cd1));
+        if (IS_PAIR(cd1)) {
+          FOREACH(cd1, p)
+          {
+            NEXT(p);
+          }
+          res = lisp_collect_tails(lisp, UP(p->car));
+        } else {
+          res = lisp_make_nil(lisp);
+        }
         X(lisp, cell, cd0, cd1);
         break;
       }
-- 
2.43.0


From 1265e9bb0c3cc38f80cd30311ab1c9eb95537095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:41 +0000
Subject: [PATCH 10/64] fix: the last stage of a stream is not a tail call

---
 lib/core/utils.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/core/utils.c b/lib/core/utils.c
index 44ba560..d7b5435 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -472,10 +472,9 @@ lisp_collect_tails(const lisp_t lisp, const atom_t cell)
         break;
       }
       /*
-       * Check for PROG and STREAM constructs.
+       * Check for PROG constructs.
        */
-      if (lisp_symbol_equal(CAR(cell), "prog") ||
-          lisp_symbol_equal(CAR(cell), "|>")) {
+      if (lisp_symbol_equal(CAR(cell), "prog")) {
         FOREACH(cell, p)
         {
           NEXT(p);
-- 
2.43.0


From f458a8734d00a7d320254a0afc5ebdb7f02aca58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:41 +0000
Subject: [PATCH 11/64] fix: run tail calls whatever the name the function is
 called by

---
 lib/core/eval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/core/eval.c b/lib/core/eval.c
index 7e243a1..d2304bd 100644
--- a/lib/core/eval.c
+++ b/lib/core/eval.c
@@ -171,7 +171,7 @@ lisp_eval_func(const lisp_t lisp, const atom_t closure, const atom_t symb,
         /*
          * If the result is not a tail call, stop the evaluation.
          */
-        if (!IS_TAIL_CALL(res) || !lisp_symbol_match(CAR(res), &symb->symbol)) {
+        if (!IS_PAIR(res) || !IS_TAIL_CALL(res)) {
           rslt = res;
           break;
         }
-- 
2.43.0


From 6d07cfa935a9a4c2f357ae15b1095ebf1301b412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:41 +0000
Subject: [PATCH 12/64] fix: evaluate the subject of match in the caller's
 environment

---
 lib/mnml/std/match.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mnml/std/match.c b/lib/mnml/std/match.c
index dc05375..b7674f2 100644
--- a/lib/mnml/std/match.c
+++ b/lib/mnml/std/match.c
@@ -64,7 +64,7 @@ static atom_t USED
 lisp_function_match(const lisp_t lisp, const atom_t closure)
 {
   LISP_ARGS(closure, C, ANY);
-  atom_t car = lisp_eval(lisp, closure, lisp_car(lisp, ANY));
+  atom_t car = lisp_eval(lisp, C, lisp_car(lisp, ANY));
   atom_t cdr = lisp_cdr(lisp, ANY);
   return lisp_match(lisp, C, car, cdr);
 }
-- 
2.43.0


From c79662ae9e25d0bd3bae4f143615f3639f9d12d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:41 +0000
Subject: [PATCH 13/64] fix: evaluate the subject of cond once

---
 lib/mnml/std/cond.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/mnml/std/cond.c b/lib/mnml/std/cond.c
index e31f1f3..963956d 100644
--- a/lib/mnml/std/cond.c
+++ b/lib/mnml/std/cond.c
@@ -57,7 +57,8 @@ static atom_t USED
 lisp_function_cond(const lisp_t lisp, const atom_t closure)
 {
   LISP_ARGS(closure, C, ANY);
-  atom_t car = lisp_car(lisp, ANY);
+  atom_t val = lisp_eval(lisp, C, lisp_car(lisp, ANY));
+  atom_t car = lisp_cons(lisp, lisp_make_quote(lisp), val);
   atom_t cdr = lisp_cdr(lisp, ANY);
   atom_t res = lisp_cond(lisp, C, car, cdr);
   return res;
-- 
2.43.0


From f2ee90be9d4640f97b6b0bed5441606a715d3e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 14/64] fix: let marks the tail calls of its own lambdas only

---
 lib/mnml/std/let.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/mnml/std/let.c b/lib/mnml/std/let.c
index 09ac355..601af85 100644
--- a/lib/mnml/std/let.c
+++ b/lib/mnml/std/let.c
@@ -35,15 +35,21 @@ lisp_let_bind(const lisp_t lisp, const atom_t closure, const atom_t env,
   atom_t arg = lisp_car(lisp, car);
   atom_t nvl = lisp_cdr(lisp, car);
   X(lisp, car);
+  /*
+   * Check if the value is a lambda definition.
+   */
+  const bool lambda = IS_PAIR(nvl) && IS_SYMB(CAR(nvl)) &&
+                      lisp_symbol_equal(CAR(nvl), "\\");
   /*
    * Evaluate the value and bind it to the environment.
    */
   atom_t val = lisp_eval(lisp, tmp, nvl);
   atom_t nxt = lisp_bind(lisp, env, arg, val);
   /*
-   * If the value is a function, mark the tail calls.
+   * If the value is a new function, mark the tail calls. Functions that exist
+   * already are left alone, their tail calls refer to their own symbol.
    */
-  if (IS_SYMB(arg) && IS_FUNC(val)) {
+  if (lambda && IS_SYMB(arg) && IS_FUNC(val)) {
     bool unique = true;
     /*
      * Check that the symbol is unique in the definition-site closure. If it is
-- 
2.43.0


From c7f79c32009572f51f4e0c456ce9f65ebde4526f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 15/64] fix: strip the tilde from spliced symbols and numbers

---
 lib/grammar/lexer.rl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/grammar/lexer.rl b/lib/grammar/lexer.rl
index 7361b6c..1ae6722 100644
--- a/lib/grammar/lexer.rl
+++ b/lib/grammar/lexer.rl
@@ -15,7 +15,8 @@
 #define ts  lexer->ts
 #define te  lexer->te
 
-#define UNPREFIX(_ts) (*(_ts) == '\'' || *(_ts) == '`' ? (_ts) + 1 : (_ts))
+#define UNPREFIX(_ts) \
+  (*(_ts) == '\'' || *(_ts) == '`' || *(_ts) == '~' ? (_ts) + 1 : (_ts))
 
 extern void parse_error(const lisp_t lisp);
 
-- 
2.43.0


From 96b26d5b818d28440a6174c49b85c280efe5f56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 16/64] fix: splice a copy of the list

---
 lib/grammar/parser.y | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/grammar/parser.y b/lib/grammar/parser.y
index 49b2e72..c0d113c 100644
--- a/lib/grammar/parser.y
+++ b/lib/grammar/parser.y
@@ -59,8 +59,8 @@ items(A) ::= items(B) TILDE prefix(C).
 {
   atom_t nil = lisp_make_nil(lexer->lisp);
   C = lisp_eval(lexer->lisp, nil, C);
-  A = lisp_conc(lexer->lisp, B, C);
-  X(lexer->lisp, nil);
+  A = lisp_conc(lexer->lisp, B, lisp_dup(lexer->lisp, C));
+  X(lexer->lisp, C, nil);
 }
 
 prefix(A) ::= item(B).
-- 
2.43.0


From 092dc3edb0ae01ec91686f585f736bff7d832422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 17/64] fix: rotate around the parent when balancing an
 insertion

---
 lib/core/tree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/core/tree.c b/lib/core/tree.c
index 72c6d26..9946dab 100644
--- a/lib/core/tree.c
+++ b/lib/core/tree.c
@@ -285,7 +285,7 @@ tree_add_check(const atom_t root, const atom_t node)
          */
         if (x == RIGHT(PARENT(x))) {
           x = PARENT(x);
-          next = lisp_tree_lrot(next, node);
+          next = lisp_tree_lrot(next, x);
         }
         /*
          * Case 3.
@@ -310,7 +310,7 @@ tree_add_check(const atom_t root, const atom_t node)
          */
         if (x == LEFT(PARENT(x))) {
           x = PARENT(x);
-          next = lisp_tree_rrot(next, node);
+          next = lisp_tree_rrot(next, x);
         }
         /*
          * Case 3.
-- 
2.43.0


From 53b0d3931170c138e5acc203d671a518fe01caf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 18/64] fix: keep the tree balanced when removing a node

---
 lib/core/tree.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/core/tree.c b/lib/core/tree.c
index 9946dab..dc3d4c7 100644
--- a/lib/core/tree.c
+++ b/lib/core/tree.c
@@ -480,6 +480,7 @@ tree_rem_check(const atom_t root, const atom_t parent, const atom_t node)
        */
       if (IS_COLORED(w)) {
         CLR_COLOR(w);
+        SET_COLOR(p);
         next = lisp_tree_lrot(next, p);
         w = RIGHT(p);
       }
@@ -509,7 +510,7 @@ tree_rem_check(const atom_t root, const atom_t parent, const atom_t node)
         IS_COLORED(p) ? SET_COLOR(w) : CLR_COLOR(w);
         CLR_COLOR(p);
         CLR_COLOR(RIGHT(w));
-        x = lisp_tree_lrot(next, p);
+        x = next = lisp_tree_lrot(next, p);
       }
     }
     /*
@@ -522,7 +523,8 @@ tree_rem_check(const atom_t root, const atom_t parent, const atom_t node)
        */
       if (IS_COLORED(w)) {
         CLR_COLOR(w);
-        next = lisp_tree_rrot(next, PARENT(x));
+        SET_COLOR(p);
+        next = lisp_tree_rrot(next, p);
         w = LEFT(p);
       }
       /*
@@ -551,13 +553,14 @@ tree_rem_check(const atom_t root, const atom_t parent, const atom_t node)
         IS_COLORED(p) ? SET_COLOR(w) : CLR_COLOR(w);
         CLR_COLOR(p);
         CLR_COLOR(LEFT(w));
-        x = lisp_tree_rrot(next, p);
+        x = next = lisp_tree_rrot(next, p);
       }
     }
   }
   /*
-   * Return the new root.
+   * Clear the color of the node and return the new root.
    */
+  CLR_COLOR(x);
   return next;
 }
 
-- 
2.43.0


From aea87fea2ed81b778a59d858d1fcfcfd86994545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 19/64] fix: readline keeps the last character of an
 unterminated line

---
 lib/mnml/io/readline.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/mnml/io/readline.c b/lib/mnml/io/readline.c
index 1cef7fe..bf3aa68 100644
--- a/lib/mnml/io/readline.c
+++ b/lib/mnml/io/readline.c
@@ -15,13 +15,14 @@ lisp_function_readline(const lisp_t lisp, UNUSED const atom_t closure)
   size_t cap = 0;
   ssize_t len = getline(&line, &cap, handle);
   if (len < 0) {
+    free(line);
     MAKE_SYMBOL_STATIC(eof_s, "EOF");
     return lisp_make_symbol(lisp, eof_s);
   }
   /*
    * Remove the extra newline character.
    */
-  if (len > 0 && line[len - 1] != 0) {
+  if (len > 0 && line[len - 1] == '\n') {
     line[len - 1] = 0;
     len -= 1;
   }
-- 
2.43.0


From 186ac43633b43861d9c7aeba1f3055ab75edc824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:54 +0000
Subject: [PATCH 20/64] fix: process escapes in string literals only

---
 lib/core/lisp.c      | 2 +-
 lib/grammar/parser.y | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/core/lisp.c b/lib/core/lisp.c
index f0e254c..b7a6e8c 100644
--- a/lib/core/lisp.c
+++ b/lib/core/lisp.c
@@ -81,7 +81,7 @@ lisp_make_string(const lisp_t lisp, const char* const str, const size_t len)
     atom_t c = lisp_make_char(lisp, str[len - i - 1]);
     res = lisp_cons(lisp, c, res);
   }
-  return lisp_process_escapes(lisp, res, false, lisp_make_nil(lisp));
+  return res;
 }
 
 /*
diff --git a/lib/grammar/parser.y b/lib/grammar/parser.y
index c0d113c..4e83d43 100644
--- a/lib/grammar/parser.y
+++ b/lib/grammar/parser.y
@@ -93,6 +93,7 @@ item(A) ::= CHAR(B).
 item(A) ::= STRING(B).
 {
   A = lisp_make_string(lexer->lisp, B, strlen(B));
+  A = lisp_process_escapes(lexer->lisp, A, false, lisp_make_nil(lexer->lisp));
   free(B);
 }
 
-- 
2.43.0


From ba5fd1978b7b9380735324b7636d5fed5c367089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:54 +0000
Subject: [PATCH 21/64] fix: a string may end with an escaped backslash

---
 lib/grammar/lexer.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/grammar/lexer.rl b/lib/grammar/lexer.rl
index 1ae6722..7f4207a 100644
--- a/lib/grammar/lexer.rl
+++ b/lib/grammar/lexer.rl
@@ -172,7 +172,7 @@ backt   = '`';
 tilde   = '~';
 number  = '-'? digit+;
 char    = '^' . (print - '\\' | "\\\\" | "\\e" | "\\n" | "\\r" | "\\t") $!parse_error;
-string  = '"' . ([^"] | '\\' '"')* . '"';
+string  = '"' . ([^"\\] | '\\' any)* . '"';
 marks   = [!@$%&*_+\-={}\[\]:;|\\<>?,./];
 symbol  = (alpha | marks) . (alnum | marks){,15} $!parse_error;
 comment = '#' . [^\n]*;
-- 
2.43.0


From 9337ae6910c8fd9ec24ef2bebf014650b9fb0e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:14 +0000
Subject: [PATCH 22/64] fix: read lists nested deeper than the parser stack

---
 lib/grammar/parser.y | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/grammar/parser.y b/lib/grammar/parser.y
index 4e83d43..8b1c039 100644
--- a/lib/grammar/parser.y
+++ b/lib/grammar/parser.y
@@ -1,6 +1,7 @@
 %extra_argument { lexer_t lexer }
 
 %token_type { void * }
+%stack_size 0
 %type list  { atom_t }
 %type items { atom_t }
 %type prefix { atom_t }
-- 
2.43.0


From 60811fa165c2b495b0a23aa2d2358d091650c1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:14 +0000
Subject: [PATCH 23/64] fix: release the values of an unfinished expression

---
 lib/grammar/parser.y | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/grammar/parser.y b/lib/grammar/parser.y
index 8b1c039..d4025e7 100644
--- a/lib/grammar/parser.y
+++ b/lib/grammar/parser.y
@@ -7,6 +7,13 @@
 %type prefix { atom_t }
 %type item  { atom_t }
 
+%destructor SYMBOL { free($$); }
+%destructor STRING { free($$); }
+%destructor list { X(lexer->lisp, $$); }
+%destructor items { X(lexer->lisp, $$); }
+%destructor prefix { X(lexer->lisp, $$); }
+%destructor item { X(lexer->lisp, $$); }
+
 %include
 {
 #include <mnml/lisp.h>
-- 
2.43.0


From 4cd186c0cc99ead4a9fae0aa7738cf5b604587d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:24 +0000
Subject: [PATCH 24/64] fix: drop a malformed expression and go on with the
 next one

A syntax error inside a list left the parser with the remains of the list
and dropped tokens one at a time, and a parse error left the nesting depth
and the values read so far behind.
---
 include/mnml/lexer.h |  1 +
 lib/grammar/lexer.rl | 67 +++++++++++++++++++++++++++++++++++---------
 lib/grammar/parser.y |  6 ++--
 3 files changed, 56 insertions(+), 18 deletions(-)

diff --git a/include/mnml/lexer.h b/include/mnml/lexer.h
index 96728ab..5c818aa 100644
--- a/include/mnml/lexer.h
+++ b/include/mnml/lexer.h
@@ -20,6 +20,7 @@ typedef struct lexer
   const char* te;
   size_t depth;
   size_t rem;
+  bool error;
   lisp_t lisp;
   lisp_consumer_t consumer;
   void* parser;
diff --git a/lib/grammar/lexer.rl b/lib/grammar/lexer.rl
index 7f4207a..3bdd88e 100644
--- a/lib/grammar/lexer.rl
+++ b/lib/grammar/lexer.rl
@@ -19,12 +19,46 @@
   (*(_ts) == '\'' || *(_ts) == '`' || *(_ts) == '~' ? (_ts) + 1 : (_ts))
 
 extern void parse_error(const lisp_t lisp);
+extern void syntax_error(const lisp_t lisp);
 
+/*
+ * Drop the expression being read.
+ */
+static void
+lexer_reset(const lexer_t lexer)
+{
+  ParseFree(lexer->parser, free);
+  lexer->parser = ParseAlloc(malloc);
+  lexer->depth = 0;
+  lexer->error = false;
+  ts = 0;
+}
+
+/*
+ * Push a token to the parser, unless the current expression is malformed.
+ */
+static void
+lisp_push_token(const lexer_t lexer, const int token, void* const value)
+{
+  if (!lexer->error) {
+    Parse(lexer->parser, token, value, lexer);
+  } else if (token == STRING || token == SYMBOL) {
+    free(value);
+  }
+}
+
+/*
+ * Terminate an expression. Malformed expressions are dropped.
+ */
 static void
 lisp_consume_token(const lexer_t lexer)
 {
   if (lexer->depth == 0) {
-    Parse(lexer->parser, 0, 0, lexer);
+    lisp_push_token(lexer, 0, 0);
+    if (lexer->error) {
+      syntax_error(lexer->lisp);
+      lexer_reset(lexer);
+    }
   }
 }
 
@@ -35,18 +69,20 @@ machine minimal;
 action err_prefix
 {
   parse_error(lexer->lisp);
+  lexer_reset(lexer);
   fhold; fgoto purge;
 }
 
 action parse_error
 {
   parse_error(lexer->lisp);
+  lexer_reset(lexer);
   fhold; fgoto purge;
 }
 
 action tok_popen
 {
-  Parse(lexer->parser, POPEN, 0, lexer);
+  lisp_push_token(lexer, POPEN, 0);
   lexer->depth += 1;
 }
 
@@ -54,31 +90,33 @@ action tok_pclose
 {
   if (lexer->depth == 0) {
     parse_error(lexer->lisp);
+    lexer_reset(lexer);
     fhold; fgoto purge;
   }
-  Parse(lexer->parser, PCLOSE, 0, lexer);
+  lisp_push_token(lexer, PCLOSE, 0);
   lexer->depth -= 1;
   lisp_consume_token(lexer);
 }
 
 action tok_dot
 {
-  Parse(lexer->parser, DOT, 0, lexer);
+  lisp_push_token(lexer, DOT, 0);
+  lisp_consume_token(lexer);
 }
 
 action tok_quote
 {
-  Parse(lexer->parser, CQUOTE, 0, lexer);
+  lisp_push_token(lexer, CQUOTE, 0);
 }
 
 action tok_backt
 {
-  Parse(lexer->parser, BACKTICK, 0, lexer);
+  lisp_push_token(lexer, BACKTICK, 0);
 }
 
 action tok_tilde
 {
-  Parse(lexer->parser, TILDE, 0, lexer);
+  lisp_push_token(lexer, TILDE, 0);
 }
 
 action tok_number
@@ -89,7 +127,7 @@ action tok_number
   strncpy(val, start, len);
   val[len] = 0;
   int64_t value = strtoll(val, NULL, 10);
-  Parse(lexer->parser, NUMBER, (void *)value, lexer);
+  lisp_push_token(lexer, NUMBER, (void *)value);
   lisp_consume_token(lexer);
 }
 
@@ -121,7 +159,7 @@ action tok_char
   }
   /*
    */
-  Parse(lexer->parser, CHAR, (void *)val, lexer);
+  lisp_push_token(lexer, CHAR, (void *)val);
   lisp_consume_token(lexer);
 }
 
@@ -133,25 +171,25 @@ action tok_string
   char * val = strndup(start, len);
   /*
    */
-  Parse(lexer->parser, STRING, val, lexer);
+  lisp_push_token(lexer, STRING, val);
   lisp_consume_token(lexer);
 }
 
 action tok_nil
 { 
-  Parse(lexer->parser, C_NIL, 0, lexer);
+  lisp_push_token(lexer, C_NIL, 0);
   lisp_consume_token(lexer);
 }
 
 action tok_true
 { 
-  Parse(lexer->parser, C_TRUE, 0, lexer);
+  lisp_push_token(lexer, C_TRUE, 0);
   lisp_consume_token(lexer);
 }
 
 action tok_wildcard
 { 
-  Parse(lexer->parser, C_WILDCARD, 0, lexer);
+  lisp_push_token(lexer, C_WILDCARD, 0);
   lisp_consume_token(lexer);
 }
 
@@ -160,7 +198,7 @@ action tok_symbol
   const char * start = UNPREFIX(ts);
   size_t len = te - start;
   MAKE_SYMBOL_DYNAMIC_N(sym, start, len);
-  Parse(lexer->parser, SYMBOL, sym, lexer);
+  lisp_push_token(lexer, SYMBOL, sym);
   lisp_consume_token(lexer);
 }
 
@@ -229,6 +267,7 @@ lexer_create(const lisp_t lisp, const lisp_consumer_t consumer)
   %% write init;
   lexer->depth = 0;
   lexer->rem = 0;
+  lexer->error = false;
   lexer->lisp = lisp;
   lexer->consumer = consumer;
   lexer->parser = ParseAlloc(malloc);
diff --git a/lib/grammar/parser.y b/lib/grammar/parser.y
index d4025e7..3dcaf1c 100644
--- a/lib/grammar/parser.y
+++ b/lib/grammar/parser.y
@@ -19,18 +19,16 @@
 #include <mnml/lisp.h>
 #include <mnml/utils.h>
 #include <stdlib.h>
-
-extern void syntax_error();
 }
 
 %syntax_error
 {
-  syntax_error();
+  lexer->error = true;
 }
 
 %parse_failure
 {
-  syntax_error();
+  lexer->error = true;
 }
 
 root ::= prefix(A).
-- 
2.43.0


From d6f3c818e782332fd31996954a3bdc0a3b1cabcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:34 +0000
Subject: [PATCH 25/64] fix: read lines and tokens of any length

Tokens across the end of the 1 KiB buffer were split, and a token larger
than the buffer made the reader loop forever.
---
 lib/core/read.c      | 24 +++++++++++++++++-------
 lib/grammar/lexer.rl |  7 +++++++
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/lib/core/read.c b/lib/core/read.c
index 4dd83f8..3f4c1dd 100644
--- a/lib/core/read.c
+++ b/lib/core/read.c
@@ -7,8 +7,6 @@
 #include <stdlib.h>
 #include <string.h>
 
-#define RBUFLEN 1024
-
 static void
 lisp_consumer(const lisp_t lisp, const atom_t cell)
 {
@@ -58,15 +56,27 @@ lisp_read(const lisp_t lisp, const atom_t cell)
   FILE* handle = (FILE*)hnd->number;
   /*
    */
-  char buffer[RBUFLEN] = { 0 };
+  char* line = NULL;
+  char* buffer = NULL;
+  size_t size = 0;
   do {
-    char* p = fgets(buffer + lexer->rem, RBUFLEN - lexer->rem, handle);
-    if (p == NULL) {
+    ssize_t len = getline(&line, &size, handle);
+    if (len < 0) {
+      break;
+    }
+    /*
+     * Append the line to the token left unfinished by the previous one, if any.
+     */
+    char* const resized = (char*)realloc(buffer, lexer->rem + len);
+    if (resized == NULL) {
       break;
     }
-    size_t len = strlen(p);
-    lexer_parse(lexer, buffer, lexer->rem + len, lexer->rem + len < RBUFLEN);
+    buffer = resized;
+    memcpy(buffer + lexer->rem, line, len);
+    lexer_parse(lexer, buffer, lexer->rem + len, true);
   } while (IS_NULL(CDR(CDR(CAR(lisp->ichan)))) || lexer_pending(lexer));
+  free(buffer);
+  free(line);
   /*
    * Grab the result and return it.
    */
diff --git a/lib/grammar/lexer.rl b/lib/grammar/lexer.rl
index 3bdd88e..3024056 100644
--- a/lib/grammar/lexer.rl
+++ b/lib/grammar/lexer.rl
@@ -288,6 +288,13 @@ lexer_parse(const lexer_t lexer, char * const str, const size_t len,
   const char* p = str + lexer->rem;
   const char* pe = str + len;
   const char* eof = end ? pe : 0;
+  /*
+   * The unfinished token, if any, is at the beginning of the buffer.
+   */
+  if (ts != 0) {
+    te = str + (te - ts);
+    ts = str;
+  }
   %% write exec;
   /*
    * Update the local state when there is a prefix to save.
-- 
2.43.0


From e23139432bbfab50f1f0578a8e5e1209fddaa254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:53 +0000
Subject: [PATCH 26/64] fix: evaluate the expressions that follow NIL in -e

---
 bin/mnml.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/bin/mnml.c b/bin/mnml.c
index a862ae2..a122433 100644
--- a/bin/mnml.c
+++ b/bin/mnml.c
@@ -356,13 +356,9 @@ main(const int argc, char** const argv)
      * Evaluate the parsed expressions.
      */
     result = lisp_make_nil(lisp);
-    while (keep_running) {
+    while (keep_running && !IS_NULL(PAIRS)) {
       atom_t nil = lisp_make_nil(lisp);
       atom_t car = lisp_pop(lisp);
-      if (IS_NULL(car)) {
-        X(lisp, nil, car);
-        break;
-      }
       X(lisp, result);
       result = lisp_eval(lisp, nil, car);
       X(lisp, nil);
-- 
2.43.0


From 9f4fcb0dac1500e6917ae43b964dee7ad446d92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:39 +0000
Subject: [PATCH 27/64] fix: open the channels before the expression of -e is
 read

---
 bin/mnml.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bin/mnml.c b/bin/mnml.c
index a122433..c1bd1b1 100644
--- a/bin/mnml.c
+++ b/bin/mnml.c
@@ -340,6 +340,11 @@ main(const int argc, char** const argv)
      * Setup the PAIRS to NIL.
      */
     PAIRS = lisp_make_nil(lisp);
+    /*
+     * Push the IO context.
+     */
+    PUSH_IO_CONTEXT(lisp, lisp->ichan, stdin, cwd);
+    PUSH_IO_CONTEXT(lisp, lisp->ochan, stdout, cwd);
     /*
      * Parse the expression.
      */
@@ -347,11 +352,6 @@ main(const int argc, char** const argv)
     size_t len = strlen(expr);
     lexer_parse(lexer, expr, len, true);
     lexer_destroy(lexer);
-    /*
-     * Push the IO context.
-     */
-    PUSH_IO_CONTEXT(lisp, lisp->ichan, stdin, cwd);
-    PUSH_IO_CONTEXT(lisp, lisp->ochan, stdout, cwd);
     /*
      * Evaluate the parsed expressions.
      */
-- 
2.43.0


From 91834aafdde45620a9b2bb4a1f3c57b6a1a53750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:57 +0000
Subject: [PATCH 28/64] fix: splice at the head of a list

---
 lib/grammar/parser.y | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/grammar/parser.y b/lib/grammar/parser.y
index 3dcaf1c..80bee96 100644
--- a/lib/grammar/parser.y
+++ b/lib/grammar/parser.y
@@ -56,6 +56,14 @@ items(A) ::= prefix(B).
   A = lisp_cons(lexer->lisp, B, lisp_make_nil(lexer->lisp));
 }
 
+items(A) ::= TILDE prefix(B).
+{
+  atom_t nil = lisp_make_nil(lexer->lisp);
+  B = lisp_eval(lexer->lisp, nil, B);
+  A = lisp_dup(lexer->lisp, B);
+  X(lexer->lisp, B, nil);
+}
+
 items(A) ::= items(B) prefix(C).
 {
   A = lisp_append(lexer->lisp, B, C);
-- 
2.43.0


From e6fe363e07e472f1d817f8c7501e0da306036e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:08 +0000
Subject: [PATCH 29/64] fix: flush the separators and the new lines as well

Values were flushed and the characters between them were not, so that output
was reordered between channels, duplicated by fork and lost by exec.
---
 lib/mnml/io/prinl.c  | 4 +++-
 lib/mnml/io/print.c  | 4 +++-
 lib/mnml/io/printl.c | 8 ++++++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/mnml/io/prinl.c b/lib/mnml/io/prinl.c
index 2a3fbd5..13a8ba4 100644
--- a/lib/mnml/io/prinl.c
+++ b/lib/mnml/io/prinl.c
@@ -33,7 +33,9 @@ lisp_function_prinl(const lisp_t lisp, const atom_t closure)
 {
   LISP_ARGS(closure, C, ANY);
   atom_t res = lisp_prinl_all(lisp, C, UP(ANY), lisp_make_nil(lisp));
-  fwrite("\n", 1, 1, (FILE*)CAR(CAR(lisp->ochan))->number);
+  FILE* const handle = (FILE*)CAR(CAR(lisp->ochan))->number;
+  fwrite("\n", 1, 1, handle);
+  fflush(handle);
   return res;
 }
 
diff --git a/lib/mnml/io/print.c b/lib/mnml/io/print.c
index cd36a27..fe72803 100644
--- a/lib/mnml/io/print.c
+++ b/lib/mnml/io/print.c
@@ -26,7 +26,9 @@ lisp_print_all(const lisp_t lisp, const atom_t closure, const atom_t cell,
    */
   lisp_prin(lisp, car, true);
   if (!IS_NULL(cdr)) {
-    fwrite(" ", 1, 1, (FILE*)CAR(CAR(lisp->ochan))->number);
+    FILE* const handle = (FILE*)CAR(CAR(lisp->ochan))->number;
+    fwrite(" ", 1, 1, handle);
+    fflush(handle);
   }
   return lisp_print_all(lisp, closure, cdr, car);
 }
diff --git a/lib/mnml/io/printl.c b/lib/mnml/io/printl.c
index 40917b2..82f7cb3 100644
--- a/lib/mnml/io/printl.c
+++ b/lib/mnml/io/printl.c
@@ -26,7 +26,9 @@ lisp_printl_all(const lisp_t lisp, const atom_t closure, const atom_t cell,
    */
   lisp_prin(lisp, car, true);
   if (!IS_NULL(cdr)) {
-    fwrite(" ", 1, 1, (FILE*)CAR(CAR(lisp->ochan))->number);
+    FILE* const handle = (FILE*)CAR(CAR(lisp->ochan))->number;
+    fwrite(" ", 1, 1, handle);
+    fflush(handle);
   }
   return lisp_printl_all(lisp, closure, cdr, car);
 }
@@ -36,7 +38,9 @@ lisp_function_printl(const lisp_t lisp, const atom_t closure)
 {
   LISP_ARGS(closure, C, ANY);
   atom_t res = lisp_printl_all(lisp, C, UP(ANY), lisp_make_nil(lisp));
-  fwrite("\n", 1, 1, (FILE*)CAR(CAR(lisp->ochan))->number);
+  FILE* const handle = (FILE*)CAR(CAR(lisp->ochan))->number;
+  fwrite("\n", 1, 1, handle);
+  fflush(handle);
   return res;
 }
 
-- 
2.43.0


From 2ae8f8e4b814eb6ae01514f2b13d6bf87e32673a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:26 +0000
Subject: [PATCH 30/64] fix: divide the smallest number by -1

The processor raises an exception in that case.
---
 lib/mnml/math/div.c | 14 +++++++++++++-
 lib/mnml/math/mod.c | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/lib/mnml/math/div.c b/lib/mnml/math/div.c
index e105512..0ee4352 100644
--- a/lib/mnml/math/div.c
+++ b/lib/mnml/math/div.c
@@ -2,7 +2,19 @@
 #include <mnml/module.h>
 #include <mnml/slab.h>
 
-BINARY_NUMBER_GEN(div, /, X, Y);
+static atom_t
+lisp_function_div(const lisp_t lisp, const atom_t closure)
+{
+  LISP_ARGS(closure, C, X, Y);
+  /*
+   * The smallest number has no opposite: let the result wrap.
+   */
+  if (Y->number == -1) {
+    return lisp_make_number(lisp, (int64_t)(0 - (uint64_t)X->number));
+  }
+  return lisp_make_number(lisp, X->number / Y->number);
+}
+
 LISP_MODULE_SETUP(div, /, X, Y, NIL)
 
 // vim: tw=80:sw=2:ts=2:sts=2:et
diff --git a/lib/mnml/math/mod.c b/lib/mnml/math/mod.c
index fdea586..0f4b92f 100644
--- a/lib/mnml/math/mod.c
+++ b/lib/mnml/math/mod.c
@@ -2,7 +2,19 @@
 #include <mnml/module.h>
 #include <mnml/slab.h>
 
-BINARY_NUMBER_GEN(mod, %, X, Y);
+static atom_t
+lisp_function_mod(const lisp_t lisp, const atom_t closure)
+{
+  LISP_ARGS(closure, C, X, Y);
+  /*
+   * The smallest number has no opposite: let the result wrap.
+   */
+  if (Y->number == -1) {
+    return lisp_make_number(lisp, (int64_t)(0));
+  }
+  return lisp_make_number(lisp, X->number % Y->number);
+}
+
 LISP_MODULE_SETUP(mod, %, X, Y, NIL)
 
 // vim: tw=80:sw=2:ts=2:sts=2:et
-- 
2.43.0


From 19712c52e1b25e1c0610367a76dec2e265426171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:31 +0000
Subject: [PATCH 31/64] fix: leave room for the terminator when making C
 strings

---
 lib/core/debug.c        | 2 +-
 lib/core/utils.c        | 2 +-
 lib/mnml/io/in.c        | 4 ++--
 lib/mnml/io/out.c       | 2 +-
 lib/mnml/std/load.c     | 4 ++--
 lib/mnml/unix/connect.c | 4 ++--
 lib/mnml/unix/unlink.c  | 2 +-
 7 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/core/debug.c b/lib/core/debug.c
index e28d98f..b4c12e4 100644
--- a/lib/core/debug.c
+++ b/lib/core/debug.c
@@ -93,7 +93,7 @@ lisp_debug_atom(FILE* const fp, const atom_t atom, const bool alter,
        */
       if (!IS_NULL(atom) && lisp_is_string(atom)) {
         char buffer[1024];
-        size_t len = lisp_make_cstring(atom, buffer, 1024, 0);
+        size_t len = lisp_make_cstring(atom, buffer, 1023, 0);
         fprintf(fp, "\"%.*s\"", (int)len, buffer);
         break;
       }
diff --git a/lib/core/utils.c b/lib/core/utils.c
index d7b5435..fd49071 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -665,7 +665,7 @@ lisp_load_file(const lisp_t lisp, const char* const filepath)
   if (IS_NULL(lisp->ichan)) {
     strcpy(absl_buf, getenv("PWD"));
   } else {
-    lisp_make_cstring(CAR(CDR(CAR(lisp->ichan))), absl_buf, PATH_MAX, 0);
+    lisp_make_cstring(CAR(CDR(CAR(lisp->ichan))), absl_buf, PATH_MAX - 1, 0);
   }
   /*
    * Get the fullpath for the file.
diff --git a/lib/mnml/io/in.c b/lib/mnml/io/in.c
index 2a15749..20b741f 100644
--- a/lib/mnml/io/in.c
+++ b/lib/mnml/io/in.c
@@ -25,7 +25,7 @@ lisp_function_in(const lisp_t lisp, const atom_t closure)
   /*
    * Get the working directory for the current lisp->ichan.
    */
-  lisp_make_cstring(CAR(CDR(CAR(lisp->ichan))), dirn_buf, PATH_MAX, 0);
+  lisp_make_cstring(CAR(CDR(CAR(lisp->ichan))), dirn_buf, PATH_MAX - 1, 0);
   /*
    * Process the CHAN.
    */
@@ -46,7 +46,7 @@ lisp_function_in(const lisp_t lisp, const atom_t closure)
       /*
        * Get the filepath.
        */
-      lisp_make_cstring(CHAN, file_buf, PATH_MAX, 0);
+      lisp_make_cstring(CHAN, file_buf, PATH_MAX - 1, 0);
       /*
        * Get the fullpath for the file.
        */
diff --git a/lib/mnml/io/out.c b/lib/mnml/io/out.c
index d50821a..ba29f55 100644
--- a/lib/mnml/io/out.c
+++ b/lib/mnml/io/out.c
@@ -41,7 +41,7 @@ lisp_function_out(const lisp_t lisp, const atom_t closure)
       /*
        * Get the filepath.
        */
-      lisp_make_cstring(CHAN, file_buf, PATH_MAX, 0);
+      lisp_make_cstring(CHAN, file_buf, PATH_MAX - 1, 0);
       /*
        * Get the fullpath for the file.
        */
diff --git a/lib/mnml/std/load.c b/lib/mnml/std/load.c
index f88fdd4..5a4bc80 100644
--- a/lib/mnml/std/load.c
+++ b/lib/mnml/std/load.c
@@ -38,8 +38,8 @@ lisp_load(const lisp_t lisp, const atom_t closure, const atom_t cell)
         /*
          * Construct the file name.
          */
-        char buffer[PATH_MAX + 1];
-        lisp_make_cstring(car, buffer, PATH_MAX, 0);
+        char buffer[PATH_MAX];
+        lisp_make_cstring(car, buffer, PATH_MAX - 1, 0);
         X(lisp, car);
         /*
          * Load the file.
diff --git a/lib/mnml/unix/connect.c b/lib/mnml/unix/connect.c
index ccca91e..5e5dc18 100644
--- a/lib/mnml/unix/connect.c
+++ b/lib/mnml/unix/connect.c
@@ -27,7 +27,7 @@ lisp_function_connect(UNUSED const lisp_t lisp, const atom_t closure)
    * Convert the address to a C string.
    */
   char address[1024];
-  size_t len = lisp_make_cstring(ADDRESS, address, 1024, 0);
+  size_t len = lisp_make_cstring(ADDRESS, address, 1023, 0);
   if (len == 0) {
     TRACE("Cannot convert address to a C string");
     return lisp_make_nil(lisp);
@@ -36,7 +36,7 @@ lisp_function_connect(UNUSED const lisp_t lisp, const atom_t closure)
    * Convert the address to a C string.
    */
   char service[1024];
-  len = lisp_make_cstring(PORT, service, 1024, 0);
+  len = lisp_make_cstring(PORT, service, 1023, 0);
   if (len == 0) {
     TRACE("Cannot convert service to a C string");
     return lisp_make_nil(lisp);
diff --git a/lib/mnml/unix/unlink.c b/lib/mnml/unix/unlink.c
index 4d47dfa..20a2b13 100644
--- a/lib/mnml/unix/unlink.c
+++ b/lib/mnml/unix/unlink.c
@@ -18,7 +18,7 @@ lisp_function_unlink(const lisp_t lisp, const atom_t closure)
    * Convert the argument.
    */
   char name_buf[PATH_MAX];
-  lisp_make_cstring(NAME, name_buf, PATH_MAX, 0);
+  lisp_make_cstring(NAME, name_buf, PATH_MAX - 1, 0);
   /*
    * Call unlink().
    */
-- 
2.43.0


From 2354d52cc38c1ffe864a2e8c4fc274d712e09841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:20 +0000
Subject: [PATCH 32/64] fix: keep path names within their buffers

---
 lib/core/utils.c | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/lib/core/utils.c b/lib/core/utils.c
index fd49071..cffd5e8 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -599,29 +599,35 @@ lisp_get_fullpath(const lisp_t lisp, const char* const cwd,
   /*
    * Expand the path.
    */
+  int len;
   if (strncmp(filepath, "@lib", 4) == 0) {
     if (getenv("MNML_SCRIPT_PATH") != NULL) {
-      strcpy(expn_buf, getenv("MNML_SCRIPT_PATH"));
+      len = snprintf(expn_buf, PATH_MAX, "%s%s", getenv("MNML_SCRIPT_PATH"),
+                     &filepath[4]);
     } else {
-      strcpy(expn_buf, lisp_prefix());
-      strcat(expn_buf, "/share/mnml");
+      len = snprintf(expn_buf, PATH_MAX, "%s/share/mnml%s", lisp_prefix(),
+                     &filepath[4]);
     }
-    strcat(expn_buf, &filepath[4]);
   } else if (filepath[0] == '~' && getenv("HOME") != NULL) {
-    strcpy(expn_buf, getenv("HOME"));
-    strcat(expn_buf, &filepath[1]);
+    len = snprintf(expn_buf, PATH_MAX, "%s%s", getenv("HOME"), &filepath[1]);
   } else {
-    strcpy(expn_buf, filepath);
+    len = snprintf(expn_buf, PATH_MAX, "%s", filepath);
+  }
+  if (len >= PATH_MAX) {
+    ERROR("Path too long: %s", filepath);
+    return NULL;
   }
   /*
    * If the expanded path is not absolute, prepend the current CWD.
    */
   if (expn_buf[0] != '/' && !IS_NULL(lisp->ichan)) {
-    strcpy(absl_buf, cwd);
-    strcat(absl_buf, "/");
-    strcat(absl_buf, expn_buf);
+    len = snprintf(absl_buf, PATH_MAX, "%s/%s", cwd, expn_buf);
   } else {
-    strcpy(absl_buf, expn_buf);
+    len = snprintf(absl_buf, PATH_MAX, "%s", expn_buf);
+  }
+  if (len >= PATH_MAX) {
+    ERROR("Path too long: %s", filepath);
+    return NULL;
   }
   /*
    * Get the fullpath.
@@ -638,6 +644,10 @@ lisp_get_fullpath(const lisp_t lisp, const char* const cwd,
   while ((p = strstr(last, "/"))) {
     last = p + 1;
   }
+  if (last == absl_buf) {
+    ERROR("Cannot get realpath for %s", absl_buf);
+    return NULL;
+  }
   *(last - 1) = '\0';
   path = realpath(absl_buf, buffer);
   *(last - 1) = '/';
@@ -648,6 +658,10 @@ lisp_get_fullpath(const lisp_t lisp, const char* const cwd,
   /*
    * Return the full path.
    */
+  if (strlen(buffer) + strlen(last - 1) >= PATH_MAX) {
+    ERROR("Path too long: %s", filepath);
+    return NULL;
+  }
   strcat(buffer, (last - 1));
   return path;
 }
-- 
2.43.0


From 2d762d1f0f5c7d788dd5925b496808916c21fa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:25 +0000
Subject: [PATCH 33/64] fix: run without PWD in the environment

---
 lib/core/utils.c  | 6 +++++-
 lib/mnml/io/out.c | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/core/utils.c b/lib/core/utils.c
index cffd5e8..b527864 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -677,7 +677,11 @@ lisp_load_file(const lisp_t lisp, const char* const filepath)
    * Get CWD.
    */
   if (IS_NULL(lisp->ichan)) {
-    strcpy(absl_buf, getenv("PWD"));
+    if (getenv("PWD") != NULL && strlen(getenv("PWD")) < PATH_MAX) {
+      strcpy(absl_buf, getenv("PWD"));
+    } else if (getcwd(absl_buf, PATH_MAX) == NULL) {
+      return lisp_make_nil(lisp);
+    }
   } else {
     lisp_make_cstring(CAR(CDR(CAR(lisp->ichan))), absl_buf, PATH_MAX - 1, 0);
   }
diff --git a/lib/mnml/io/out.c b/lib/mnml/io/out.c
index ba29f55..bc2d694 100644
--- a/lib/mnml/io/out.c
+++ b/lib/mnml/io/out.c
@@ -26,7 +26,11 @@ lisp_function_out(const lisp_t lisp, const atom_t closure)
    * Get the current working directory. Output files are expected to be relative
    * to where the program is run, not where the program is located.
    */
-  strcpy(dirn_buf, getenv("PWD"));
+  if (getenv("PWD") != NULL && strlen(getenv("PWD")) < PATH_MAX) {
+    strcpy(dirn_buf, getenv("PWD"));
+  } else if (getcwd(dirn_buf, PATH_MAX) == NULL) {
+    return lisp_make_nil(lisp);
+  }
   /*
    * Process the CHAN.
    */
-- 
2.43.0


From ea451fc145e1729bdc721aaf23a6f5f8d076cc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:31 +0000
Subject: [PATCH 34/64] fix: check that the channel name given to out is a
 string

---
 lib/mnml/io/out.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/mnml/io/out.c b/lib/mnml/io/out.c
index bc2d694..fd122da 100644
--- a/lib/mnml/io/out.c
+++ b/lib/mnml/io/out.c
@@ -42,6 +42,12 @@ lisp_function_out(const lisp_t lisp, const atom_t closure)
       fd = dup((int)CHAN->number);
       break;
     case T_PAIR:
+      /*
+       * Make sure the list is actually a string.
+       */
+      if (!lisp_is_string(CHAN)) {
+        return lisp_make_nil(lisp);
+      }
       /*
        * Get the filepath.
        */
-- 
2.43.0


From 8b582b579f9f04e24991b9b8a925c8027e7417b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:16 +0000
Subject: [PATCH 35/64] fix: select with its three arguments

The function was registered with three arguments and expected one.
---
 lib/mnml/unix/select.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/mnml/unix/select.c b/lib/mnml/unix/select.c
index ab82f0a..186476d 100644
--- a/lib/mnml/unix/select.c
+++ b/lib/mnml/unix/select.c
@@ -114,7 +114,12 @@ process(const lisp_t lisp, const atom_t closure, const atom_t fds,
 static atom_t USED
 lisp_function_select(const lisp_t lisp, const atom_t closure)
 {
-  LISP_ARGS(closure, C, FDS);
+  LISP_ARGS(closure, C, FDS, ON_READ, ON_ERROR);
+  /*
+   * The callbacks are called by name.
+   */
+  (void)ON_READ;
+  (void)ON_ERROR;
   /*
    * Check that the fds argument is a list.
    */
@@ -139,8 +144,8 @@ lisp_function_select(const lisp_t lisp, const atom_t closure)
   /*
    * Process the events.
    */
-  atom_t rres = process(lisp, C, FDS, "ON_READ", &rset);
-  atom_t eres = process(lisp, C, FDS, "ON_ERROR", &eset);
+  atom_t rres = process(lisp, closure, FDS, "ON_READ", &rset);
+  atom_t eres = process(lisp, closure, FDS, "ON_ERROR", &eset);
   /*
    * Build the result.
    */
-- 
2.43.0


From 8389c36ecff6208fbe1a04bc791ddfeeb324095d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:20 +0000
Subject: [PATCH 36/64] fix: keep descriptors within the sets of select

---
 lib/mnml/unix/select.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/mnml/unix/select.c b/lib/mnml/unix/select.c
index 186476d..220b300 100644
--- a/lib/mnml/unix/select.c
+++ b/lib/mnml/unix/select.c
@@ -19,7 +19,7 @@ convert(const atom_t fds, fd_set* const rset, fd_set* const eset)
    * Add CAR in the result set if valid.
    */
   if (IS_NUMB(CAR(fds))) {
-    if (CAR(fds)->number >= 0 && CAR(fds)->number < UINT32_MAX) {
+    if (CAR(fds)->number >= 0 && CAR(fds)->number < FD_SETSIZE) {
       FD_SET(CAR(fds)->number, rset);
       FD_SET(CAR(fds)->number, eset);
       cur = CAR(fds)->number;
@@ -55,7 +55,8 @@ process_r(const lisp_t lisp, const atom_t closure, const atom_t fds,
     /*
      * Call the callback if it is set.
      */
-    if (FD_ISSET(CAR(fds)->number, set) && !IS_NULL(cb)) {
+    const int64_t fd = CAR(fds)->number;
+    if (fd >= 0 && fd < FD_SETSIZE && FD_ISSET(fd, set) && !IS_NULL(cb)) {
       atom_t fdn = lisp_car(lisp, fds);
       atom_t cn0 = lisp_cons(lisp, fdn, lisp_make_nil(lisp));
       atom_t cn1 = lisp_cons(lisp, UP(cb), cn0);
-- 
2.43.0


From 2ac4acd5ec2ee01960b7f3cf0d03271548ac7b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:25 +0000
Subject: [PATCH 37/64] fix: pass all the arguments and variables to exec

Lists longer than 128 and strings longer than PATH_MAX were cut.
---
 lib/mnml/unix/exec.c | 61 ++++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 34 deletions(-)

diff --git a/lib/mnml/unix/exec.c b/lib/mnml/unix/exec.c
index c4f592e..3f568f7 100644
--- a/lib/mnml/unix/exec.c
+++ b/lib/mnml/unix/exec.c
@@ -4,8 +4,9 @@
 #include <mnml/slab.h>
 #include <mnml/utils.h>
 #include <errno.h>
-#include <limits.h>
 #include <stdio.h>
+#include <stdlib.h>
+#include <string.h>
 #include <unistd.h>
 
 extern char** environ;
@@ -14,56 +15,48 @@ extern char** environ;
  * (exec "PROG" ("ARG0" ...) ("ENV0" ...))
  */
 
-#define MAX_ARGS 128
+static char*
+lisp_exec_make_string(const atom_t cell)
+{
+  const size_t len = lisp_len(cell);
+  char* const str = (char*)malloc(len + 1);
+  lisp_make_cstring(cell, str, len, 0);
+  return str;
+}
 
-static size_t
-lisp_exec_make_strings(const lisp_t lisp, const atom_t cell, char** array,
-                       const size_t len, const size_t idx)
+static void
+lisp_exec_make_strings(const atom_t cell, char** array)
 {
-  if (IS_NULL(cell) || idx == len) {
-    X(lisp, cell);
-    array[idx] = NULL;
-    return idx;
+  FOREACH(cell, a)
+  {
+    *array++ = lisp_exec_make_string(a->car);
+    NEXT(a);
   }
-  /*
-   */
-  char buffer[PATH_MAX + 1];
-  atom_t car = lisp_car(lisp, cell);
-  atom_t cdr = lisp_cdr(lisp, cell);
-  X(lisp, cell);
-  lisp_make_cstring(car, buffer, PATH_MAX, 0);
-  array[idx] = strdup(buffer);
-  return lisp_exec_make_strings(lisp, cdr, array, len, idx + 1);
+  *array = NULL;
 }
 
 static atom_t USED
 lisp_function_exec(UNUSED const lisp_t lisp, const atom_t closure)
 {
   TRACE_CLOS_SEXP(closure);
-  /*
-   * Get the arguments.
-   */
   LISP_ARGS(closure, C, PATH, ARGS, ENVP);
   /*
-   * Build the path string.
-   */
-  char buffer[PATH_MAX + 1];
-  lisp_make_cstring(PATH, buffer, PATH_MAX, 0);
-  TRACE_EVAL("%s", buffer);
-  /*
-   * Build the argument list.
+   * Make the arguments.
    */
-  char* arg_str[MAX_ARGS + 1] = { [0] = strdup(buffer) };
-  lisp_exec_make_strings(lisp, UP(ARGS), arg_str, MAX_ARGS - 1, 1);
+  char** arg_str = (char**)calloc(lisp_len(ARGS) + 2, sizeof(char*));
+  arg_str[0] = lisp_exec_make_string(PATH);
+  lisp_exec_make_strings(ARGS, &arg_str[1]);
+  TRACE_EVAL("%s", arg_str[0]);
   /*
-   * Build the environment.
+   * Make the environment.
    */
-  char* env_str[MAX_ARGS + 1];
-  size_t len = lisp_exec_make_strings(lisp, UP(ENVP), env_str, MAX_ARGS, 0);
+  const size_t len = lisp_len(ENVP);
+  char** env_str = (char**)calloc(len + 1, sizeof(char*));
+  lisp_exec_make_strings(ENVP, env_str);
   /*
    * Call execve.
    */
-  execve(buffer, arg_str, len == 0 ? environ : env_str);
+  execve(arg_str[0], arg_str, len == 0 ? environ : env_str);
   printf("%s\n", strerror(errno));
   exit(errno);
 }
-- 
2.43.0


From 897d019f426ae92f9d01fa379593758df9f703a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:08 +0000
Subject: [PATCH 38/64] fix: reuse closures that are large enough only

The functions of a compiled module share a cache of closures, whatever the
number of values they hold.
---
 include/mnml/closure.h |  1 +
 lib/core/closure.c     | 16 ++++++++++------
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/mnml/closure.h b/include/mnml/closure.h
index bc76822..eaac3c5 100644
--- a/include/mnml/closure.h
+++ b/include/mnml/closure.h
@@ -20,6 +20,7 @@ typedef union value
 typedef struct closure
 {
   struct closure* C;
+  size_t N;
   value_t V[];
 }* closure_t;
 
diff --git a/lib/core/closure.c b/lib/core/closure.c
index 5554ff3..19cd3d3 100644
--- a/lib/core/closure.c
+++ b/lib/core/closure.c
@@ -3,23 +3,27 @@
 #include <stdlib.h>
 #include <string.h>
 
-#define MALLOC_SIZE(_N) (sizeof(closure_t) + (_N) * sizeof(atom_t))
+#define MALLOC_SIZE(_N) (sizeof(struct closure) + (_N) * sizeof(value_t))
 
 closure_t
 lisp_closure_get(closure_t* const $, const closure_t C, const size_t N)
 {
   closure_t result;
   /*
-   * Allocate the new closure, preferably from the cache.
+   * Grab the first closure large enough in the cache, or allocate a new one.
    */
-  if (*$ != NULL) {
-    result = *$;
-    *$ = result->C;
+  closure_t* p = $;
+  while (*p != NULL && (*p)->N < N) {
+    p = &(*p)->C;
+  }
+  if (*p != NULL) {
+    result = *p;
+    *p = result->C;
   } else {
     result = (closure_t)malloc(MALLOC_SIZE(N));
+    result->N = N;
   }
   /*
-   * Return the closure.
    */
   result->C = C;
   return result;
-- 
2.43.0


From 37d85a96668a5328ff974c632f42f7476c2bbdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:30 +0000
Subject: [PATCH 39/64] fix: load the files that mnmlc needs

map.l does not exist and not was not loaded.
---
 bin/mnmlc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/mnmlc b/bin/mnmlc
index 9f54a16..34dbea0 100755
--- a/bin/mnmlc
+++ b/bin/mnmlc
@@ -1,9 +1,9 @@
 #!/usr/bin/env mnml
 
 (load
-  "@lib/args.l" "@lib/cc.l" "@lib/has.l" "@lib/map.l" "@lib/rev.l" "@lib/split.l"
+  "@lib/args.l" "@lib/cc.l" "@lib/has.l" "@lib/iterators.l" "@lib/rev.l" "@lib/split.l"
   '(io prinl)
-  '(logic and =)
+  '(logic and not =)
   '(std |> car cdr setq let if prog sym when))
 
 (def usage ()
-- 
2.43.0


From 0f487c5d2164727ada11b7e2c7a0c06902f911f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:35 +0000
Subject: [PATCH 40/64] fix: find the modules when the interpreter is run from
 PATH

---
 lib/core/utils.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/core/utils.c b/lib/core/utils.c
index b527864..f3cf1cf 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -67,6 +67,17 @@ lisp_prefix()
     } else {
       strncpy(buffer, "/usr/local/bin/mnml", PATH_MAX);
     }
+#if defined(__linux__)
+    /*
+     * The name carries no path when the binary was found using PATH.
+     */
+    if (strchr(buffer, '/') == NULL) {
+      char self[PATH_MAX] = { 0 };
+      if (readlink("/proc/self/exe", self, PATH_MAX - 1) > 0) {
+        strcpy(buffer, self);
+      }
+    }
+#endif
     const char* dname = dirname(dirname(buffer));
     strcpy(prefix, dname);
     is_set = true;
-- 
2.43.0


From b6b96a4404fa51783e33673dbf66a749b63ee3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:08 +0000
Subject: [PATCH 41/64] fix: last goes past the NIL elements of a list

---
 share/mnml/manips.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/mnml/manips.l b/share/mnml/manips.l
index 269b80f..75e9d0b 100644
--- a/share/mnml/manips.l
+++ b/share/mnml/manips.l
@@ -37,7 +37,7 @@
 
 (def last (lst)
 	"Return the last item of LST."
-	(if (nil? (cadr lst))
+	(if (nil? (cdr lst))
 		(car lst)
 		(last (cdr lst))))
 
-- 
2.43.0


From 2a8fd3cc97b3db73ebb0bd4f693e28d5753713c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:12 +0000
Subject: [PATCH 42/64] fix: convert negative numbers in ntoa

---
 share/mnml/ntoa.l | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/share/mnml/ntoa.l b/share/mnml/ntoa.l
index 96e96c0..dc40732 100644
--- a/share/mnml/ntoa.l
+++ b/share/mnml/ntoa.l
@@ -1,9 +1,14 @@
-(load '(logic =) '(math + % /) '(std let \ if cons chr))
+(load '(logic =) '(math + - < % /) '(std let \ if cons chr))
 
 (def ntoa (n)
 	"Convert a number N into a list of character."
-	(let ((descend . (\ (n res)
+	(let ((digit	 . (\ (d) (chr (if (< d 0) (- ^0 d) (+ ^0 d)))))
+				(descend . (\ (n res)
 										 (if (= n 0)
 											 res
-											 (descend (/ n 10) (cons (chr (+ (% n 10) ^0)) res))))))
-		(if (= n 0) "0" (descend n NIL))))
+											 (descend (/ n 10) (cons (digit (% n 10)) res))))))
+		(if (= n 0)
+			"0"
+			(if (< n 0)
+				(cons ^- (descend n NIL))
+				(descend n NIL)))))
-- 
2.43.0


From 94fcd90464b3946840a1ce1bd58950aef4e9e130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:38 +0000
Subject: [PATCH 43/64] fix: release the argument of compiled predicates

The result of an expression given to nil? or lst? was never released by the
code generated by the compiler.
---
 share/mnml/cc.l | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/share/mnml/cc.l b/share/mnml/cc.l
index 68916f2..74f34f6 100644
--- a/share/mnml/cc.l
+++ b/share/mnml/cc.l
@@ -90,7 +90,8 @@
 								(prin "IS_NULL(")
 								(cc:value:atm ARGS kvar arg)
 								(prinl ") };")))
-			(_	 . (prinl " 0 }; /* Unsupported predicate " op " */")))))
+			(_	 . (prinl " 0 }; /* Unsupported predicate " op " */")))
+		(when (= kvar arg) (cc:gen:x ARGS kvar arg))))
 
 (def cc:op:num:one (ARGS TYPES kvar body)
 	"Generate C code for binary numeric operations."
-- 
2.43.0


From 2dded306077dec2b172314a3839d891f481db8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:46 +0000
Subject: [PATCH 44/64] fix: prefixes apply to negative numbers and constants

'-5, 'NIL, 'T and '_ were read as symbols, and '-5x was rejected because the
prefix was pushed twice.
---
 lib/grammar/lexer.rl | 65 +++++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 31 deletions(-)

diff --git a/lib/grammar/lexer.rl b/lib/grammar/lexer.rl
index 3024056..7eccc33 100644
--- a/lib/grammar/lexer.rl
+++ b/lib/grammar/lexer.rl
@@ -47,6 +47,27 @@ lisp_push_token(const lexer_t lexer, const int token, void* const value)
   }
 }
 
+/*
+ * Push the prefix of a token, if any.
+ */
+static void
+lisp_push_prefix(const lexer_t lexer)
+{
+  switch (*ts) {
+    case '\'':
+      lisp_push_token(lexer, CQUOTE, 0);
+      break;
+    case '`':
+      lisp_push_token(lexer, BACKTICK, 0);
+      break;
+    case '~':
+      lisp_push_token(lexer, TILDE, 0);
+      break;
+    default:
+      break;
+  }
+}
+
 /*
  * Terminate an expression. Malformed expressions are dropped.
  */
@@ -82,6 +103,7 @@ action parse_error
 
 action tok_popen
 {
+  lisp_push_prefix(lexer);
   lisp_push_token(lexer, POPEN, 0);
   lexer->depth += 1;
 }
@@ -104,21 +126,6 @@ action tok_dot
   lisp_consume_token(lexer);
 }
 
-action tok_quote
-{
-  lisp_push_token(lexer, CQUOTE, 0);
-}
-
-action tok_backt
-{
-  lisp_push_token(lexer, BACKTICK, 0);
-}
-
-action tok_tilde
-{
-  lisp_push_token(lexer, TILDE, 0);
-}
-
 action tok_number
 {
   const char * start = UNPREFIX(ts);
@@ -127,6 +134,7 @@ action tok_number
   strncpy(val, start, len);
   val[len] = 0;
   int64_t value = strtoll(val, NULL, 10);
+  lisp_push_prefix(lexer);
   lisp_push_token(lexer, NUMBER, (void *)value);
   lisp_consume_token(lexer);
 }
@@ -177,18 +185,21 @@ action tok_string
 
 action tok_nil
 { 
+  lisp_push_prefix(lexer);
   lisp_push_token(lexer, C_NIL, 0);
   lisp_consume_token(lexer);
 }
 
 action tok_true
 { 
+  lisp_push_prefix(lexer);
   lisp_push_token(lexer, C_TRUE, 0);
   lisp_consume_token(lexer);
 }
 
 action tok_wildcard
 { 
+  lisp_push_prefix(lexer);
   lisp_push_token(lexer, C_WILDCARD, 0);
   lisp_consume_token(lexer);
 }
@@ -198,6 +209,7 @@ action tok_symbol
   const char * start = UNPREFIX(ts);
   size_t len = te - start;
   MAKE_SYMBOL_DYNAMIC_N(sym, start, len);
+  lisp_push_prefix(lexer);
   lisp_push_token(lexer, SYMBOL, sym);
   lisp_consume_token(lexer);
 }
@@ -232,23 +244,14 @@ main := |*
   '_'    => tok_wildcard;
   symbol => tok_symbol;
   #
-  # Escaped POPEN.
-  #
-  (quote . popen) %tok_quote $!err_prefix => tok_popen;
-  (backt . popen) %tok_backt $!err_prefix => tok_popen;
-  (tilde . popen) %tok_tilde $!err_prefix => tok_popen;
-  #
-  # Escaped SYMBOL.
-  #
-  (quote . symbol) %tok_quote $!err_prefix => tok_symbol;
-  (backt . symbol) %tok_backt $!err_prefix => tok_symbol;
-  (tilde . symbol) %tok_tilde $!err_prefix => tok_symbol;
-  #
-  # Escaped NUMBER.
+  # Escaped tokens. NUMBER and the constants take precedence over SYMBOL.
   #
-  (quote . number) %tok_quote $!err_prefix => tok_number;
-  (backt . number) %tok_backt $!err_prefix => tok_number;
-  (tilde . number) %tok_tilde $!err_prefix => tok_number;
+  ((quote | backt | tilde) . popen) $!err_prefix => tok_popen;
+  ((quote | backt | tilde) . number) $!err_prefix => tok_number;
+  ((quote | backt | tilde) . "NIL") $!err_prefix => tok_nil;
+  ((quote | backt | tilde) . 'T') $!err_prefix => tok_true;
+  ((quote | backt | tilde) . '_') $!err_prefix => tok_wildcard;
+  ((quote | backt | tilde) . symbol) $!err_prefix => tok_symbol;
   #
   # Garbage.
   #
-- 
2.43.0


From c3ad067eb00d2fadbca68eba7e06f3c66b756723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:18 +0000
Subject: [PATCH 45/64] fix: arguments of a partial application shadow captured
 names

---
 lib/core/eval.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/core/eval.c b/lib/core/eval.c
index d2304bd..1448c58 100644
--- a/lib/core/eval.c
+++ b/lib/core/eval.c
@@ -192,7 +192,17 @@ lisp_eval_func(const lisp_t lisp, const atom_t closure, const atom_t symb,
    * Else handle partial application.
    */
   else {
-    atom_t clos = lisp_conc(lisp, bscl, dscl);
+    atom_t clos;
+    /*
+     * Binary functions get their arguments by position, the last ones first.
+     * Otherwise, the bound arguments shadow the definition-site closure.
+     */
+    if (IS_NUMB(body)) {
+      clos = lisp_conc(lisp, bscl, dscl);
+    } else {
+      clos = lisp_conc(lisp, lisp_dup(lisp, dscl), bscl);
+      X(lisp, dscl);
+    }
     atom_t con0 = lisp_cons(lisp, clos, body);
     rslt = lisp_cons(lisp, narg, con0);
   }
-- 
2.43.0


From 63820270b64c20664ee5ce310b6505d8a50ae4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:27 +0000
Subject: [PATCH 46/64] fix: trim stops at the first character that is not a
 white space

The stages after the first one were given the unevaluated comparisons,
so whitespace? held for every character and trim never ended.
---
 share/mnml/trim.l | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/share/mnml/trim.l b/share/mnml/trim.l
index 84a6b3c..f4b703b 100644
--- a/share/mnml/trim.l
+++ b/share/mnml/trim.l
@@ -2,11 +2,11 @@
 	"iterators.l"
 	"rev.l"
 	'(logic = or)
-	'(std \ |> car cdr cons if))
+	'(std \ car cdr cons if))
 
 (def whitespace? (chr)
 	"Return T if CHR is a white space."
-	(|> (= chr ^ ) (or (= chr ^\t)) (or (= chr ^\n)) (or (= chr ^\r))))
+	(or (= chr ^ ) (or (= chr ^\t) (or (= chr ^\n) (= chr ^\r)))))
 
 (def triml (strn)
 	"Trim STRN of leading white spaces."
-- 
2.43.0


From 104e7625457f871bd78d0e064fc19636e01ebfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:31 +0000
Subject: [PATCH 47/64] fix: iter2 loads let

---
 share/mnml/iter2.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/mnml/iter2.l b/share/mnml/iter2.l
index e9de0a5..bcae806 100644
--- a/share/mnml/iter2.l
+++ b/share/mnml/iter2.l
@@ -1,4 +1,4 @@
-(load '(logic and) '(std if car cdr))
+(load '(logic and) '(std if let car cdr))
 
 (def iter2 (fun lst1 lst2)
 	"Iterate over list LST1 and LST1 and call FUN on each pair of item."
-- 
2.43.0


From b0a8a8851c4fe832d19ebe88fc9b934c0a3a4025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:36 +0000
Subject: [PATCH 48/64] fix: http/serve listens on the given port

---
 share/mnml/http.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/mnml/http.l b/share/mnml/http.l
index e5ac621..9453925 100644
--- a/share/mnml/http.l
+++ b/share/mnml/http.l
@@ -122,7 +122,7 @@
 
 (def http/serve (port cb)
 	"Start a HTTP server on PORT, using CB as a request handler."
-	(let ((srv . (listen 8080))
+	(let ((srv . (listen port))
 				(fds . (list srv))
 				(run . T))
 		(while run
-- 
2.43.0


From 3f32725a9ca2bc44a644857e5811ea4b0b25024a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:57 +0000
Subject: [PATCH 49/64] fix: the user cache is found when HOME is not set

---
 lib/core/module.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/core/module.c b/lib/core/module.c
index 6a295d1..badeb71 100644
--- a/lib/core/module.c
+++ b/lib/core/module.c
@@ -8,9 +8,12 @@
 #include <dlfcn.h>
 #include <errno.h>
 #include <limits.h>
+#include <pwd.h>
+#include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 #include <sys/stat.h>
+#include <unistd.h>
 
 /*
  * Helper functions.
@@ -43,8 +46,12 @@ lisp_usercache_prefix()
   static bool is_set = false;
   static char buffer[PATH_MAX];
   if (!is_set) {
-    strcpy(buffer, getenv("HOME"));
-    strcat(buffer, "/.mnml");
+    const char* home = getenv("HOME");
+    if (home == NULL) {
+      struct passwd* pwd = getpwuid(getuid());
+      home = pwd != NULL ? pwd->pw_dir : "";
+    }
+    snprintf(buffer, sizeof(buffer), "%s/.mnml", home);
     is_set = true;
   }
   return buffer;
-- 
2.43.0


From 841563f7ba8f7effd66965ca9169417c0cfe4bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:22 +0000
Subject: [PATCH 50/64] fix: compiled branches clean up only their own
 placeholders

The clean-up of one branch released the placeholders of its sibling, which
hold whatever the recycled closure had left there.
---
 share/mnml/cc.l | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/share/mnml/cc.l b/share/mnml/cc.l
index 74f34f6..37de23a 100644
--- a/share/mnml/cc.l
+++ b/share/mnml/cc.l
@@ -3,6 +3,7 @@
 	"aton.l"
 	"cps.l"
 	"filter.l"
+	"has.l"
 	"iter.l"
 	"iter2.l"
 	"iterators.l"
@@ -477,6 +478,18 @@
 				(cc:gen:function NAME ARGS REFS TYPES CONT kvar (cc:replace nvar fun)))
 			(cc:gen:function NAME ARGS REFS TYPES CONT kvar fun))))
 
+(def cc:bound (expr)
+	"Collect the placeholders bound in EXPR."
+	(when (lst? expr)
+		(foldl (\ (acc e) (foldr cons (cc:bound e) acc))
+			(if (= (car expr) '\) (cadr expr))
+			expr)))
+
+(def cc:refs:branch (REFS branch ite)
+	"Remove from REFS the placeholders bound in the other branches of ITE."
+	(let ((bound . (cc:bound (filter (\ (e) (= e branch)) ite))))
+		(filter (\ ((symb . _)) (has bound symb)) REFS)))
+
 (def cc:gen:cont-ite (NAME ARGS REFS TYPES CONT kvar fun)
 	"Generate the C code for the IF/THEN/ELSE funcall FUN."
 	(let (((symb cnd . ite) . fun)
@@ -485,12 +498,13 @@
 																		(nvar						. (last args)))
 																(if (lst? cont) (cc:replace nvar e) e)))
 										ite))
-				(clist	. (map (\ (e) (let ((cont . (last e)))
-																(if (lst? cont) cont)))
+				(clist	. (map (\ (e) (let ((cont . (last e))
+																		(refs . (cc:refs:branch REFS e ite)))
+																(if (lst? cont) (cons refs cont))))
 										ite))
 				(conts	. (filter nil? clist)))
-		(iter (\ ((_ args body))
-						(cc:gen:cont NAME ARGS REFS TYPES CONT (last args) body)) conts)
+		(iter (\ ((refs _ args body))
+						(cc:gen:cont NAME ARGS refs TYPES CONT (last args) body)) conts)
 		(cc:gen:function NAME ARGS REFS TYPES CONT kvar (cons symb (cons cnd first)))))
 
 (def cc:gen:cont (NAME ARGS REFS TYPES CONT kvar fun)
-- 
2.43.0


From cfc6d380f08ed09a17b35bc737c03086e8f95cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:59 +0000
Subject: [PATCH 51/64] fix: compiled comparisons of numbers do not release
 them

---
 share/mnml/cc.l | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/share/mnml/cc.l b/share/mnml/cc.l
index 37de23a..0d0fa09 100644
--- a/share/mnml/cc.l
+++ b/share/mnml/cc.l
@@ -191,8 +191,8 @@
 													))
 			(_	. (prin " 0 /* Unsupported types (" typ1 ", " typ2 ") */ ")))
 		(prinl " };")
-		(when (= kvar arg1) (cc:gen:x ARGS kvar arg1))
-		(when (= kvar arg2) (cc:gen:x ARGS kvar arg2))))
+		(when (and (= kvar arg1) (= 'ATOM typ1)) (cc:gen:x ARGS kvar arg1))
+		(when (and (= kvar arg2) (= 'ATOM typ2)) (cc:gen:x ARGS kvar arg2))))
 
 (def cc:op:extcall (ARGS TYPES kvar (_ arg))
 	"Generate C code for immediate KVAR funcall."
-- 
2.43.0


From 34b9f30008d170959589f13571864937fdcf65e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:12 +0000
Subject: [PATCH 52/64] fix: compiled calls take the same argument more than
 once

The generated variables were named after the arguments.
---
 share/mnml/cc.l | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/share/mnml/cc.l b/share/mnml/cc.l
index 0d0fa09..c6eb57e 100644
--- a/share/mnml/cc.l
+++ b/share/mnml/cc.l
@@ -205,22 +205,22 @@
 	"Generate C code for external function calls."
 	(let ((nvar			. (last args))
 				(effargs	. (cc:arg:get args))
-				(genquot	. (\ (arg)
+				(genquot	. (\ (idx arg)
 											(prog
-												(prin (o|) "atom_t " arg " = lisp_cons(lisp, lisp_make_quote(lisp), UP(")
+												(prin (o|) "atom_t _A" idx " = lisp_cons(lisp, lisp_make_quote(lisp), UP(")
 												(cc:value:atm ARGS kvar arg)
 												(prinl "));")
 												(when (= kvar arg) (cc:gen:x ARGS kvar arg))
 												)))
-				(gensymb	. (\ (arg)
-											(prinl (o|) "MAKE_SYMBOL_STATIC(s_" arg ", \"" arg "\");")
-											(prinl (o|) "atom_t " arg " = lisp_make_symbol(lisp, s_" arg ");")
+				(gensymb	. (\ (idx arg)
+											(prinl (o|) "MAKE_SYMBOL_STATIC(_s" idx ", \"" arg "\");")
+											(prinl (o|) "atom_t _A" idx " = lisp_make_symbol(lisp, _s" idx ");")
 											))
-				(genargs	. (\ (arg)
+				(genargs	. (\ (idx arg)
 											(let ((type . (assoc arg TYPES)))
 												(match type
 													(NUMBER . (prog
-																			(prin (o|) "atom_t " arg " = lisp_make_number(lisp, ")
+																			(prin (o|) "atom_t _A" idx " = lisp_make_number(lisp, ")
 																			(cc:value:num ARGS kvar arg)
 																			(prinl ");")))
 													#
@@ -229,23 +229,24 @@
 													# immediate values and not symbols.
 													#
 													(ATOM . (if (cc:ref:idx ARGS arg)
-																		(genquot arg)
-																		(gensymb arg)))
+																		(genquot idx arg)
+																		(gensymb idx arg)))
 													#
 													# NOTE If no type was found for the ATOM, assume it's
 													# a function symbol.
 													#
-													(NIL	. (gensymb arg))
-													(_		. (prinl (o|) "atom_t " arg " = lisp_make_nil(lisp); /* Unsupported type " (str type) " */"))
+													(NIL	. (gensymb idx arg))
+													(_		. (prinl (o|) "atom_t _A" idx " = lisp_make_nil(lisp); /* Unsupported type " (str type) " */"))
 													))))
-				(gencall	. (\ (arg)
-											(prinl (o|) "_T = lisp_cons(lisp, " arg ", _S);")
+				(gencall	. (\ (idx)
+											(prinl (o|) "_T = lisp_cons(lisp, _A" idx ", _S);")
 											(prinl (o|) "_S = _T;")))
+				(indices	. (foldl (\ (acc arg) (prog (genargs (len acc) arg) (cons (len acc) acc)))
+												 NIL effargs))
 				(type			. (assoc nvar TYPES)))
-		(iter genargs effargs)
 		(/**/ "Build the expression to evaluate.")
 		(prinl (o|) "atom_t _S = lisp_make_nil(lisp), _T;")
-		(iter gencall (rev effargs))
+		(iter gencall indices)
 		(/**/ "Evaluate the expression.")
 		(prinl (o|) "atom_t _R = lisp_eval(lisp, E, _S);")
 		(/**/ "Convert the atom_t result to value_t.")
-- 
2.43.0


From 3beaecbcec97d587a4a692d67918dd8c14fa7beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:07 +0000
Subject: [PATCH 53/64] fix: module search paths of any length

---
 lib/core/module.c | 57 +++++++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/lib/core/module.c b/lib/core/module.c
index badeb71..63cf2fe 100644
--- a/lib/core/module.c
+++ b/lib/core/module.c
@@ -60,36 +60,37 @@ lisp_usercache_prefix()
 static char*
 module_paths()
 {
-  static bool is_set = false;
-  static char buffer[8192];
   /*
-   * Prepare the path if not set.
+   * Grab the system prefix, the user cache path and the user-defined variable.
    */
-  if (!is_set) {
-    /*
-     * Set the system prefix first.
-     */
-    strcpy(buffer, lisp_library_prefix());
-    /*
-     * Then, append the user cache path.
-     */
+  const char* const libr = lisp_library_prefix();
+  const char* const user = lisp_usercache_prefix();
+  const char* const path = getenv("MNML_MODULE_PATH");
+  const size_t extra = path == NULL ? 0 : strlen(path) + 1;
+  /*
+   * Allocate the path.
+   */
+  char* const buffer = (char*)malloc(strlen(libr) + strlen(user) + extra + 2);
+  if (buffer == NULL) {
+    abort();
+  }
+  /*
+   * Build the path: the system prefix first, then the user cache path.
+   */
+  strcpy(buffer, libr);
+  strcat(buffer, ":");
+  strcat(buffer, user);
+  /*
+   * Append the user-defined variable.
+   */
+  if (path != NULL) {
     strcat(buffer, ":");
-    strcat(buffer, lisp_usercache_prefix());
-    /*
-     * Append the user-defined variable.
-     */
-    if (getenv("MNML_MODULE_PATH") != NULL) {
-      strcat(buffer, ":");
-      strcat(buffer, getenv("MNML_MODULE_PATH"));
-    }
-    /*
-     */
-    is_set = true;
+    strcat(buffer, path);
   }
   /*
    * Return the paths.
    */
-  return strdup(buffer);
+  return buffer;
 }
 
 /*
@@ -151,10 +152,12 @@ module_find_at_path(const char* const dirpath, const char* const name,
   /*
    * Build the file path.
    */
-  memset(path, 0, PATH_MAX);
-  strcpy(path, dirpath);
-  strcat(path, "/");
-  strcat(path, de->d_name);
+  const int path_len = snprintf(path, PATH_MAX, "%s/%s", dirpath, de->d_name);
+  if (path_len >= PATH_MAX) {
+    ERROR("Path too long: %s/%s", dirpath, de->d_name);
+    closedir(dir);
+    return false;
+  }
   /*
    * Return the result.
    */
-- 
2.43.0


From 61c5d466e502db81171ac05d3a6437685d7d4cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:28 +0000
Subject: [PATCH 54/64] fix: MNML_SCRIPT_PATH is a list of paths

---
 lib/core/utils.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/core/utils.c b/lib/core/utils.c
index f3cf1cf..50b1ae0 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -613,8 +613,17 @@ lisp_get_fullpath(const lisp_t lisp, const char* const cwd,
   int len;
   if (strncmp(filepath, "@lib", 4) == 0) {
     if (getenv("MNML_SCRIPT_PATH") != NULL) {
-      len = snprintf(expn_buf, PATH_MAX, "%s%s", getenv("MNML_SCRIPT_PATH"),
-                     &filepath[4]);
+      bool found = false;
+      len = snprintf(expn_buf, PATH_MAX, "%s", &filepath[4]);
+      /*
+       * Use the first entry of the list that contains the file.
+       */
+      FOR_EACH_TOKEN(getenv("MNML_SCRIPT_PATH"), ":", entry, {
+        if (!found) {
+          len = snprintf(expn_buf, PATH_MAX, "%s%s", entry, &filepath[4]);
+          found = len < PATH_MAX && access(expn_buf, F_OK) == 0;
+        }
+      });
     } else {
       len = snprintf(expn_buf, PATH_MAX, "%s/share/mnml%s", lisp_prefix(),
                      &filepath[4]);
-- 
2.43.0


From 8acd8cc9da5bfe6fddc652f74f9bb8193074ddc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:59 +0000
Subject: [PATCH 55/64] fix: the prompt flushes its output

---
 bin/mnml.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bin/mnml.c b/bin/mnml.c
index c1bd1b1..b89110f 100644
--- a/bin/mnml.c
+++ b/bin/mnml.c
@@ -65,6 +65,7 @@ stage_prompt(const lisp_t lisp, UNUSED const atom_t cell,
 {
   if (IS_NULL(CDR(CDR(CAR(lisp->ichan))))) {
     fwrite(": ", 1, 2, stdout);
+    fflush(stdout);
   }
 }
 
@@ -75,6 +76,7 @@ stage_newline(const lisp_t lisp, const atom_t cell,
   fwrite("> ", 1, 2, stdout);
   lisp_prin(lisp, cell, true);
   fwrite("\n", 1, 1, stdout);
+  fflush(stdout);
 }
 
 /*
-- 
2.43.0


From 90199f8b8832992e005f544ca11c8f944a0e9ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:52 +0000
Subject: [PATCH 56/64] fix: failed exec leaves the input of the parent alone

---
 lib/mnml/unix/exec.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/mnml/unix/exec.c b/lib/mnml/unix/exec.c
index 3f568f7..4aac7e0 100644
--- a/lib/mnml/unix/exec.c
+++ b/lib/mnml/unix/exec.c
@@ -57,8 +57,14 @@ lisp_function_exec(UNUSED const lisp_t lisp, const atom_t closure)
    * Call execve.
    */
   execve(arg_str[0], arg_str, len == 0 ? environ : env_str);
-  printf("%s\n", strerror(errno));
-  exit(errno);
+  /*
+   * The call failed. Flush the output by hand and skip the exit handlers: those
+   * rewind the input files, whose offsets are shared with the parent process.
+   */
+  const int error = errno;
+  printf("%s\n", strerror(error));
+  fflush(NULL);
+  _exit(error);
 }
 
 LISP_MODULE_SETUP(exec, exec, PATH, ARGS, ENVP, NIL)
-- 
2.43.0


From d8c077cecdfd00cdaf1003421e25dc19cde2d04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:00 +0000
Subject: [PATCH 57/64] fix: in does not drop what follows the data it reads on
 a descriptor

---
 lib/mnml/io/in.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/mnml/io/in.c b/lib/mnml/io/in.c
index 20b741f..e3a8605 100644
--- a/lib/mnml/io/in.c
+++ b/lib/mnml/io/in.c
@@ -77,6 +77,13 @@ lisp_function_in(const lisp_t lisp, const atom_t closure)
     close(fd);
     return lisp_make_nil(lisp);
   }
+  /*
+   * Do not read ahead of what is asked for on a descriptor: what is left in the
+   * buffer of the handle when it closes would be lost for the next reader.
+   */
+  if (CHAN->type != T_PAIR) {
+    setvbuf(handle, NULL, _IONBF, 0);
+  }
   /*
    * Push the context, eval the prog, pop the context.
    */
-- 
2.43.0


From 1a7c62ed06ad19d7754e0b288e0b875cd5cfe6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:04 +0000
Subject: [PATCH 58/64] fix: listen accepts port 65535

---
 lib/mnml/unix/listen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mnml/unix/listen.c b/lib/mnml/unix/listen.c
index 9dee8a1..83a18c6 100644
--- a/lib/mnml/unix/listen.c
+++ b/lib/mnml/unix/listen.c
@@ -19,7 +19,7 @@ lisp_function_listen(UNUSED const lisp_t lisp, const atom_t closure)
   /*
    * Make sure the port is valid.
    */
-  if (!IS_NUMB(PORT) || PORT->number < 0 || PORT->number >= UINT16_MAX) {
+  if (!IS_NUMB(PORT) || PORT->number < 0 || PORT->number > UINT16_MAX) {
     return lisp_make_nil(lisp);
   }
   /*
-- 
2.43.0


From 034554976ec33cf9fe8a4b53a91288fe664d7063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:16 +0000
Subject: [PATCH 59/64] fix: http/headers keeps the colons of a value

The header was split at every colon and joined back, which loses the
empty fields: an IPv6 address or a "::" in a value was altered.
---
 share/mnml/http.l | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/share/mnml/http.l b/share/mnml/http.l
index 9453925..23fa47b 100644
--- a/share/mnml/http.l
+++ b/share/mnml/http.l
@@ -2,6 +2,7 @@
 	"@lib/append.l"
 	"@lib/iter.l"
 	"@lib/join.l"
+	"@lib/rev.l"
 	"@lib/split.l"
 	"@lib/trim.l"
 	'(io in out prinl printl readline)
@@ -9,23 +10,26 @@
 	'(manips cadr caddr cddr)
 	'(logic = or)
 	'(math >)
-	'(std \ <- car cons if len let list match nil? prog unless when while)
+	'(std \ <- car cdr cons if len let list match nil? prog unless when while)
 	'(unix accept close connect listen select))
 
 #
 # HTTP methods.
 #
 
+(def http/header (name rem)
+	"Split a header REM at its first colon."
+	(if (or (nil? rem) (= (car rem) ^:))
+		(cons (trim (rev name)) (trim (cdr rem)))
+		(http/header (cons (car rem) name) (cdr rem))
+		))
+
 (def http/headers (result)
 	"Parse all HTTP headers."
 	(let ((line . (readline))
 				(tlne . (trim line)))
 		(if (or (nil? tlne) (= line 'EOF))
-			(foldl (\ (acc e) 
-							 (let (((hd . tl) . (split e ^:))
-										 (rem . (join tl ^:)))
-								 (cons (cons (trim hd) (trim rem)) acc)))
-				NIL result)
+			(foldl (\ (acc e) (cons (http/header NIL e) acc)) NIL result)
 			(http/headers (cons tlne result))
 			)))
 
-- 
2.43.0


From 38cd36e177a644e3faf5cf273dae0bf2b4c95701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:21 +0000
Subject: [PATCH 60/64] fix: the usage of the test runner names the script

The name was taken from the first argument: "Usage: -h".
---
 share/mnml/test.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/mnml/test.l b/share/mnml/test.l
index 66d5443..a363597 100644
--- a/share/mnml/test.l
+++ b/share/mnml/test.l
@@ -13,7 +13,7 @@
 
 (def usage ()
   "Print out a usage string for the testsuite."
-  (let ((arg0 . (car (cdr ARGV)))
+  (let ((arg0 . (car ARGV))
         (prgn . (car (rev (split arg0 ^/)))))
     (prinl "Usage: " prgn " [-l|-t test1,test2,...|-h] ")
     (prinl)
-- 
2.43.0


From 16703ba4da42ccfe17e6d15f26f2b1e88cc804be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:25 +0000
Subject: [PATCH 61/64] fix: the CPS transform numbers a control form's
 placeholder as the lifting does

---
 share/mnml/cps.l | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/share/mnml/cps.l b/share/mnml/cps.l
index 300100f..bbbcb59 100644
--- a/share/mnml/cps.l
+++ b/share/mnml/cps.l
@@ -16,6 +16,30 @@
 	"Generate a symbol placeholder using ID."
 	(sym (cons ^_ (ntoa id))))
 
+#
+# Compute the first identifier available once an expression is lifted. The
+# branches of a control form are lifted in place: they have no placeholder.
+#
+(def cps:next-any (counter args)
+	"Skip the identifiers used by the funcall arguments ARGS."
+	(foldr (\ (e id) (if (lst? e) (cps:next (+ id 1) e) id)) args counter))
+
+(def cps:next-ctl (counter body)
+	"Skip the identifiers used by the control form BODY."
+	(let (((_ stmt . branches) . body)
+				(next								 . (foldr (\ (e id) (if (lst? e) (cps:next id e) id))
+																			branches counter)))
+		(cps:next-any next (list stmt))))
+
+(def cps:next (counter body)
+	"Skip the identifiers used by BODY."
+	(match body
+		~(foldl
+			 (\ (acc e) (cons (cons (list e _ _) '(cps:next-ctl counter body)) acc))
+			 NIL '(if unless when))
+		((if _ _ _) . (cps:next-ctl counter body))
+		(_ . (cps:next-any counter (cdr body)))))
+
 #
 # Reverse-scan a function body and replace the funcall arguments with
 # numbered placeholders like _0, _1, or _2.
@@ -25,7 +49,7 @@
 	(foldr (\ (e (id . result))
 					 (if (lst? e)
 						 (let ((larg . (cps:symbol id))
-									 ((next . _) . (cps:swap kvar (+ id 1) e)))
+									 (next . (cps:next (+ id 1) e)))
 							 (cons next (cons larg result)))
 						 (cons id (cons e result))))
 		body
-- 
2.43.0


From 58fb842ca7aab1d26333703530b97712b6150636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:05 +0000
Subject: [PATCH 62/64] fix: refuse the paths that are too long instead of
 cutting them

---
 lib/mnml/io/in.c       | 7 +++++++
 lib/mnml/io/out.c      | 7 +++++++
 lib/mnml/std/load.c    | 9 +++++++++
 lib/mnml/unix/unlink.c | 4 ++--
 4 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/lib/mnml/io/in.c b/lib/mnml/io/in.c
index e3a8605..3fee2fb 100644
--- a/lib/mnml/io/in.c
+++ b/lib/mnml/io/in.c
@@ -43,6 +43,13 @@ lisp_function_in(const lisp_t lisp, const atom_t closure)
       if (!lisp_is_string(CHAN)) {
         return lisp_make_nil(lisp);
       }
+      /*
+       * Paths too long for the system are refused, not cut.
+       */
+      if (lisp_len(CHAN) >= PATH_MAX) {
+        ERROR("Path too long");
+        return lisp_make_nil(lisp);
+      }
       /*
        * Get the filepath.
        */
diff --git a/lib/mnml/io/out.c b/lib/mnml/io/out.c
index fd122da..4a4f6db 100644
--- a/lib/mnml/io/out.c
+++ b/lib/mnml/io/out.c
@@ -48,6 +48,13 @@ lisp_function_out(const lisp_t lisp, const atom_t closure)
       if (!lisp_is_string(CHAN)) {
         return lisp_make_nil(lisp);
       }
+      /*
+       * Paths too long for the system are refused, not cut.
+       */
+      if (lisp_len(CHAN) >= PATH_MAX) {
+        ERROR("Path too long");
+        return lisp_make_nil(lisp);
+      }
       /*
        * Get the filepath.
        */
diff --git a/lib/mnml/std/load.c b/lib/mnml/std/load.c
index 5a4bc80..f2aaba8 100644
--- a/lib/mnml/std/load.c
+++ b/lib/mnml/std/load.c
@@ -35,6 +35,15 @@ lisp_load(const lisp_t lisp, const atom_t closure, const atom_t cell)
        * If it's a string, load it as a script.
        */
       if (lisp_is_string(car)) {
+        /*
+         * Paths too long for the system are refused, not cut.
+         */
+        if (lisp_len(car) >= PATH_MAX) {
+          ERROR("Path too long");
+          X(lisp, car);
+          res = lisp_make_nil(lisp);
+          break;
+        }
         /*
          * Construct the file name.
          */
diff --git a/lib/mnml/unix/unlink.c b/lib/mnml/unix/unlink.c
index 20a2b13..130b28d 100644
--- a/lib/mnml/unix/unlink.c
+++ b/lib/mnml/unix/unlink.c
@@ -9,9 +9,9 @@ lisp_function_unlink(const lisp_t lisp, const atom_t closure)
 {
   LISP_ARGS(closure, C, NAME);
   /*
-   * Make sure the argument is a string.
+   * Make sure the argument is a string, and not too long for the system.
    */
-  if (!lisp_is_string(NAME)) {
+  if (!lisp_is_string(NAME) || lisp_len(NAME) >= PATH_MAX) {
     return lisp_make_nil(lisp);
   }
   /*
-- 
2.43.0


From 4ec7b187bfbc8207329117b40b93d6c8225ba35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:12 +0000
Subject: [PATCH 63/64] fix: drop the list of names when a library cannot be
 loaded

---
 lib/core/module.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/core/module.c b/lib/core/module.c
index 63cf2fe..7b61cdc 100644
--- a/lib/core/module.c
+++ b/lib/core/module.c
@@ -377,6 +377,7 @@ module_load_binary(const char* const path, const lisp_t lisp, const atom_t name,
      */
     handle = module_load_at_path(path, bsym);
     if (handle == NULL) {
+      X(lisp, symbols);
       return lisp_make_nil(lisp);
     }
     /*
@@ -390,6 +391,7 @@ module_load_binary(const char* const path, const lisp_t lisp, const atom_t name,
   const module_entry_t* (*entries)() = dlsym(handle, "lisp_module_entries");
   if (entries == NULL) {
     DLCLOSE(add_to_cache, handle);
+    X(lisp, symbols);
     return lisp_make_nil(lisp);
   }
   /*
-- 
2.43.0


From 215373702db6da221dd6ce5e150f51b312f72875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:17 +0000
Subject: [PATCH 64/64] fix: select only closes what is a descriptor

---
 lib/mnml/unix/select.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/mnml/unix/select.c b/lib/mnml/unix/select.c
index 220b300..d21f574 100644
--- a/lib/mnml/unix/select.c
+++ b/lib/mnml/unix/select.c
@@ -89,7 +89,9 @@ process_r(const lisp_t lisp, const atom_t closure, const atom_t fds,
     }
     case T_NIL: {
       X(lisp, act);
-      close(CAR(fds)->number);
+      if (IS_NUMB(CAR(fds))) {
+        close(CAR(fds)->number);
+      }
       return process_r(lisp, closure, CDR(fds), cb, set);
     }
     default: {
-- 
2.43.0

