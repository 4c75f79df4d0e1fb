/* A module with two functions; VER tells which file was loaded. */
#include <mnml/lisp.h>
#include <mnml/module.h>
#include <mnml/slab.h>

#ifndef VER
#define VER 1
#endif

static atom_t USED
lisp_function_va(const lisp_t lisp, const atom_t closure)
{
  LISP_ARGS(closure, C, X);
  (void)C;
  return lisp_cons(lisp, lisp_make_number(lisp, 100 * VER), UP(X));
}

static atom_t USED
lisp_function_vb(const lisp_t lisp, const atom_t closure)
{
  LISP_ARGS(closure, C, X, Y);
  (void)C;
  return lisp_cons(lisp, lisp_make_number(lisp, 100 * VER + 1), lisp_cons(lisp, UP(Y), UP(X)));
}

LISP_MODULE_SETUP(va, va, X, NIL)
LISP_MODULE_SETUP(vb, vb, X, Y, NIL)

module_entry_t ENTRIES[] = { LISP_MODULE_REGISTER(va), LISP_MODULE_REGISTER(vb), { NULL, NULL } };

#ifndef NO_NAME
const char* USED
lisp_module_name()
{
  return "vmod";
}
#endif

#ifndef NO_ENTRIES
const module_entry_t* USED
lisp_module_entries()
{
  return ENTRIES;
}
#endif
