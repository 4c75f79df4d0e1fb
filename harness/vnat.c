/* Built-in functions of three and four arguments: the list of what they got. */
#include <mnml/lisp.h>
#include <mnml/module.h>
#include <mnml/slab.h>

static atom_t USED
lisp_function_n3(const lisp_t lisp, const atom_t closure)
{
  LISP_ARGS(closure, C, X, Y, Z);
  (void)C;
  return lisp_cons(lisp, UP(X), lisp_cons(lisp, UP(Y), lisp_cons(lisp, UP(Z), lisp_make_nil(lisp))));
}

static atom_t USED
lisp_function_n4(const lisp_t lisp, const atom_t closure)
{
  LISP_ARGS(closure, C, W, X, Y, Z);
  (void)C;
  return lisp_cons(lisp, UP(W), lisp_cons(lisp, UP(X), lisp_cons(lisp, UP(Y), lisp_cons(lisp, UP(Z), lisp_make_nil(lisp)))));
}

LISP_MODULE_SETUP(n3, n3, X, Y, Z, NIL)
LISP_MODULE_SETUP(n4, n4, W, X, Y, Z, NIL)

module_entry_t ENTRIES[] = { LISP_MODULE_REGISTER(n3), LISP_MODULE_REGISTER(n4), { NULL, NULL } };

const char* USED
lisp_module_name()
{
  return "vnat";
}

const module_entry_t* USED
lisp_module_entries()
{
  return ENTRIES;
}
