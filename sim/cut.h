/* Table of the code under test, compiled into every variant's shared object. */
#ifndef CUT_H
#define CUT_H
#ifdef __cplusplus
extern "C" {
#endif
enum { K_VAL, K_PTR, K_ARRN, K_PPARR, K_FILE, K_CHAR };
enum { R_IN, R_OUT, R_INOUT };
enum { D_ANY, D_LEN, D_LEN2, D_EULER, D_MASK2, D_MASK3, D_MASK4, D_IDX2, D_IDX3, D_IDX4, D_NZ, D_PERM3, D_NOMIN };
struct cut_param { const char *name; int kind, role, dom, cn, type, count, restrict_; };
struct cut_fn { const char *name, *file; void (*w)(void **); int ret, np; const struct cut_param *p; };
struct cut_type { const char *name; int size, align; char elem; };
struct cut_table { const struct cut_fn *fns; int nfns; const struct cut_type *types; int ntypes;
  int print_prec; float print_max; const char *color, *color_reset; int inline_prints; int ptrsize; };
#ifdef __cplusplus
}
#endif
#endif
