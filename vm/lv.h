/* Run-time compile constants of the vendored, instrumented Lua (see DESIGN.md). */
#ifndef lv_h
#define lv_h
#include <stddef.h>

typedef struct LVConf {
  char sig[1024];
  int siglen;
  int maxstack;            /* MAXSTACK */
  int fpf;                 /* LFIELDS_PER_FLUSH */
  int size_op, size_a, size_b, size_c;
  int pos_op, pos_a, pos_b, pos_c, pos_bx;
  int max_a, max_b, max_c, max_bx, max_sbx, max_rk;
  int mode50;              /* compile, dump, load and execute Lua 5.0 code */
  int d_little, d_int, d_size, d_instr, d_format;
  int l50_op, l50_a, l50_b, l50_c;             /* 5.0 operand sizes */
  int l50_pop, l50_pa, l50_pb, l50_pc, l50_pbx; /* and positions */
  int novarinfo;           /* leave variable names out of type errors */
  int vararg_arg;          /* 5.1: keep the compatibility local `arg' */
  int no_arg_n;            /* 5.0: leave the field `n' out of `arg' */
} LVConf;

typedef struct LVRun {
  long long steps;         /* in: VM instruction budget; out: instructions used */
  size_t mem;              /* allocation cap in bytes */
  int lines;               /* record the calling line with every event */
  int norm0;               /* print -0 as 0 */
  int status;              /* out: 0 ok, 1 load error, 2 run error, 3 budget, 4 memory */
} LVRun;

typedef struct LVBuf { char *p; size_t n, cap; } LVBuf;

#ifdef LV_NUM_KIND
static LVConf LV;
#endif
#endif
