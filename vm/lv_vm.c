/* One build of the instrumented Lua per number type: -DLV_NUM_KIND=n -DLVP(x)=lv_d_##x */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <setjmp.h>
#include <ctype.h>
#include <limits.h>
#define luaall_c
#define luaX_tokens LVP(luaX_tokens)
#define luaO_nilobject_ LVP(luaO_nilobject_)
#define luaP_opmodes LVP(luaP_opmodes)
#define luaP_opnames LVP(luaP_opnames)
#define luaT_typenames LVP(luaT_typenames)
#define lua_ident LVP(lua_ident)

#include "lua/lapi.c"
#include "lua/lcode.c"
#include "lua/ldebug.c"
#include "lua/ldo.c"
#include "lua/ldump.c"
#include "lua/lfunc.c"
#include "lua/lgc.c"
#include "lua/llex.c"
#include "lua/lmem.c"
#include "lua/lobject.c"
#include "lua/lopcodes.c"
#include "lua/lparser.c"
#include "lua/lstate.c"
#include "lua/lstring.c"
#include "lua/ltable.c"
#include "lua/ltm.c"
#undef error
#include "lua/lvm.c"
#include "lua/lzio.c"
#include "lua/lauxlib.c"
#include "lua/lbaselib.c"
#include "lua/ldblib.c"
#include "lua/lmathlib.c"
#include "lua/lstrlib.c"
#include "lua/ltablib.c"
#include "lua/lundump.c"
#undef error

/* ---- Lua 5.0 instruction encoding ------------------------------------- */

enum { K_ABC, K_ABX };
static const signed char lv_op50[40] = {
  /* MOVE..SELF */ 0,1,2,3,4,5,6,7,8,9,10,11,
  /* ADD SUB MUL DIV MOD POW UNM NOT LEN CONCAT */ 12,13,14,15,-1,16,17,18,-1,19,
  /* JMP EQ LT LE TEST TESTSET */ 20,21,22,23,24,24,
  /* CALL TAILCALL RETURN FORLOOP FORPREP TFORLOOP SETLIST CLOSE CLOSURE VARARG */
  25,26,27,28,-1,29,31,33,34,-1,
  /* TFORPREP SETLISTO */ 30,32 };

static int lv_isbx (int op) {
  return op == OP_LOADK || op == OP_GETGLOBAL || op == OP_SETGLOBAL || op == OP_JMP || op == OP_FORLOOP ||
         op == OP_TFORPREP || op == OP_SETLIST || op == OP_SETLISTO || op == OP_CLOSURE;
}

static unsigned long long lv_fld (unsigned long long v, int size, int pos) {
  return (v & ((1ULL << size) - 1)) << pos;
}

static unsigned long long lv_get (unsigned long long i, int size, int pos) {
  return (i >> pos) & ((1ULL << size) - 1);
}

static Instruction lv_to50 (Instruction i) {
  int op = GET_OPCODE(i), a = GETARG_A(i), o5 = lv_op50[op];
  Instruction r;
  if (o5 < 0) return 0x3f;
  r = lv_fld(o5, LV.l50_op, LV.l50_pop) | lv_fld(a, LV.l50_a, LV.l50_pa);
  if (lv_isbx(op))
    return r | lv_fld(GETARG_Bx(i), LV.l50_b + LV.l50_c, LV.l50_pbx);
  else {
    int b = GETARG_B(i), c = GETARG_C(i);
    if (getBMode(op) == OpArgK && ISK(b)) b = INDEXK(b) + LV.maxstack;
    if (getCMode(op) == OpArgK && ISK(c)) c = INDEXK(c) + LV.maxstack;
    if (op == OP_TEST) b = a;
    if (op == OP_NEWTABLE) { int n = luaO_fb2int(c); c = n ? luaO_log2(n) + 1 : 0; }
    return r | lv_fld(b, LV.l50_b, LV.l50_pb) | lv_fld(c, LV.l50_c, LV.l50_pc);
  }
}

static Instruction lv_from50 (Instruction i) {
  int o5 = (int)lv_get(i, LV.l50_op, LV.l50_pop), a = (int)lv_get(i, LV.l50_a, LV.l50_pa), op;
  for (op = 0; op < 40; op++) if (lv_op50[op] == o5) break;
  if (op == 40) return CREATE_ABC(OP_CLOSE, 0, 0, 0);
  if (op == OP_TEST) op = OP_TESTSET;
  if (lv_isbx(op))
    return CREATE_ABx(op, a, lv_get(i, LV.l50_b + LV.l50_c, LV.l50_pbx));
  else {
    int b = (int)lv_get(i, LV.l50_b, LV.l50_pb), c = (int)lv_get(i, LV.l50_c, LV.l50_pc);
    if (getBMode(op) == OpArgK && b >= LV.maxstack) b = RKASK(b - LV.maxstack);
    if (getCMode(op) == OpArgK && c >= LV.maxstack) c = RKASK(c - LV.maxstack);
    if (op == OP_NEWTABLE) { b = 0; c = 0; }
    return CREATE_ABC(op, a, b, c);
  }
}

/* ---- host ------------------------------------------------------------- */

typedef struct Host {
  LVBuf *out;
  LVRun *run;
  size_t used;
  long long left;
  int overbudget, overmem;
  int nextid;
} Host;

static Host *H;

static void b_put (LVBuf *b, const void *p, size_t n) {
  if (b->n + n + 1 > b->cap) {
    size_t c = b->cap * 2 + n + 256;
    b->p = (char *)realloc(b->p, c);
    b->cap = c;
  }
  memcpy(b->p + b->n, p, n);
  b->n += n;
}
/* the longest trace */
#define TRACE_MAX (4u << 20)
static void b_str (LVBuf *b, const char *s) { b_put(b, s, strlen(s)); }
void LVP(free) (LVBuf *b) { free(b->p); b->p = NULL; b->n = b->cap = 0; }

static void *h_alloc (void *ud, void *ptr, size_t osize, size_t nsize) {
  Host *h = (Host *)ud;
  if (nsize == 0) { h->used -= osize; free(ptr); return NULL; }
  if (nsize > osize && h->used + (nsize - osize) > h->run->mem) { h->overmem = 1; return NULL; }
  ptr = realloc(ptr, nsize);
  if (ptr) h->used += nsize - osize;
  return ptr;
}

#define HOOKSTEP 100
static void h_hook (lua_State *L, lua_Debug *ar) {
  (void)ar;
  H->left -= HOOKSTEP;
  if (H->left < 0 || H->out->n > TRACE_MAX) { H->overbudget = 1; lua_sethook(L, h_hook, LUA_MASKCOUNT, 1); luaL_error(L, "BUDGET"); }
}

static void h_num (lua_Number v) {
  char b[64];
#if LV_NUM_KIND < 2
  double d = v;
  if (d != d) { b_str(H->out, "nan"); return; }
  if (d == 0 && H->run->norm0) d = 0;
  if (d == floor(d) && fabs(d) < 1e15) sprintf(b, "%.0f", d);
  else sprintf(b, "%.17g", d);
#else
  sprintf(b, "%lld", (long long)v);
#endif
  b_str(H->out, b);
}

static void h_bytes (const char *s, size_t n) {
  size_t i, lim = n > 400 ? 400 : n;
  char b[64];
  b_str(H->out, "\"");
  for (i = 0; i < lim; i++) {
    unsigned char c = (unsigned char)s[i];
    if (c >= 32 && c < 127 && c != '"' && c != '\\') b_put(H->out, &s[i], 1);
    else { sprintf(b, "\\%03d", c); b_str(H->out, b); }
  }
  b_str(H->out, "\"");
  if (n > lim) {
    unsigned long long h = 1469598103934665603ULL;
    for (i = 0; i < n; i++) h = (h ^ (unsigned char)s[i]) * 1099511628211ULL;
    sprintf(b, "+%zu#%llx", n, h);
    b_str(H->out, b);
  }
}

/* identity number of the collectable value at idx, in order of first use; returns 1 if new */
static int h_id (lua_State *L, int idx, int *id) {
  int fresh = 0;
  if (idx < 0) idx = lua_gettop(L) + idx + 1;
  lua_getfield(L, LUA_REGISTRYINDEX, "lv.ids");
  lua_pushvalue(L, idx);
  lua_rawget(L, -2);
  if (lua_isnil(L, -1)) {
    lua_pop(L, 1);
    *id = ++H->nextid;
    lua_pushvalue(L, idx);
    lua_pushinteger(L, *id);
    lua_rawset(L, -3);
    fresh = 1;
    lua_pop(L, 1);
  } else {
    *id = (int)lua_tointeger(L, -1);
    lua_pop(L, 2);
  }
  return fresh;
}

typedef struct Key { int rank; double num; const char *s; size_t n; lua_Number raw; } Key;

static int keycmp (const void *pa, const void *pb) {
  const Key *a = (const Key *)pa, *b = (const Key *)pb;
  if (a->rank != b->rank) return a->rank < b->rank ? -1 : 1;
  if (a->rank == 2) {
    size_t m = a->n < b->n ? a->n : b->n;
    int c = memcmp(a->s, b->s, m);
    if (c) return c;
    return a->n < b->n ? -1 : a->n > b->n;
  }
  return a->num < b->num ? -1 : a->num > b->num;
}

static void h_key (lua_State *L, int idx, Key *k) {
  int t = lua_type(L, idx);
  memset(k, 0, sizeof *k);
  if (t == LUA_TNUMBER) { k->rank = 1; k->raw = lua_tonumber(L, idx); k->num = (double)k->raw; }
  else if (t == LUA_TSTRING) { k->rank = 2; k->s = lua_tolstring(L, idx, &k->n); }
  else if (t == LUA_TBOOLEAN) { k->rank = 3; k->num = lua_toboolean(L, idx); }
  else { int id; h_id(L, idx, &id); k->rank = 4; k->num = id; }
}

static void h_value (lua_State *L, int idx, int depth) {
  char b[64];
  int id;
  if (H->out->n > TRACE_MAX) return;
  if (idx < 0) idx = lua_gettop(L) + idx + 1;
  switch (lua_type(L, idx)) {
    case LUA_TNONE: b_str(H->out, "none"); break;
    case LUA_TNIL: b_str(H->out, "nil"); break;
    case LUA_TBOOLEAN: b_str(H->out, lua_toboolean(L, idx) ? "true" : "false"); break;
    case LUA_TNUMBER: h_num(lua_tonumber(L, idx)); break;
    case LUA_TSTRING: { size_t n; const char *s = lua_tolstring(L, idx, &n); h_bytes(s, n); break; }
    case LUA_TTABLE: {
      Key *keys; size_t n = 0, i, run = 0;
      h_id(L, idx, &id);
      sprintf(b, "T%d", id); b_str(H->out, b);
      if (depth <= 0) break;
      luaL_checkstack(L, 8, "emit");
      lua_pushnil(L);
      while (lua_next(L, idx)) { n++; lua_pop(L, 1); }
      keys = (Key *)lua_newuserdata(L, (n + 1) * sizeof(Key));
      i = 0;
      lua_pushnil(L);
      while (lua_next(L, idx)) { lua_pop(L, 1); if (i < n) h_key(L, -1, &keys[i++]); }
      n = i;
      qsort(keys, n, sizeof(Key), keycmp);
      b_str(H->out, "{");
      for (i = 0; i < n; i++) {
        if (i) b_str(H->out, ",");
        if (keys[i].rank == 1 && keys[i].raw == (lua_Number)(run + 1)) {   /* sequence part */
          run++;
          lua_rawgeti(L, idx, (int)run);
          h_value(L, -1, depth - 1);
          lua_pop(L, 1);
          continue;
        }
        b_str(H->out, "[");
        if (keys[i].rank == 1) { lua_pushnumber(L, keys[i].raw); h_num(keys[i].raw); }
        else if (keys[i].rank == 2) { lua_pushlstring(L, keys[i].s, keys[i].n); h_bytes(keys[i].s, keys[i].n); }
        else if (keys[i].rank == 3) { lua_pushboolean(L, (int)keys[i].num); b_str(H->out, keys[i].num ? "true" : "false"); }
        else { sprintf(b, "#%.0f]", keys[i].num); b_str(H->out, b); continue; }
        b_str(H->out, "]=");
        lua_rawget(L, idx);
        h_value(L, -1, depth - 1);
        lua_pop(L, 1);
      }
      b_str(H->out, "}");
      lua_pop(L, 1);
      break;
    }
    default:
      h_id(L, idx, &id);
      sprintf(b, "%c%d", lua_type(L, idx) == LUA_TFUNCTION ? 'F' : 'U', id);
      b_str(H->out, b);
  }
}

static void h_event (lua_State *L, const char *kind) {
  int i, n = lua_gettop(L);
  char b[64];
  b_str(H->out, kind);
  if (H->run->lines) {
    lua_Debug ar;
    int line = -2;
    if (lua_getstack(L, 1, &ar)) { lua_getinfo(L, "l", &ar); line = ar.currentline; }
    sprintf(b, "@%d", line);
    b_str(H->out, b);
  }
  b_str(H->out, "(");
  for (i = 1; i <= n; i++) { if (i > 1) b_str(H->out, ","); h_value(L, i, 5); }
  b_str(H->out, ")\n");
  if (H->out->n > TRACE_MAX) { H->overbudget = 1; lua_sethook(L, h_hook, LUA_MASKCOUNT, 1); luaL_error(L, "BUDGET"); }
}

static int l_emit (lua_State *L) { h_event(L, "e"); return 0; }
static int l_pass (lua_State *L) { h_event(L, "p"); return lua_gettop(L); }
/* loc() records the named locals of its caller, with their values */
static int l_loc (lua_State *L) {
  lua_Debug ar;
  int i, first = 1;
  const char *name;
  char b[64];
  lua_settop(L, 0);
  if (!lua_getstack(L, 1, &ar)) return 0;
  lua_getinfo(L, "l", &ar);
  b_str(H->out, "l");
  if (H->run->lines) { sprintf(b, "@%d", ar.currentline); b_str(H->out, b); }
  b_str(H->out, "(");
  for (i = 1; (name = lua_getlocal(L, &ar, i)) != NULL; i++) {
    if (name[0] != '(') {
      if (!first) b_str(H->out, ",");
      first = 0;
      b_str(H->out, name);
      b_str(H->out, "=");
      h_value(L, -1, 3);
    }
    lua_pop(L, 1);
  }
  b_str(H->out, ")\n");
  return 0;
}
/* inf() records what the debug interface says about the functions on the stack */
static int l_inf (lua_State *L) {
  lua_Debug ar;
  int i;
  char b[200];
  for (i = 1; i < 12 && lua_getstack(L, i, &ar); i++) {
    lua_getinfo(L, "Slu", &ar);
    sprintf(b, "i(%s,%s", ar.what, ar.short_src); b_str(H->out, b);
    if (H->run->lines) { sprintf(b, ",%d", ar.currentline); b_str(H->out, b); }
    sprintf(b, ",%d,%d)\n", ar.linedefined, ar.nups); b_str(H->out, b);
  }
  return 0;
}
/* v(n, x...) records nothing and returns its last n arguments */
static int l_ret (lua_State *L) { return lua_gettop(L); }
/* mute(f, ...) calls f with tracing of its own: used to nest pcall-like probes */
static int l_try (lua_State *L) {
  int n = lua_gettop(L), st;
  st = lua_pcall(L, n - 1, LUA_MULTRET, 0);
  if (st && (H->overbudget || H->overmem)) return lua_error(L);
  lua_pushboolean(L, st == 0);
  lua_insert(L, 1);
  return lua_gettop(L);
}

/* next in canonical key order, so that traversals do not depend on table layout */
static int l_next (lua_State *L) {
  Key k, cur, best;
  int have = 0, start;
  luaL_checktype(L, 1, LUA_TTABLE);
  lua_settop(L, 2);
  start = lua_isnil(L, 2);
  if (!start) h_key(L, 2, &cur);
  lua_pushnil(L);              /* 3: best key */
  lua_pushnil(L);
  while (lua_next(L, 1)) {
    lua_pop(L, 1);
    h_key(L, -1, &k);
    if ((start || keycmp(&k, &cur) > 0) && (!have || keycmp(&k, &best) < 0)) {
      have = 1; best = k;
      lua_pushvalue(L, -1);
      lua_replace(L, 3);
    }
  }
  if (!have) { lua_pushnil(L); return 1; }
  lua_settop(L, 3);
  lua_pushvalue(L, 3);
  lua_rawget(L, 1);
  return 2;
}

static int l_pairs (lua_State *L) {
  luaL_checktype(L, 1, LUA_TTABLE);
  lua_getglobal(L, "next");
  lua_pushvalue(L, 1);
  lua_pushnil(L);
  return 3;
}

static void h_lib (lua_State *L, const char *name, lua_CFunction f) {
  lua_pushcfunction(L, f);
  lua_pushstring(L, name);
  lua_call(L, 1, 0);
}

static int h_open (lua_State *L) {
  h_lib(L, "", luaopen_base);
  h_lib(L, LUA_TABLIBNAME, luaopen_table);
  h_lib(L, LUA_STRLIBNAME, luaopen_string);
  h_lib(L, LUA_MATHLIBNAME, luaopen_math);
  h_lib(L, LUA_DBLIBNAME, luaopen_debug);
  lua_newtable(L);
  lua_setfield(L, LUA_REGISTRYINDEX, "lv.ids");
  lua_register(L, "emit", l_emit);
  lua_register(L, "p", l_pass);
  lua_register(L, "ret", l_ret);
  lua_register(L, "try", l_try);
  lua_register(L, "loc", l_loc);
  lua_register(L, "inf", l_inf);
  lua_register(L, "next", l_next);
  lua_register(L, "pairs", l_pairs);
  lua_pushnil(L); lua_setglobal(L, "print");
  lua_pushnil(L); lua_setglobal(L, "dofile");
  lua_pushnil(L); lua_setglobal(L, "loadfile");
  lua_pushnil(L); lua_setglobal(L, "collectgarbage");
  lua_pushnil(L); lua_setglobal(L, "gcinfo");
  return 0;
}

static int h_writer (lua_State *L, const void *p, size_t sz, void *ud) {
  (void)L;
  b_put((LVBuf *)ud, p, sz);
  return 0;
}

/* compile source: 0 and the chunk in out, or 1 and the message */
int LVP(compile) (const LVConf *conf, const char *src, size_t n, const char *name, int strip, LVBuf *out) {
  Host h; LVRun r;
  lua_State *L;
  int st;
  LV = *conf;
  memset(&h, 0, sizeof h); memset(&r, 0, sizeof r);
  r.mem = (size_t)512 << 20; h.run = &r; h.out = out; H = &h;
  L = lua_newstate(h_alloc, &h);
  if (!L) return 2;
  st = luaL_loadbuffer(L, src, n, name);
  if (st == 0) {
    Proto *f = clvalue(L->top - 1)->l.p;
    luaU_dump(L, f, h_writer, out, strip);
  } else {
    const char *m = lua_tostring(L, -1);
    b_str(out, m ? m : "?");
  }
  lua_close(L);
  return st != 0;
}

/* run source or a chunk; the trace goes to out */
int LVP(run) (const LVConf *conf, LVRun *run, const char *chunk, size_t n, const char *name, LVBuf *out) {
  Host h;
  lua_State *L;
  int st, i;
  long long budget = run->steps;
  LV = *conf;
  memset(&h, 0, sizeof h);
  h.run = run; h.out = out; h.left = budget; H = &h;
  run->status = 4;
  L = lua_newstate(h_alloc, &h);
  if (!L) return 4;
  if (lua_cpcall(L, h_open, NULL)) { lua_close(L); return 4; }
  st = luaL_loadbuffer(L, chunk, n, name);
  if (st) {
    run->status = 1;
    b_str(out, "load error: ");
    if (lua_isstring(L, -1)) b_str(out, lua_tostring(L, -1));
    b_str(out, "\n");
  } else {
    lua_sethook(L, h_hook, LUA_MASKCOUNT, HOOKSTEP);
    st = lua_pcall(L, 0, LUA_MULTRET, 0);
    lua_sethook(L, NULL, 0, 0);
    run->mem = (size_t)1 << 40;   /* serialising the result is not part of the run */
    if (st == 0) {
      run->status = 0;
      b_str(out, "return(");
      for (i = 1; i <= lua_gettop(L) && !h.overmem; i++) { if (i > 1) b_str(out, ","); h_value(L, i, 5); }
      b_str(out, ")\n");
    } else {
      run->status = 2;
      b_str(out, "error(");
      h_value(L, -1, 5);
      b_str(out, ")\n");
    }
  }
  if (h.overmem) run->status = 4;
  if (h.overbudget) run->status = 3;
  run->steps = budget - h.left;
  lua_close(L);
  return run->status;
}
