/*
** $Id: lundump.c,v 2.7.1.4 2008/04/04 19:51:41 roberto Exp $
** load precompiled Lua chunks
** See Copyright Notice in lua.h
*/

#include <string.h>

#define lundump_c
#define LUA_CORE

#include "lua.h"

#include "ldebug.h"
#include "ldo.h"
#include "lfunc.h"
#include "lmem.h"
#include "lobject.h"
#include "lstring.h"
#include "lundump.h"
#include "lzio.h"

typedef struct {
 lua_State* L;
 ZIO* Z;
 Mbuffer* b;
 const char* name;
} LoadState;

#ifdef LUAC_TRUST_BINARIES
#define IF(c,s)
#define error(S,s)
#else
#define IF(c,s)		if (c) error(S,s)

static void error(LoadState* S, const char* why)
{
 luaO_pushfstring(S->L,"%s: %s in precompiled chunk",S->name,why);
 luaD_throw(S->L,LUA_ERRSYNTAX);
}
#endif

#define	LoadByte(S)		(lu_byte)LoadChar(S)

static void LoadBlock(LoadState* S, void* b, size_t size)
{
 size_t r=luaZ_read(S->Z,b,size);
 IF (r!=0, "unexpected end");
}

static unsigned long long LoadRaw(LoadState* S, int width)
{
 unsigned char b[8]; int i; unsigned long long x=0;
 LoadBlock(S,b,width);
 for (i=0; i<width; i++) x|=(unsigned long long)b[LV.d_little ? i : width-1-i]<<(8*i);
 return x;
}

static int LoadChar(LoadState* S)
{
 char x;
 LoadBlock(S,&x,1);
 return x;
}

static int LoadInt(LoadState* S)
{
 unsigned long long r=LoadRaw(S,LV.d_int);
 IF (r>0x7fffffff, "bad integer");
 return (int)r;
}

static lua_Number LoadNumber(LoadState* S)
{
 lua_Number x;
 unsigned long long r=LoadRaw(S,sizeof(lua_Number));
 memcpy(&x,&r,sizeof(x));
 return x;
}

static TString* LoadString(LoadState* S)
{
 size_t size=LoadRaw(S,LV.d_size);
 if (size==0)
  return NULL;
 else
 {
  char* s;
  IF (size>100000000, "huge string");
  s=luaZ_openspace(S->L,S->b,size);
  LoadBlock(S,s,size);
  return luaS_newlstr(S->L,s,size-1);		/* remove trailing '\0' */
 }
}

static void LoadCode(LoadState* S, Proto* f)
{
 int n=LoadInt(S);
 f->code=luaM_newvector(S->L,n,Instruction);
 f->sizecode=n;
 { int i; for (i=0; i<n; i++) { f->code[i]=LoadRaw(S,LV.d_instr); if (LV.mode50) f->code[i]=lv_from50(f->code[i]); } }
}

static Proto* LoadFunction(LoadState* S, TString* p);

static void LoadConstants(LoadState* S, Proto* f)
{
 int i,n;
 n=LoadInt(S);
 f->k=luaM_newvector(S->L,n,TValue);
 f->sizek=n;
 for (i=0; i<n; i++) setnilvalue(&f->k[i]);
 for (i=0; i<n; i++)
 {
  TValue* o=&f->k[i];
  int t=LoadChar(S);
  switch (t)
  {
   case LUA_TNIL:
   	setnilvalue(o);
	break;
   case LUA_TBOOLEAN:
   	setbvalue(o,LoadChar(S)!=0);
	break;
   case LUA_TNUMBER:
	setnvalue(o,LoadNumber(S));
	break;
   case LUA_TSTRING:
	setsvalue2n(S->L,o,LoadString(S));
	break;
   default:
	error(S,"bad constant");
	break;
  }
 }
}

static void LoadProtos(LoadState* S, Proto* f)
{
 int i,n;
 n=LoadInt(S);
 f->p=luaM_newvector(S->L,n,Proto*);
 f->sizep=n;
 for (i=0; i<n; i++) f->p[i]=NULL;
 for (i=0; i<n; i++) f->p[i]=LoadFunction(S,f->source);
}

static void LoadDebug(LoadState* S, Proto* f)
{
 int i,n;
 n=LoadInt(S);
 f->lineinfo=luaM_newvector(S->L,n,int);
 f->sizelineinfo=n;
 for (i=0; i<n; i++) f->lineinfo[i]=LoadInt(S);
 n=LoadInt(S);
 f->locvars=luaM_newvector(S->L,n,LocVar);
 f->sizelocvars=n;
 for (i=0; i<n; i++) f->locvars[i].varname=NULL;
 for (i=0; i<n; i++)
 {
  f->locvars[i].varname=LoadString(S);
  f->locvars[i].startpc=LoadInt(S);
  f->locvars[i].endpc=LoadInt(S);
 }
 n=LoadInt(S);
 f->upvalues=luaM_newvector(S->L,n,TString*);
 f->sizeupvalues=n;
 for (i=0; i<n; i++) f->upvalues[i]=NULL;
 for (i=0; i<n; i++) f->upvalues[i]=LoadString(S);
}

static Proto* LoadFunction(LoadState* S, TString* p)
{
 Proto* f;
 if (++S->L->nCcalls > LUAI_MAXCCALLS) error(S,"code too deep");
 f=luaF_newproto(S->L);
 setptvalue2s(S->L,S->L->top,f); incr_top(S->L);
 f->source=LoadString(S); if (f->source==NULL) f->source=p;
 f->linedefined=LoadInt(S);
 f->lastlinedefined=LV.mode50 ? f->linedefined : LoadInt(S);
 f->nups=LoadByte(S);
 f->numparams=LoadByte(S);
 f->is_vararg=LoadByte(S);
 f->maxstacksize=LoadByte(S);
 if (LV.mode50)
 {
  if (f->is_vararg) f->is_vararg = VARARG_HASARG | VARARG_NEEDSARG | VARARG_ISVARARG;
  LoadDebug(S,f);
  LoadConstants(S,f);
  LoadProtos(S,f);
  LoadCode(S,f);
 }
 else
 {
  LoadCode(S,f);
  LoadConstants(S,f);
  LoadProtos(S,f);
  LoadDebug(S,f);
  IF (!luaG_checkcode(f), "bad code");
 }
 S->L->top--;
 S->L->nCcalls--;
 return f;
}

static void LoadHeader(LoadState* S)
{
 char h[LUAC_HEADERSIZE];
 char s[LUAC_HEADERSIZE];
 int n=luaU_header(h);
 LoadBlock(S,s,n);
 IF (memcmp(h,s,n)!=0, "bad header");
 if (LV.mode50) LoadNumber(S);
}

/*
** load precompiled chunk
*/
Proto* luaU_undump (lua_State* L, ZIO* Z, Mbuffer* buff, const char* name)
{
 LoadState S;
 if (*name=='@' || *name=='=')
  S.name=name+1;
 else if (*name==LV.sig[0])
  S.name="binary string";
 else
  S.name=name;
 S.L=L;
 S.Z=Z;
 S.b=buff;
 LoadHeader(&S);
 return LoadFunction(&S,luaS_newliteral(L,"=?"));
}

/*
* make header
*/
int luaU_header (char* h)
{
 char* h0=h;
 memcpy(h,LV.sig,LV.siglen);
 h+=LV.siglen;
 *h++=(char)(LV.mode50 ? 0x50 : LUAC_VERSION);
 if (!LV.mode50) *h++=(char)LV.d_format;
 *h++=(char)LV.d_little;			/* endianness */
 *h++=(char)LV.d_int;
 *h++=(char)LV.d_size;
 *h++=(char)LV.d_instr;
 if (LV.mode50)
 {
  *h++=(char)LV.l50_op; *h++=(char)LV.l50_a; *h++=(char)LV.l50_b; *h++=(char)LV.l50_c;
  *h++=(char)sizeof(lua_Number);
 }
 else
 {
 *h++=(char)sizeof(lua_Number);
 *h++=(char)(((lua_Number)0.5)==0);		/* is lua_Number integral? */
 }
 return (int)(h-h0);
}
