/*
** $Id: ldump.c,v 2.8.1.1 2007/12/27 13:02:25 roberto Exp $
** save precompiled Lua chunks
** See Copyright Notice in lua.h
*/

#include <stddef.h>
#include <string.h>

#define ldump_c
#define LUA_CORE

#include "lua.h"

#include "lobject.h"
#include "lstate.h"
#include "lundump.h"

typedef struct {
 lua_State* L;
 lua_Writer writer;
 void* data;
 int strip;
 int status;
} DumpState;


static void DumpBlock(const void* b, size_t size, DumpState* D)
{
 if (D->status==0)
 {
  lua_unlock(D->L);
  D->status=(*D->writer)(D->L,b,size,D->data);
  lua_lock(D->L);
 }
}

/* LV: every scalar is written with the configured endianness and width */
static void DumpRaw(unsigned long long x, int width, DumpState* D)
{
 unsigned char b[8]; int i;
 for (i=0; i<width; i++) b[LV.d_little ? i : width-1-i]=(unsigned char)(x>>(8*i));
 DumpBlock(b,width,D);
}

static void DumpChar(int y, DumpState* D) { char x=(char)y; DumpBlock(&x,1,D); }
static void DumpInt(int x, DumpState* D) { DumpRaw((unsigned long long)(long long)x,LV.d_int,D); }
static void DumpSize(size_t x, DumpState* D) { DumpRaw(x,LV.d_size,D); }
static void DumpInstr(Instruction x, DumpState* D) { DumpRaw(x,LV.d_instr,D); }
static void DumpNumber(lua_Number x, DumpState* D)
{
 unsigned long long r=0;
 memcpy(&r,&x,sizeof(x));
 DumpRaw(r,sizeof(lua_Number),D);
}

static void DumpString(const TString* s, DumpState* D)
{
 if (s==NULL || getstr(s)==NULL)
 {
  size_t size=0;
  DumpSize(size,D);
 }
 else
 {
  size_t size=s->tsv.len+1;		/* include trailing '\0' */
  DumpSize(size,D);
  DumpBlock(getstr(s),size,D);
 }
}

static void DumpCode(const Proto* f, DumpState* D)
{
 int i;
 DumpInt(f->sizecode,D);
 for (i=0; i<f->sizecode; i++) DumpInstr(LV.mode50 ? lv_to50(f->code[i]) : f->code[i],D);
}


static void DumpFunction(const Proto* f, const TString* p, DumpState* D);

static void DumpConstants(const Proto* f, DumpState* D)
{
 int i,n=f->sizek;
 DumpInt(n,D);
 for (i=0; i<n; i++)
 {
  const TValue* o=&f->k[i];
  DumpChar(ttype(o),D);
  switch (ttype(o))
  {
   case LUA_TNIL:
	break;
   case LUA_TBOOLEAN:
	DumpChar(bvalue(o),D);
	break;
   case LUA_TNUMBER:
	DumpNumber(nvalue(o),D);
	break;
   case LUA_TSTRING:
	DumpString(rawtsvalue(o),D);
	break;
   default:
	lua_assert(0);			/* cannot happen */
	break;
  }
 }
}

static void DumpProtos(const Proto* f, DumpState* D)
{
 int i,n=f->sizep;
 DumpInt(n,D);
 for (i=0; i<n; i++) DumpFunction(f->p[i],f->source,D);
}

static void DumpDebug(const Proto* f, DumpState* D)
{
 int i,n;
 n= (D->strip) ? 0 : f->sizelineinfo;
 DumpInt(n,D);
 for (i=0; i<n; i++) DumpInt(f->lineinfo[i],D);
 n= (D->strip) ? 0 : f->sizelocvars;
 DumpInt(n,D);
 for (i=0; i<n; i++)
 {
  DumpString(f->locvars[i].varname,D);
  DumpInt(f->locvars[i].startpc,D);
  DumpInt(f->locvars[i].endpc,D);
 }
 n= (D->strip) ? 0 : f->sizeupvalues;
 DumpInt(n,D);
 for (i=0; i<n; i++) DumpString(f->upvalues[i],D);
}

static void DumpFunction(const Proto* f, const TString* p, DumpState* D)
{
 DumpString((f->source==p || D->strip) ? NULL : f->source,D);
 DumpInt(f->linedefined,D);
 if (!LV.mode50) DumpInt(f->lastlinedefined,D);
 DumpChar(f->nups,D);
 DumpChar(f->numparams,D);
 DumpChar(LV.mode50 ? (f->is_vararg!=0) : f->is_vararg,D);
 DumpChar(f->maxstacksize,D);
 if (LV.mode50)
 {
  DumpDebug(f,D);
  DumpConstants(f,D);
  DumpProtos(f,D);
  DumpCode(f,D);
  return;
 }
 DumpCode(f,D);
 DumpConstants(f,D);
 DumpProtos(f,D);
 DumpDebug(f,D);
}

static void DumpHeader(DumpState* D)
{
 char h[LUAC_HEADERSIZE];
 DumpBlock(h,luaU_header(h),D);
 if (LV.mode50) DumpNumber((lua_Number)3.14159265358979323846E7,D);
}

/*
** dump Lua function as precompiled chunk
*/
int luaU_dump (lua_State* L, const Proto* f, lua_Writer w, void* data, int strip)
{
 DumpState D;
 D.L=L;
 D.writer=w;
 D.data=data;
 D.strip=strip;
 D.status=0;
 DumpHeader(&D);
 DumpFunction(f,NULL,&D);
 return D.status;
}
