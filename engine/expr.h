// Hash-consed bit-vector / IEEE-754 expressions with constant folding and light simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <map>
#include <set>
#include <bitset>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cfenv>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;
typedef unsigned __int128 u128; typedef __int128 i128;

enum Op : u8 { OConst, OVar, OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OShl, OLShr, OAShr, OAnd, OOr, OXor,
  OEq, OUlt, OUle, OSlt, OSle, OIte, OConcat, OExtract, OZExt, OSExt,
  // floating point; operand widths (32/64) give the format
  OFAdd, OFSub, OFMul, OFDiv, OFRem, OFSqrt, OFFma, OFRnd /*imm: mode*/, OFEq, OFLt, OFLe, OFIsNan,
  OFToS, OFToU /*result width w*/, OSToF, OUToF, OFExt, OFTrunc };

static const char* OPN[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor",
  "eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","frem","fsqrt","ffma","frnd","feq","flt","fle","fisnan","ftos","ftou","stof","utof","fext","ftrunc"};

struct VarSet { std::vector<u32> v; };
struct Expr {
  Op op; u16 w; u32 id; u32 imm; // imm: extract low bit / var index / rounding mode
  const Expr *a,*b,*c; u128 k; const VarSet* vs; bool fp; u32 depth;
};
typedef const Expr* EP;

static inline u128 maskw(unsigned w){ return w>=128? ~(u128)0 : (((u128)1<<w)-1); }
static inline i128 sx(u128 v, unsigned w){ if(w>=128) return (i128)v; u128 s=(u128)1<<(w-1); v&=maskw(w); return (i128)((v^s)-s); }

struct EKey { Op op; u16 w; u32 imm; EP a,b,c; u128 k; };
struct EHash { size_t operator()(const EKey& e) const { u64 h=e.op*0x9E3779B97F4A7C15ull; auto mix=[&](u64 x){ h^=x+0x9E3779B97F4A7C15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdull; h^=h>>29; }; mix(e.w); mix(e.imm); mix((u64)e.a); mix((u64)e.b); mix((u64)e.c); mix((u64)e.k); mix((u64)(e.k>>64)); return h; } };
struct EEq { bool operator()(const EKey&x,const EKey&y) const { return x.op==y.op&&x.w==y.w&&x.imm==y.imm&&x.a==y.a&&x.b==y.b&&x.c==y.c&&x.k==y.k; } };

struct VarInfo { u16 w; std::string name; };

static std::unordered_map<EKey,EP,EHash,EEq> g_tab;
static std::vector<EP> g_all;
static std::vector<VarInfo> g_vars;
static std::map<std::vector<u32>, const VarSet*> g_vsets;
static const VarSet* vs_intern(const std::vector<u32>& v){ auto it=g_vsets.find(v); if(it!=g_vsets.end()) return it->second; auto*p=new VarSet{v}; g_vsets[v]=p; return p; }
static const VarSet* vs_empty(){ static const VarSet* e=vs_intern({}); return e; }
static std::unordered_map<u64,const VarSet*> g_vsu;
static const VarSet* vs_union(const VarSet* x,const VarSet* y){
  if(x==y||y->v.empty()) return x; if(x->v.empty()) return y;
  if(x>y) std::swap(x,y);
  u64 key=((u64)x*0x9E3779B97F4A7C15ull)^(u64)y;
  auto it=g_vsu.find(key);
  (void)it;
  static std::map<std::pair<const VarSet*,const VarSet*>,const VarSet*> cache;
  auto p=std::make_pair(x,y); auto ci=cache.find(p); if(ci!=cache.end()) return ci->second;
  std::vector<u32> r; std::set_union(x->v.begin(),x->v.end(),y->v.begin(),y->v.end(),std::back_inserter(r));
  return cache[p]=vs_intern(r);
}

static EP intern(Op op,u16 w,u32 imm,EP a,EP b,EP c,u128 k){
  EKey key{op,w,imm,a,b,c,k}; auto it=g_tab.find(key); if(it!=g_tab.end()) return it->second;
  Expr* e=new Expr{op,w,(u32)g_all.size(),imm,a,b,c,k,nullptr,false,0};
  const VarSet* s=vs_empty(); bool fp=op>=OFAdd; u32 d=0;
  if(op==OVar) s=vs_intern({imm});
  for(EP x:{a,b,c}) if(x){ s=vs_union(s,x->vs); fp|=x->fp; d=std::max(d,x->depth); }
  e->vs=s; e->fp=fp; e->depth=d+1; g_all.push_back(e); g_tab.emplace(key,e); return e;
}
static EP mkc(u128 v,u16 w){ return intern(OConst,w,0,0,0,0,v&maskw(w)); }
static inline bool isc(EP e){ return e->op==OConst; }
static inline bool isc(EP e,u128 v){ return e->op==OConst && e->k==(v&maskw(e->w)); }
static EP mkvar(u16 w,const std::string& name){ g_vars.push_back({w,name}); return intern(OVar,w,(u32)g_vars.size()-1,0,0,0,0); }

static EP mk_extract(EP a,u32 lo,u16 w);
static EP mk_concat(EP hi,EP lo);
static EP mk_ite(EP c,EP t,EP f);
static EP mk_bin(Op op,EP a,EP b);
static EP mk_zext(EP a,u16 w);
static EP mk_sext(EP a,u16 w);
static EP mk_not(EP a){ return mk_bin(OXor,a,mkc(~(u128)0,a->w)); }
static EP TRUE_(){ static EP e=mkc(1,1); return e; }
static EP FALSE_(){ static EP e=mkc(0,1); return e; }

static float asf(u128 v){ u32 x=(u32)v; float f; memcpy(&f,&x,4); return f; }
static double asd(u128 v){ u64 x=(u64)v; double f; memcpy(&f,&x,8); return f; }
static u128 ofd(double d){ u64 x; memcpy(&x,&d,8); return x; }
static u128 off(float d){ u32 x; memcpy(&x,&d,4); return x; }

static double rnd_mode(double x,int m){ switch(m){ case 0: return floor(x); case 1: return ceil(x); case 2: return trunc(x); case 3: return round(x); default: return nearbyint(x);} }

// Constant evaluation of one operation.
static u128 fold(Op op,u16 w,u32 imm,u16 aw,u16 bw,u128 a,u128 b,u128 c){
  switch(op){
    case OAdd: return (a+b)&maskw(w); case OSub: return (a-b)&maskw(w); case OMul: return (a*b)&maskw(w);
    case OUDiv: return b? (a/b):maskw(w); case OURem: return b? a%b : a;
    case OSDiv: { i128 x=sx(a,w),y=sx(b,w); if(!y) return x<0?1:maskw(w); if(y==-1) return ((u128)0-(u128)x)&maskw(w); return (u128)(x/y)&maskw(w); }
    case OSRem: { i128 x=sx(a,w),y=sx(b,w); if(!y) return a; if(y==-1) return 0; return (u128)(x%y)&maskw(w); }
    case OShl: return b>=w?0:(a<<(unsigned)b)&maskw(w); case OLShr: return b>=w?0:(a>>(unsigned)b);
    case OAShr: { i128 x=sx(a,w); unsigned s=b>=w?w-1:(unsigned)b; return (u128)(x>>s)&maskw(w); }
    case OAnd: return a&b; case OOr: return a|b; case OXor: return a^b;
    case OEq: return a==b; case OUlt: return a<b; case OUle: return a<=b;
    case OSlt: return sx(a,aw)<sx(b,aw); case OSle: return sx(a,aw)<=sx(b,aw);
    case OIte: return a?b:c; case OConcat: return (a<<bw)|b; case OExtract: return (a>>imm)&maskw(w);
    case OZExt: return a; case OSExt: return (u128)sx(a,aw)&maskw(w);
    case OFAdd: return w==32? off(asf(a)+asf(b)) : ofd(asd(a)+asd(b));
    case OFSub: return w==32? off(asf(a)-asf(b)) : ofd(asd(a)-asd(b));
    case OFMul: return w==32? off(asf(a)*asf(b)) : ofd(asd(a)*asd(b));
    case OFDiv: return w==32? off(asf(a)/asf(b)) : ofd(asd(a)/asd(b));
    case OFRem: return w==32? off(fmodf(asf(a),asf(b))) : ofd(fmod(asd(a),asd(b)));
    case OFSqrt: return w==32? off(sqrtf(asf(a))) : ofd(sqrt(asd(a)));
    case OFFma: return w==32? off(fmaf(asf(a),asf(b),asf(c))) : ofd(fma(asd(a),asd(b),asd(c)));
    case OFRnd: return w==32? off((float)rnd_mode(asf(a),imm)) : ofd(rnd_mode(asd(a),imm));
    case OFEq: return aw==32? asf(a)==asf(b) : asd(a)==asd(b);
    case OFLt: return aw==32? asf(a)<asf(b) : asd(a)<asd(b);
    case OFLe: return aw==32? asf(a)<=asf(b) : asd(a)<=asd(b);
    case OFIsNan: return aw==32? asf(a)!=asf(a) : asd(a)!=asd(a);
    case OFToS: { double d=aw==32?(double)asf(a):asd(a); if(d!=d) return 0; double lim=ldexp(1.0,w-1); if(d>=lim) return maskw(w-1); if(d<=-lim) return (u128)1<<(w-1); return (u128)(i128)d & maskw(w); }
    case OFToU: { double d=aw==32?(double)asf(a):asd(a); if(!(d>0)) return 0; if(d>=ldexp(1.0,w)) return maskw(w); return (u128)d & maskw(w); }
    case OSToF: { i128 x=sx(a,aw); return w==32? off((float)x) : ofd((double)x); }
    case OUToF: return w==32? off((float)a) : ofd((double)a);
    case OFExt: return ofd((double)asf(a)); case OFTrunc: return off((float)asd(a));
    default: fprintf(stderr,"fold op %d\n",op); abort();
  }
}

static bool commut(Op o){ return o==OAdd||o==OMul||o==OAnd||o==OOr||o==OXor||o==OEq; }

static unsigned tz(EP e){ // known trailing zero bits
  switch(e->op){ case OConst: { if(!e->k) return e->w; unsigned n=0; while(!((e->k>>n)&1)) n++; return n; }
    case OShl: if(isc(e->b)) return std::min<u128>(e->w, tz(e->a)+e->b->k); return 0;
    case OMul: return std::min<unsigned>(e->w,tz(e->a)+tz(e->b));
    case OAdd: case OSub: case OOr: case OXor: return std::min(tz(e->a),tz(e->b));
    case OAnd: return std::max(tz(e->a),tz(e->b));
    case OZExt: case OSExt: { unsigned t=tz(e->a); return t==e->a->w? e->w : t; }
    case OConcat: { unsigned t=tz(e->b); return t==e->b->w? t+tz(e->a) : t; }
    case OIte: return std::min(tz(e->b),tz(e->c));
    default: return 0; } }
static unsigned lz(EP e){ // known leading zero bits
  switch(e->op){ case OConst: { unsigned n=0; while(n<e->w && !((e->k>>(e->w-1-n))&1)) n++; return n; }
    case OZExt: return e->w-e->a->w+lz(e->a);
    case OAnd: return std::max(lz(e->a),lz(e->b)); case OOr: case OXor: return std::min(lz(e->a),lz(e->b));
    case OIte: return std::min(lz(e->b),lz(e->c));
    case OLShr: if(isc(e->b)) return std::min<u128>(e->w, lz(e->a)+e->b->k); return lz(e->a);
    case OUDiv: return lz(e->a); case OURem: return std::max(lz(e->a),lz(e->b)); case OConcat: { unsigned l=lz(e->a); return l==e->a->w? l+lz(e->b):l; }
    case OMul: { unsigned s=lz(e->a)+lz(e->b); return s>e->w? s-e->w : 0; }
    case OAdd: { unsigned l=std::min(lz(e->a),lz(e->b)); return l?l-1:0; }
    default: return 0; } }

static EP mk_un(Op op,EP a,u16 w,u32 imm=0){ if(isc(a)) return mkc(fold(op,w,imm,a->w,0,a->k,0,0),w); return intern(op,w,imm,a,0,0,0); }

static EP mk_extract(EP a,u32 lo,u16 w){
  if(lo==0&&w==a->w) return a;
  if(isc(a)) return mkc(a->k>>lo,w);
  switch(a->op){
    case OExtract: return mk_extract(a->a,lo+a->imm,w);
    case OConcat: { u16 bw=a->b->w; if(lo+w<=bw) return mk_extract(a->b,lo,w); if(lo>=bw) return mk_extract(a->a,lo-bw,w);
        return mk_concat(mk_extract(a->a,0,lo+w-bw), mk_extract(a->b,lo,bw-lo)); }
    case OZExt: { u16 aw=a->a->w; if(lo+w<=aw) return mk_extract(a->a,lo,w); if(lo>=aw) return mkc(0,w); return mk_zext(mk_extract(a->a,lo,aw-lo),w); }
    case OSExt: { u16 aw=a->a->w; if(lo+w<=aw) return mk_extract(a->a,lo,w); break; }
    case OAnd: case OOr: case OXor: if(isc(a->b)||isc(a->a)) return mk_bin(a->op,mk_extract(a->a,lo,w),mk_extract(a->b,lo,w)); break;
    case OIte: if(isc(a->b)||isc(a->c)) return mk_ite(a->a,mk_extract(a->b,lo,w),mk_extract(a->c,lo,w)); break;
    case OShl: if(isc(a->b)){ u128 s=a->b->k; if(lo>=s) return mk_extract(a->a,lo-(u32)s,w); if(lo+w<=s) return mkc(0,w); return mk_concat(mk_extract(a->a,0,(u16)(lo+w-s)),mkc(0,(u16)(s-lo))); } break;
    case OLShr: if(isc(a->b)){ u128 s=a->b->k; if(lo+s+w<=a->w) return mk_extract(a->a,lo+(u32)s,w); if(lo+s>=a->w) return mkc(0,w); return mk_zext(mk_extract(a->a,lo+(u32)s,(u16)(a->w-lo-s)),w);} break;
    case OAdd: case OSub: case OMul: if(lo==0) return mk_bin(a->op,mk_extract(a->a,0,w),mk_extract(a->b,0,w)); break;
    default: break; }
  return intern(OExtract,w,lo,a,0,0,0);
}
static EP mk_concat(EP hi,EP lo){
  u16 w=hi->w+lo->w;
  if(isc(hi)&&isc(lo)) return mkc((hi->k<<lo->w)|lo->k,w);
  if(isc(hi,0)) return mk_zext(lo,w);
  if(hi->op==OExtract&&lo->op==OExtract&&hi->a==lo->a&&hi->imm==lo->imm+lo->w) return mk_extract(hi->a,lo->imm,w);
  if(hi->op==OExtract&&hi->a==lo&&hi->imm==lo->w) return mk_extract(hi->a,0,w);
  if(lo->op==OConcat){ EP m=mk_concat(hi,lo->a); if(m->op!=OConcat) return mk_concat(m,lo->b); }
  if(hi->op==OZExt) return mk_zext(mk_concat(hi->a,lo),w);
  return intern(OConcat,w,0,hi,lo,0,0);
}
static EP mk_zext(EP a,u16 w){ if(a->w==w) return a; if(isc(a)) return mkc(a->k,w); if(a->op==OZExt) return mk_zext(a->a,w);
  if(a->op==OIte&&isc(a->b)&&isc(a->c)) return mk_ite(a->a,mk_zext(a->b,w),mk_zext(a->c,w)); return intern(OZExt,w,0,a,0,0,0); }
static EP mk_sext(EP a,u16 w){ if(a->w==w) return a; if(isc(a)) return mkc((u128)sx(a->k,a->w),w); if(a->op==OSExt) return mk_sext(a->a,w); if(a->op==OZExt) return mk_zext(a->a,w);
  if(lz(a)>0) return mk_zext(a,w); if(a->w==1) return mk_ite(a,mkc(~(u128)0,w),mkc(0,w)); return intern(OSExt,w,0,a,0,0,0); }
static EP mk_ite(EP c,EP t,EP f){
  if(isc(c)) return c->k?t:f; if(t==f) return t;
  if(c->op==OXor&&isc(c->b,1)) return mk_ite(c->a,f,t);
  if(t->w==1){ if(isc(t,1)&&isc(f,0)) return c; if(isc(t,0)&&isc(f,1)) return mk_not(c);
    if(isc(t,1)) return mk_bin(OOr,c,f); if(isc(t,0)) return mk_bin(OAnd,mk_not(c),f); if(isc(f,0)) return mk_bin(OAnd,c,t); if(isc(f,1)) return mk_bin(OOr,mk_not(c),t); }
  if(t->op==OIte&&t->a==c) return mk_ite(c,t->b,f); if(f->op==OIte&&f->a==c) return mk_ite(c,t,f->c);
  if(f->op==OIte&&f->b==t) return mk_ite(mk_bin(OOr,c,f->a),t,f->c);
  return intern(OIte,t->w,0,c,t,f,0);
}
static bool implies_const_ite(EP e){ return e->op==OIte&&isc(e->b)&&isc(e->c); }

static EP mk_bin(Op op,EP a,EP b){
  u16 w=a->w; bool cmp=op>=OEq&&op<=OSle; u16 rw=cmp?1:w;
  if(a->w!=b->w){ fprintf(stderr,"width mismatch op %s %d %d\n",OPN[op],a->w,b->w); abort(); }
  if(isc(a)&&isc(b)) return mkc(fold(op,rw,0,a->w,b->w,a->k,b->k,0),rw);
  if(commut(op)&&isc(a)) std::swap(a,b);
  else if(commut(op)&&!isc(b)&&a->id>b->id) std::swap(a,b);
  u128 M=maskw(w);
  switch(op){
    case OAdd: if(isc(b,0)) return a; if(isc(b)&&a->op==OAdd&&isc(a->b)) return mk_bin(OAdd,a->a,mkc(a->b->k+b->k,w));
      if(isc(b)&&implies_const_ite(a)) return mk_ite(a->a,mk_bin(OAdd,a->b,b),mk_bin(OAdd,a->c,b)); break;
    case OSub: if(isc(b,0)) return a; if(a==b) return mkc(0,w); if(isc(b)) return mk_bin(OAdd,a,mkc((u128)0-b->k,w));
      if(a->op==OAdd&&a->a==b) return a->b; if(a->op==OAdd&&a->b==b) return a->a; 
      if(a->op==OAdd&&isc(a->b)&&b->op==OAdd&&isc(b->b)&&a->a==b->a) return mkc(a->b->k-b->b->k,w); break;
    case OMul: if(isc(b,0)) return b; if(isc(b,1)) return a; if(isc(b)&&(b->k&(b->k-1))==0){ unsigned s=0; while(!((b->k>>s)&1)) s++; return mk_bin(OShl,a,mkc(s,w)); } break;
    case OUDiv: if(isc(b,1)) return a; if(isc(b)&&b->k&&(b->k&(b->k-1))==0){ unsigned s=0; while(!((b->k>>s)&1)) s++; return mk_bin(OLShr,a,mkc(s,w)); }
      if(isc(b)&&a->op==OZExt&&b->k<=maskw(a->a->w)&&b->k) return mk_zext(mk_bin(OUDiv,a->a,mkc(b->k,a->a->w)),w); 
      if(unsigned l=std::min(lz(a),lz(b)); l>0&&l<w&&lz(b)<w&&!(isc(b,0))) { EP z=mkc(0,w); if(isc(b)) return mk_zext(mk_bin(OUDiv,mk_extract(a,0,w-l),mk_extract(b,0,w-l)),w); (void)z; } break;
    case OURem: if(isc(b,1)) return mkc(0,w); if(isc(b)&&b->k&&(b->k&(b->k-1))==0) return mk_bin(OAnd,a,mkc(b->k-1,w));
      if(isc(b)&&a->op==OZExt&&b->k<=maskw(a->a->w)&&b->k) return mk_zext(mk_bin(OURem,a->a,mkc(b->k,a->a->w)),w); 
      if(unsigned l=std::min(lz(a),lz(b)); l>0&&l<w) return mk_zext(mk_bin(OURem,mk_extract(a,0,w-l),mk_extract(b,0,w-l)),w); break;
    case OShl: if(isc(b,0)) return a; if(isc(b)&&b->k>=w) return mkc(0,w); 
      if(isc(b)){ u16 s=(u16)b->k; return mk_concat(mk_extract(a,0,w-s),mkc(0,s)); } break;
    case OLShr: if(isc(b,0)) return a; if(isc(b)&&b->k>=w) return mkc(0,w); if(isc(b)){ u16 s=(u16)b->k; EP x=mk_extract(a,s,w-s); return mk_zext(x,w); } break;
    case OAShr: if(isc(b,0)) return a; if(isc(b)&&lz(a)>0) return mk_bin(OLShr,a,b); break;
    case OAnd: if(isc(b,0)) return b; if(isc(b,M)) return a; if(a==b) return a;
      if(isc(b)&&a->op==OAnd&&isc(a->b)) return mk_bin(OAnd,a->a,mkc(a->b->k&b->k,w));
      if(isc(b)&&w>1){ if((b->k&(b->k+1))==0){ unsigned n=0; while((b->k>>n)&1) n++; return mk_zext(mk_extract(a,0,n),w); } 
        if(a->op==OZExt) return mk_zext(mk_bin(OAnd,a->a,mkc(b->k,a->a->w)),w);
        if(a->op==OConcat) return mk_concat(mk_bin(OAnd,a->a,mkc(b->k>>a->b->w,a->a->w)),mk_bin(OAnd,a->b,mkc(b->k,a->b->w)));
        if(implies_const_ite(a)) return mk_ite(a->a,mk_bin(OAnd,a->b,b),mk_bin(OAnd,a->c,b)); }
      if(w==1&&((a->op==OXor&&isc(a->b,1)&&a->a==b)||(b->op==OXor&&isc(b->b,1)&&b->a==a))) return FALSE_();
      break;
    case OOr: if(isc(b,0)) return a; if(isc(b,M)) return b; if(a==b) return a;
      if(w>1&&!isc(b)){ // disjoint or of shifted pieces -> concat
        unsigned ta=tz(a),tb=tz(b);
        if(ta>0&&ta<w&&lz(b)>=w-ta) return mk_concat(mk_extract(a,ta,w-ta),mk_extract(b,0,ta));
        if(tb>0&&tb<w&&lz(a)>=w-tb) return mk_concat(mk_extract(b,tb,w-tb),mk_extract(a,0,tb)); }
      if(w>1&&isc(b)&&a->op==OConcat) return mk_concat(mk_bin(OOr,a->a,mkc(b->k>>a->b->w,a->a->w)),mk_bin(OOr,a->b,mkc(b->k,a->b->w)));
      if(w==1&&((a->op==OXor&&isc(a->b,1)&&a->a==b)||(b->op==OXor&&isc(b->b,1)&&b->a==a))) return TRUE_();
      break;
    case OXor: if(isc(b,0)) return a; if(a==b) return mkc(0,w); if(isc(b)&&a->op==OXor&&isc(a->b)) return mk_bin(OXor,a->a,mkc(a->b->k^b->k,w));
      if(w==1&&isc(b,1)){ if(a->op==OUlt) return mk_bin(OUle,a->b,a->a); if(a->op==OUle) return mk_bin(OUlt,a->b,a->a); if(a->op==OSlt) return mk_bin(OSle,a->b,a->a); if(a->op==OSle) return mk_bin(OSlt,a->b,a->a); }
      if(isc(b)&&a->op==OConcat) return mk_concat(mk_bin(OXor,a->a,mkc(b->k>>a->b->w,a->a->w)),mk_bin(OXor,a->b,mkc(b->k,a->b->w)));
      break;
    case OEq: if(a==b) return TRUE_(); if(w==1){ if(isc(b,1)) return a; if(isc(b,0)) return mk_not(a); }
      if(isc(b)){
        if(a->op==OZExt){ if(b->k>maskw(a->a->w)) return FALSE_(); return mk_bin(OEq,a->a,mkc(b->k,a->a->w)); }
        if(a->op==OSExt){ u128 low=b->k&maskw(a->a->w); if(((u128)sx(low,a->a->w)&M)!=b->k) return FALSE_(); return mk_bin(OEq,a->a,mkc(low,a->a->w)); }
        if(a->op==OIte&&(isc(a->b)||isc(a->c))) return mk_ite(a->a,mk_bin(OEq,a->b,b),mk_bin(OEq,a->c,b));
        if(a->op==OAdd&&isc(a->b)) return mk_bin(OEq,a->a,mkc(b->k-a->b->k,w));
        if(a->op==OXor&&isc(a->b)) return mk_bin(OEq,a->a,mkc(b->k^a->b->k,w));
        if(a->op==OConcat) return mk_bin(OAnd,mk_bin(OEq,a->a,mkc(b->k>>a->b->w,a->a->w)),mk_bin(OEq,a->b,mkc(b->k,a->b->w)));
        if(a->op==OSub&&isc(b,0)) return mk_bin(OEq,a->a,a->b);
      } else { if(a->op==OZExt&&b->op==OZExt&&a->a->w==b->a->w) return mk_bin(OEq,a->a,b->a);
        if(a->op==OConcat&&b->op==OConcat&&a->b->w==b->b->w) return mk_bin(OAnd,mk_bin(OEq,a->a,b->a),mk_bin(OEq,a->b,b->b)); }
      break;
    case OUlt: if(a==b) return FALSE_(); if(isc(b,0)) return FALSE_(); if(isc(b,1)) return mk_bin(OEq,a,mkc(0,w)); if(isc(a,M)) return FALSE_(); if(isc(a,0)) return mk_not(mk_bin(OEq,b,mkc(0,w)));
      if(a->op==OZExt&&isc(b)){ if(b->k>maskw(a->a->w)) return TRUE_(); return mk_bin(OUlt,a->a,mkc(b->k,a->a->w)); }
      if(b->op==OZExt&&isc(a)){ if(a->k>=maskw(b->a->w)) return FALSE_(); return mk_bin(OUlt,mkc(a->k,b->a->w),b->a); }
      if(a->op==OZExt&&b->op==OZExt&&a->a->w==b->a->w) return mk_bin(OUlt,a->a,b->a);
      if(isc(b)&&lz(a)<w&&b->k>maskw(w-lz(a))) return TRUE_();
      if(isc(b)&&implies_const_ite(a)) return mk_ite(a->a,mk_bin(OUlt,a->b,b),mk_bin(OUlt,a->c,b));
      if(isc(a)&&implies_const_ite(b)) return mk_ite(b->a,mk_bin(OUlt,a,b->b),mk_bin(OUlt,a,b->c)); break;
    case OUle: if(a==b||isc(a,0)||isc(b,M)) return TRUE_(); if(isc(b)) return mk_bin(OUlt,a,mkc(b->k+1,w)); if(isc(a)) return mk_bin(OUlt,mkc(a->k-1,w),b);
      if(a->op==OZExt&&b->op==OZExt&&a->a->w==b->a->w) return mk_bin(OUle,a->a,b->a); break;
    case OSlt: if(a==b) return FALSE_(); if(lz(a)>0&&lz(b)>0) return mk_bin(OUlt,a,b); break;
    case OSle: if(a==b) return TRUE_(); if(lz(a)>0&&lz(b)>0) return mk_bin(OUle,a,b); break;
    default: break; }
  return intern(op,rw,0,a,b,0,0);
}
static EP mk_fbin(Op op,EP a,EP b){ bool cmp=op>=OFEq&&op<=OFLe; u16 rw=cmp?1:a->w; if(isc(a)&&isc(b)) return mkc(fold(op,rw,0,a->w,b->w,a->k,b->k,0),rw);
  // identities that hold for every value that is not a NaN (whose payload is unspecified anyway)
  if(op==OFAdd||op==OFMul||op==OFEq){ if(isc(a)||(!isc(b)&&a->id>b->id)) std::swap(a,b); }
  if(!cmp&&isc(b)){ unsigned w=a->w; u128 sign=(u128)1<<(w-1), one= w==32? 0x3F800000u : (u128)0x3FF0000000000000ull;
    if((op==OFMul||op==OFDiv)&&b->k==one) return a; if((op==OFMul||op==OFDiv)&&b->k==(one|sign)) return mk_bin(OXor,a,mkc(sign,w));
    if(op==OFSub&&b->k==0) return a; if(op==OFAdd&&b->k==sign) return a; }
  return intern(op,rw,0,a,b,0,0); }
static EP mk_fma(EP a,EP b,EP c){ if(isc(a)&&isc(b)&&isc(c)) return mkc(fold(OFFma,a->w,0,a->w,b->w,a->k,b->k,c->k),a->w); return intern(OFFma,a->w,0,a,b,c,0); }

// Evaluation under a full assignment.
struct Evaluator {
  std::vector<u32> stamp; std::vector<u128> val; u32 epoch=0;
  void begin(){ epoch++; }
  u128 eval(EP e,const std::vector<u64>& m){
    if(e->op==OConst) return e->k;
    if(e->op==OVar) return (e->imm<m.size()? m[e->imm]:0)&maskw(e->w);
    if(stamp.size()<=e->id){ stamp.resize(g_all.size()+1024,0); val.resize(g_all.size()+1024); }
    if(stamp[e->id]==epoch) return val[e->id];
    u128 r;
    if(e->op==OIte){ r = eval(e->a,m)? eval(e->b,m):eval(e->c,m); }
    else { u128 a=e->a?eval(e->a,m):0,b=e->b?eval(e->b,m):0,c=e->c?eval(e->c,m):0; r=fold(e->op,e->w,e->imm,e->a?e->a->w:0,e->b?e->b->w:0,a,b,c); }
    if(stamp.size()<=e->id){ stamp.resize(g_all.size()+1024,0); val.resize(g_all.size()+1024); }
    stamp[e->id]=epoch; val[e->id]=r; return r;
  }
};

static std::string show(EP e,int d=0){ if(e->op==OConst){ char b[40]; snprintf(b,40,"0x%lx",(unsigned long)(u64)e->k); return b; } if(e->op==OVar) return g_vars[e->imm].name; if(d>14) return "..."; std::string r="("; r+=OPN[e->op]; if(e->op==OExtract||e->op==OZExt||e->op==OSExt||e->op==OConst){ r+="_"+std::to_string(e->imm)+":"+std::to_string(e->w); } for(EP x:{e->a,e->b,e->c}) if(x) r+=" "+show(x,d+1); return r+")"; }
