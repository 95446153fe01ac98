// rsx: symbolic executor for rustc-emitted LLVM IR.  See DESIGN.md ("The engine").
#include "expr.h"
#include "solver.h"
#include "ir.h"
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <pthread.h>
#include <atomic>
#include <unordered_set>
#include <sstream>

struct Unsup { string m; };
[[noreturn]] static void unsup(const string& m){ throw Unsup{m}; }

static Module M; static Solver S; static Evaluator EV;

// ---------------------------------------------------------------- memory
struct Obj { u64 base,size; vector<u8> b; vector<EP> s; int rc=0; u8 kind=0; bool ro=false,freed=false; };
struct OR { Obj* o=nullptr; OR(){} OR(Obj* x):o(x){ if(o) o->rc++; } OR(const OR& r):o(r.o){ if(o) o->rc++; } OR(OR&& r) noexcept:o(r.o){ r.o=nullptr; } ~OR(){ if(o&&--o->rc==0) delete o; }
  OR& operator=(OR r){ std::swap(o,r.o); return *this; } };
static const u64 STK=0x200000000000ull, HEAP=0x400000000000ull, GLO=0x100000000ull;
typedef std::bitset<256> Dom;
struct Frame { Func* f=nullptr; int bb=0,ip=0,prev=-1; vector<V> sl; u32 nstk=0; u64 sp=0; int rdst=-1; const Inst* call=nullptr; };
struct State {
  int h=0; vector<Frame> fr; vector<OR> heap,stk; std::map<u64,OR> glob; u64 hp=HEAP,sp=STK; u64 heapbytes=0;
  vector<EP> pc; std::unordered_set<u32> pcs; vector<u64> model; std::map<u32,Dom> dom; std::set<u32> ent; vector<u32> inputs; u64 ninst=0; u32 forks=0; bool realfmt=false; u64 alim=1ull<<28; vector<V> trace; std::unordered_map<EP,u64> known;
};
struct Err { int h; string kind,msg,inputs; vector<string> stack; };
struct Sample { string inputs; u64 insts; vector<u64> trace; };
struct HRes { vector<Sample> samples; u64 paths=0,killed=0,insts=0,forks=0,maxinst=0,maxinputs=0,asserts=0; std::set<u32> covers; std::set<string> incomplete; };
static vector<string> H; static vector<HRes> R; static vector<Err> ERRS; static std::set<string> errkeys;
static std::set<u32> seenDbg; static std::set<u32> seenSp;
static u64 INSTBUDGET=400000000; static double DEADLINE=0; static unsigned MAXERR=12; static u64 RSSLIM=6ull<<30;
struct Shared { std::atomic<int> active; int maxp; std::atomic<int> stop; }; static Shared* SH;
static vector<State*> WL; static string OUTDIR;
static vector<Obj*> constObjs;

static Obj* mkobj(u64 base,u64 size,u8 kind){ Obj*o=new Obj; o->base=base;o->size=size;o->kind=kind;o->b.assign(size,0); return o; }
static const vector<std::pair<u64,Type*>>& layout(Type* t){ static std::unordered_map<Type*,vector<std::pair<u64,Type*>>> c; auto it=c.find(t); if(it!=c.end()) return it->second; vector<std::pair<u64,Type*>> r;
  switch(t->k){ case Type::Int: case Type::Ptr: case Type::Flt: case Type::Dbl: r.push_back({0,t}); break;
    case Type::Arr: case Type::Vec: { auto e=layout(t->el); for(u64 i=0;i<t->n;i++) for(auto&x:e) r.push_back({i*t->el->size+x.first,x.second}); break; }
    case Type::Str: for(size_t i=0;i<t->f.size();i++){ auto e=layout(t->f[i]); for(auto&x:e) r.push_back({t->off[i]+x.first,x.second}); } break; default: break; }
  return c[t]=r; }
static void putbytes(Obj* o,u64 off,unsigned n,const V& v){ // n bytes little endian
  if(!v.e){ u64 c=v.c; for(unsigned i=0;i<n;i++){ o->b[off+i]= i<8? (u8)(c>>(8*i)):0; if(!o->s.empty()) o->s[off+i]=nullptr; } return; }
  EP e=v.e; if(e->w<n*8) e=mk_zext(e,n*8);
  for(unsigned i=0;i<n;i++){ EP x=mk_extract(e,8*i,8); if(isc(x)){ o->b[off+i]=(u8)x->k; if(!o->s.empty()) o->s[off+i]=nullptr; } else { if(o->s.empty()) o->s.assign(o->size,nullptr); o->s[off+i]=x; } } }
static V getbytes(Obj* o,u64 off,unsigned n,unsigned bits){
  bool sym=false; if(!o->s.empty()) for(unsigned i=0;i<n;i++) if(o->s[off+i]){ sym=true; break; }
  if(!sym&&n<=8){ u64 c=0; memcpy(&c,&o->b[off],n); return vc(c,bits); }
  EP e=nullptr; for(unsigned i=0;i<n;i++){ EP x= (!o->s.empty()&&o->s[off+i])? o->s[off+i] : mkc(o->b[off+i],8); e= e? mk_concat(x,e):x; }
  if(e->w>bits) e=mk_extract(e,0,bits); return ve(e); }
static OR& glob(State& s,u64 base,Global* g,bool wr){ 
  auto it=s.glob.find(base); if(it!=s.glob.end()) return it->second;
  static std::unordered_map<u64,OR> cache; auto c=cache.find(base);
  if(c==cache.end()){ Obj* o=mkobj(base,g->ty->size,3); o->ro=g->constant; 
    if(g->init){ M.p=g->init; vector<V> v; M.constant(g->ty,v); auto& l=layout(g->ty); for(size_t i=0;i<l.size()&&i<v.size();i++) putbytes(o,l[i].first,(l[i].second->bits+7)/8,v[i]); }
    c=cache.emplace(base,OR(o)).first; }
  if(!wr) return c->second;
  return s.glob.emplace(base,c->second).first->second; }
// Object containing [a,a+n); nullptr if none.
static OR* lookup(State& s,u64 a,bool wr){
  if(a>=HEAP||(a>=STK)){ auto& v= a>=HEAP? s.heap:s.stk; size_t lo=0,hi=v.size(); while(lo<hi){ size_t m=(lo+hi)/2; if(v[m].o->base<=a) lo=m+1; else hi=m; } if(!lo) return nullptr; OR& r=v[lo-1]; if(a>r.o->base+r.o->size||(a==r.o->base+r.o->size&&r.o->size)) return nullptr; return &r; }
  if(a>=GLO){ auto it=M.gaddr.upper_bound(a); if(it==M.gaddr.begin()) return nullptr; --it; Global* g=it->second; if(a>=g->addr+g->ty->size) return nullptr; return &glob(s,g->addr,g,wr&&!g->constant); }
  return nullptr; }
static Obj* own(OR& r){ if(r.o->rc>1){ Obj* n=new Obj(*r.o); n->rc=0; r=OR(n); } return r.o; }

struct PathEnd { string kind,msg; }; // error on this path
[[noreturn]] static void perr(const string& k,const string& m){ throw PathEnd{k,m}; }
struct Kill {}; // path silently ends

static string hexs(u64 x){ char b[32]; snprintf(b,32,"0x%lx",(unsigned long)x); return b; }
static Obj* access(State& s,u64 a,u64 n,bool wr){
  OR* r=lookup(s,a,wr); if(!r||a-r->o->base+n>r->o->size) perr("memory",string(wr?"write":"read")+" of "+std::to_string(n)+" bytes out of bounds at "+hexs(a)+(r? " (object of "+std::to_string(r->o->size)+" bytes at "+hexs(r->o->base)+")":""));
  if(r->o->freed) perr("memory","use after free at "+hexs(a));
  if(wr){ if(r->o->ro) perr("memory","write to constant"); return own(*r);} return r->o; }

// ---------------------------------------------------------------- constraints
static std::map<std::pair<u32,u16>,EP> inVars; // (index, width)
static u128 evalm(State& s,EP e){ if(isc(e)) return e->k; EV.begin(); return EV.eval(e,s.model); }
static std::unordered_map<EP,Dom> ttCache;
static const Dom& ttable(EP e,u32 var){ auto it=ttCache.find(e); if(it!=ttCache.end()) return it->second; Dom d; vector<u64> m(var+1,0); for(int i=0;i<256;i++){ m[var]=i; EV.begin(); if(EV.eval(e,m)) d[i]=1; } return ttCache[e]=d; }
static Dom& domOf(State& s,u32 v){ auto it=s.dom.find(v); if(it==s.dom.end()){ Dom d; d.set(); it=s.dom.emplace(v,d).first; } return it->second; }
static void addc(State& s,EP c){ if(isc(c)){ return; } if(c->op==OAnd){ s.pcs.insert(c->id); addc(s,c->a); addc(s,c->b); return; } 
  if(!s.pcs.insert(c->id).second) return; s.pc.push_back(c);
  if(c->vs->v.size()==1){ u32 v=c->vs->v[0]; if(g_vars[v].w==8){ domOf(s,v)&=ttable(c,v); return; } }
  else for(u32 v:c->vs->v) s.ent.insert(v); }
struct CacheEnt { int r; vector<std::pair<u32,u64>> m; };
struct VH { size_t operator()(const vector<u32>& v) const { u64 h=v.size(); for(u32 x:v){ h^=x+0x9E3779B97F4A7C15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdull; h^=h>>31; } return h; } };
static std::unordered_map<vector<u32>,CacheEnt,VH> qcache;
// Is pc && c satisfiable?  On yes, m (copy of the state's model) is updated to a model of it.
static string slowinfo(State& s);
static string slowinfo(State& s);
static int feasible(State& s,EP c,vector<u64>& m){
  m=s.model; if(isc(c)) return c->k?1:0;
  if(s.pcs.count(c->id)) return 1; 
  { EP n=mk_not(c); if(s.pcs.count(n->id)) return 0; }
  // reduction by byte domains
  int fv=-1,nf=0; bool ent=false,all8=true; for(u32 v:c->vs->v){ if(g_vars[v].w!=8){ all8=false; break; } Dom& d=domOf(s,v); if(d.count()>1){ nf++; fv=v; } if(s.ent.count(v)) ent=true; }
  if(all8&&nf<=1){ S.n_dom++; 
    if(nf==0){ EV.begin(); return EV.eval(c,s.model)?1:0; }
    Dom t; Dom& d=domOf(s,fv); if(c->vs->v.size()==1) t=d&ttable(c,fv); else { vector<u64> mm=s.model; if(mm.size()<=(size_t)fv) mm.resize(fv+1,0); for(int i=0;i<256;i++) if(d[i]){ mm[fv]=i; EV.begin(); if(EV.eval(c,mm)) t[i]=1; } }
    if(t.none()) return 0;
    if(!s.ent.count(fv)){ if(m.size()<=(size_t)fv) m.resize(fv+1,0); for(int i=0;i<256;i++) if(t[i]){ m[fv]=i; break; } return 1; }
  } (void)ent;
  // slice
  std::set<u32> vs(c->vs->v.begin(),c->vs->v.end()); vector<char> used(s.pc.size(),0); vector<EP> q{c}; bool ch=true;
  while(ch){ ch=false; for(size_t i=0;i<s.pc.size();i++) if(!used[i]){ bool hit=false; for(u32 v:s.pc[i]->vs->v) if(vs.count(v)){ hit=true; break; } if(hit){ used[i]=1; ch=true; q.push_back(s.pc[i]); vs.insert(s.pc[i]->vs->v.begin(),s.pc[i]->vs->v.end()); } } }
  vector<u32> key; for(EP e:q) key.push_back(e->id); std::sort(key.begin()+1,key.end());
  auto it=qcache.find(key); if(it!=qcache.end()){ S.n_cache++; if(it->second.r==1) for(auto&kv:it->second.m){ if(m.size()<=kv.first) m.resize(kv.first+1,0); m[kv.first]=kv.second; } return it->second.r; }
  vector<u64> mm; int r;
  { static double slow=getenv("RSX_SLOW")?atof(getenv("RSX_SLOW")):0; double t0=now_s(); r=S.check(q,mm); double dt=now_s()-t0;
    if(slow&&dt>slow){ string o="SLOW "+std::to_string(dt)+"s r="+std::to_string(r)+" conjuncts="+std::to_string(q.size())+" inputs="+slowinfo(s); fprintf(stderr,"%s\n",o.c_str()); } }
  CacheEnt ce; ce.r=r;
  if(r==1){ for(u32 v:vs){ u64 x=v<mm.size()?mm[v]:0; if(m.size()<=v) m.resize(v+1,0); m[v]=x; ce.m.push_back({v,x}); }
    for(EP e:q){ EV.begin(); if(!EV.eval(e,m)){ unsup("solver model disagrees with the evaluator"); } } }
  if(r!=-1) qcache[key]=ce;
  return r; }
static void incompl(int h,const string& why){ R[h].incomplete.insert(why); }
static State* forkst(State& s){ State* n=new State(s); n->forks++; R[s.h].forks++; return n; }
// Branch on c: returns the value on this path; forks the other side if feasible.
static bool branch(State& s,EP c){
  if(isc(c)) return c->k!=0;
  bool v=evalm(s,c)!=0; EP other= v? mk_not(c):c; vector<u64> m; int r=feasible(s,other,m);
  if(r==1){ State* n=forkst(s); n->model=std::move(m); addc(*n,other); WL.push_back(n); addc(s, v? c:mk_not(c)); }
  else if(r==-1){ incompl(s.h,"solver gave no answer (timeout) on a branch condition"); addc(s, v? c:mk_not(c)); }
  return v; }
static bool must(State& s,EP c){ if(isc(c)) return c->k!=0; vector<u64> m; int r=feasible(s,mk_not(c),m); if(r==-1) incompl(s.h,"solver gave no answer (timeout)"); return r==0; }
static u64 concretize(State& s,const V& v){
  if(isConc(v)) return (u64)cval(v); auto k=s.known.find(v.e); if(k!=s.known.end()) return k->second;
  u64 x=(u64)evalm(s,v.e); EP eq=mk_bin(OEq,v.e,mkc(x,v.w)); branch(s,eq); s.known[v.e]=x; return x; }
// cheap unsigned interval
static void urange(EP e,u128& lo,u128& hi,int d=0){ u128 mx=maskw(e->w); lo=0; hi=mx; if(d>12) return; u128 a,b,c,g;
  switch(e->op){ case OConst: lo=hi=e->k; return; case OZExt: urange(e->a,lo,hi,d+1); return;
    case OAdd: urange(e->a,a,b,d+1); urange(e->b,c,g,d+1); if(e->w<128){ if(b+g<=mx){ lo=a+c; hi=b+g; } else if(a+c>mx){ lo=(a+c)&mx; hi=(b+g)&mx; } } return;
    case OAnd: urange(e->a,a,b,d+1); urange(e->b,c,g,d+1); hi=std::min(b,g); return;
    case OIte: urange(e->b,a,b,d+1); urange(e->c,c,g,d+1); lo=std::min(a,c); hi=std::max(b,g); return;
    case OConcat: if(e->w<128){ urange(e->a,a,b,d+1); urange(e->b,c,g,d+1); lo=(a<<e->b->w)|c; hi=(b<<e->b->w)|g; } return;
    case OMul: urange(e->a,a,b,d+1); urange(e->b,c,g,d+1); if(g==0||(b<=mx/g&&e->w<=64)){ lo=a*c; hi=b*g; } return;
    case OUDiv: if(isc(e->b)&&e->b->k){ urange(e->a,a,b,d+1); lo=a/e->b->k; hi=b/e->b->k; } return;
    case OURem: if(isc(e->b)&&e->b->k) hi=e->b->k-1; return;
    case OLShr: if(isc(e->b)&&e->b->k<e->w){ urange(e->a,a,b,d+1); lo=a>>(unsigned)e->b->k; hi=b>>(unsigned)e->b->k; } return;
    default: { unsigned l=lz(e); if(l) hi=maskw(e->w-l); if(l>=e->w) hi=0; } } }
// Resolve an address for an n-byte access: concrete address, or (obj, symbolic offset) with bounds enforced.
struct Res { bool conc; u64 a; u64 base; EP off; u64 lo,hi,st; };
static Res resolve(State& s,const V& av,u64 n,bool wr,unsigned limit){
  Res r; if(isConc(av)){ r.conc=true; r.a=(u64)cval(av); return r; }
  auto k=s.known.find(av.e); if(k!=s.known.end()){ r.conc=true; r.a=k->second; return r; }
  EP e=av.e; 
  u64 v=(u64)evalm(s,e); OR* p=lookup(s,v,wr); if(!p||p->o->freed||v-p->o->base+n>p->o->size) perr("memory","access of "+std::to_string(n)+" bytes out of bounds at symbolic address "+hexs(v));
  u64 base=p->o->base,size=p->o->size; EP off=mk_bin(OSub,e,mkc(base,64)); EP in=mk_bin(OUle,off,mkc(size-n,64)); branch(s,in);
  u128 lo,hi; urange(off,lo,hi); if(hi>size-n) hi=size-n; if(lo>hi) lo=0; unsigned t=std::min(tz(off),12u); u64 st=1ull<<t; lo=(lo+st-1)/st*st; hi=hi/st*st;
  // tighten with the solver when wide
  if((hi-lo)/st+1>limit||(hi-lo)/st>64){ auto within=[&](u128 l,u128 h){ return must(s,mk_bin(OAnd,mk_bin(OUle,mkc(l,64),off),mk_bin(OUle,off,mkc(h,64)))); };
    for(int g=0;g<40;g++){ if(hi-lo<=st*4) break; u128 mid=(lo+hi)/2/st*st; if(within(lo,mid)) hi=mid; else break; }
    for(int g=0;g<40;g++){ if(hi-lo<=st*4) break; u128 mid=(lo+hi)/2/st*st; if(within(mid,hi)) lo=mid; else break; } }
  if((hi-lo)/st+1>limit){ r.conc=true; r.a=concretize(s,av); return r; }
  r.conc=false; r.base=base; r.off=off; r.lo=(u64)lo; r.hi=(u64)hi; r.st=st; return r; }
static EP itetab(Obj* o,const Res& r,u64 l,u64 h,unsigned n,unsigned bits){ // inclusive offsets
  if(l==h) return toE(getbytes(o,l,n,bits)); u64 cnt=(h-l)/r.st; u64 m=l+cnt/2*r.st; EP a=itetab(o,r,l,m,n,bits),b=itetab(o,r,m+r.st,h,n,bits); if(a==b) return a; return mk_ite(mk_bin(OUlt,r.off,mkc(m+r.st,64)),a,b); }
static V loadv(State& s,const V& av,unsigned n,unsigned bits){
  Res r=resolve(s,av,n,false,4096); if(r.conc){ Obj* o=access(s,r.a,n,false); return getbytes(o,r.a-o->base,n,bits); }
  Obj* o=access(s,r.base,0,false); return ve(itetab(o,r,r.lo,r.hi,n,bits)); }
static void storev(State& s,const V& av,unsigned n,const V& v){
  Res r=resolve(s,av,n,true,256); if(r.conc){ Obj* o=access(s,r.a,n,true); putbytes(o,r.a-o->base,n,v); return; }
  Obj* o=access(s,r.base,0,true); if(o->ro) perr("memory","write to constant");
  for(u64 k=r.lo;k<=r.hi;k+=r.st){ EP c=mk_bin(OEq,r.off,mkc(k,64)); EP old=toE(getbytes(o,k,n,n*8)); EP nv=toE(v); if(nv->w<n*8) nv=mk_zext(nv,n*8); putbytes(o,k,n,ve(mk_ite(c,nv,old))); } }
static V vadd(const V& a,u64 k){ if(!a.e) return vc(a.c+k,64); return ve(mk_bin(OAdd,a.e,mkc(k,64))); }

// ---------------------------------------------------------------- intrinsics
enum Intr { IN_NONE=0, IN_PANIC, IN_ALLOC, IN_DEALLOC, IN_REALLOC, IN_ALLOCZ, IN_MALLOC, IN_CALLOC, IN_FREE, IN_CREALLOC, IN_MEMALIGN, IN_MEMCPY, IN_MEMSET, IN_MEMCMP, IN_BCMP, IN_STRLEN, IN_NOP, IN_ZERO, IN_ASSUME, IN_EXPECT, IN_TLS, IN_ISCONST,
  IN_UMAX, IN_UMIN, IN_SMAX, IN_SMIN, IN_UADDO, IN_USUBO, IN_UMULO, IN_SADDO, IN_SSUBO, IN_SMULO, IN_UADDS, IN_USUBS, IN_SADDS, IN_SSUBS, IN_FSHL, IN_FSHR, IN_CTPOP, IN_CTLZ, IN_CTTZ, IN_BSWAP, IN_BITREV, IN_ABS, IN_UCMP, IN_SCMP, IN_FABS, IN_FRND, IN_SQRT, IN_FMA, IN_COPYSIGN, IN_FMIN, IN_FMAX, IN_FTOSI, IN_FTOUI, IN_REDUCE, IN_LIBM,
  IN_ABORT, IN_FORMAT, IN_RANDKEYS, IN_OOM, IN_GETENV, IN_WRITE, IN_SYM, IN_SASSUME, IN_SASSERT, IN_SCOVER, IN_SREALFMT, IN_STRACE, IN_SALIM, IN_SPARAM, IN_PTRMASK, IN_STACKSAVE, IN_UNSUP, IN_SSYMBOLIC };
static bool has(const string& s,const char* x){ return s.find(x)!=string::npos; }
static std::map<string,u64> PARAMS;
static int classify(Func* f){ const string& n=f->name; auto st=[&](const char* p){ return n.compare(0,strlen(p),p)==0; };
  if(st("llvm.")){
    if(st("llvm.memcpy")||st("llvm.memmove")) return IN_MEMCPY; if(st("llvm.memset")) return IN_MEMSET;
    if(st("llvm.lifetime")||st("llvm.experimental.noalias")||st("llvm.dbg")||st("llvm.x86.sse2.pause")||st("llvm.donothing")||st("llvm.prefetch")||st("llvm.var.annotation")) return IN_NOP;
    if(st("llvm.assume")) return IN_ASSUME; if(st("llvm.expect")||st("llvm.launder")||st("llvm.strip")||st("llvm.ssa.copy")) return IN_EXPECT; if(st("llvm.threadlocal.address")) return IN_TLS; if(st("llvm.is.constant")) return IN_ISCONST;
    if(st("llvm.umax")) return IN_UMAX; if(st("llvm.umin")) return IN_UMIN; if(st("llvm.smax")) return IN_SMAX; if(st("llvm.smin")) return IN_SMIN;
    if(st("llvm.uadd.with")) return IN_UADDO; if(st("llvm.usub.with")) return IN_USUBO; if(st("llvm.umul.with")) return IN_UMULO; if(st("llvm.sadd.with")) return IN_SADDO; if(st("llvm.ssub.with")) return IN_SSUBO; if(st("llvm.smul.with")) return IN_SMULO;
    if(st("llvm.uadd.sat")) return IN_UADDS; if(st("llvm.usub.sat")) return IN_USUBS; if(st("llvm.sadd.sat")) return IN_SADDS; if(st("llvm.ssub.sat")) return IN_SSUBS;
    if(st("llvm.fshl")) return IN_FSHL; if(st("llvm.fshr")) return IN_FSHR; if(st("llvm.ctpop")) return IN_CTPOP; if(st("llvm.ctlz")) return IN_CTLZ; if(st("llvm.cttz")) return IN_CTTZ; if(st("llvm.bswap")) return IN_BSWAP; if(st("llvm.bitreverse")) return IN_BITREV; if(st("llvm.abs")) return IN_ABS; if(st("llvm.ucmp")) return IN_UCMP; if(st("llvm.scmp")) return IN_SCMP;
    if(st("llvm.fabs")) return IN_FABS; if(st("llvm.floor")||st("llvm.ceil")||st("llvm.trunc")||st("llvm.round")||st("llvm.rint")||st("llvm.nearbyint")) return IN_FRND; if(st("llvm.sqrt")) return IN_SQRT; if(st("llvm.fma.")||st("llvm.fmuladd")) return IN_FMA; if(st("llvm.copysign")) return IN_COPYSIGN; if(st("llvm.minnum")||st("llvm.minimumnum")) return IN_FMIN; if(st("llvm.maxnum")||st("llvm.maximumnum")) return IN_FMAX; if(st("llvm.fptosi.sat")) return IN_FTOSI; if(st("llvm.fptoui.sat")) return IN_FTOUI;
    if(st("llvm.vector.reduce")) return IN_REDUCE; if(st("llvm.trap")||st("llvm.ubsantrap")||st("llvm.debugtrap")) return IN_ABORT; if(st("llvm.ptrmask")) return IN_PTRMASK; if(st("llvm.stacksave")) return IN_ZERO; if(st("llvm.stackrestore")) return IN_NOP;
    if(st("llvm.sin")||st("llvm.cos")||st("llvm.pow")||st("llvm.exp")||st("llvm.log")) return IN_LIBM;
    return IN_UNSUP; }
  if(st("rsym_")){ if(n=="rsym_u8"||n=="rsym_u16"||n=="rsym_u32"||n=="rsym_u64") return IN_SYM; if(n=="rsym_assume") return IN_SASSUME; if(n=="rsym_assert") return IN_SASSERT; if(n=="rsym_cover") return IN_SCOVER; if(n=="rsym_real_fmt") return IN_SREALFMT; if(n=="rsym_trace") return IN_STRACE; if(n=="rsym_alloc_limit") return IN_SALIM; if(n=="rsym_param") return IN_SPARAM; if(n=="rsym_concretize") return IN_SSYMBOLIC; return IN_NONE; }
  if(has(n,"4core9panicking")&&!has(n,"drop_glue")) return IN_PANIC;
  if(has(n,"std9panicking11begin_panic")&&n.compare(0,3,"_RI")==0) return IN_PANIC; if(has(n,"rust_begin_unwind")||has(n,"__rust_start_panic")) return IN_PANIC;
  if(has(n,"handle_alloc_error")||has(n,"rust_oom")) return IN_OOM;
  if(has(n,"___rust_alloc_zeroed")) return IN_ALLOCZ; if(has(n,"___rust_alloc_error")) return IN_OOM; if(has(n,"12___rust_alloc")) return IN_ALLOC; if(has(n,"___rust_dealloc")) return IN_DEALLOC; if(has(n,"___rust_realloc")) return IN_REALLOC; if(has(n,"no_alloc_shim")) return IN_NOP;
  if(has(n,"3fmt6format12format_inner")) return IN_FORMAT; if(has(n,"hashmap_random_keys")) return IN_RANDKEYS;
  if(n=="malloc") return IN_MALLOC; if(n=="calloc") return IN_CALLOC; if(n=="free") return IN_FREE; if(n=="realloc") return IN_CREALLOC; if(n=="posix_memalign") return IN_MEMALIGN;
  if(n=="memcpy"||n=="memmove") return IN_MEMCPY; if(n=="memset") return IN_MEMSET; if(n=="memcmp") return IN_MEMCMP; if(n=="bcmp") return IN_BCMP; if(n=="strlen") return IN_STRLEN;
  if(n=="abort"||has(n,"abort_internal")||has(n,"3std7process5abort")||has(n,"___rust_abort")) return IN_ABORT; if(n=="getenv") return IN_ZERO; if(n=="write"||n=="writev") return IN_WRITE; if(n=="__cxa_thread_atexit_impl") return IN_ZERO;
  if(f->declared) { static const char* lm[]={"sinf","cosf","sin","cos","powf","pow","expf","exp","logf","log","tanf","tan","acosf","acos","asinf","asin","atanf","atan","atan2f","atan2","fmodf","fmod"}; for(auto x:lm) if(n==x) return IN_LIBM; return IN_UNSUP; }
  return IN_NONE; }

static u64 doalloc(State& s,const V& szv,u64 al){
  if(!isConc(szv)){ EP big=mk_bin(OUlt,mkc(s.alim,64),szv.e); if(branch(s,big)) perr("alloc","allocation of more than "+std::to_string(s.alim)+" bytes requested"); }
  u64 sz=concretize(s,szv); if(sz>s.alim) perr("alloc","allocation of "+std::to_string(sz)+" bytes requested (limit "+std::to_string(s.alim)+")");
  if(al<16) al=16; s.hp=(s.hp+al-1)/al*al; u64 b=s.hp; s.hp+=sz+32; s.heap.push_back(OR(mkobj(b,sz,1))); s.heapbytes+=sz; return b; }
static void dofree(State& s,u64 p){ if(!p) return; OR* r=lookup(s,p,false); if(!r||r->o->kind!=1||r->o->base!=p) perr("memory","free of a pointer that is not a heap allocation"); if(r->o->freed) perr("memory","double free");
  Obj* n=new Obj; n->base=r->o->base; n->size=r->o->size; n->kind=1; n->freed=true; *r=OR(n); 
  if(s.heap.size()>2048){ size_t fr=0; for(auto&x:s.heap) fr+=x.o->freed; if(fr*2>s.heap.size()){ size_t j=0; for(size_t i=0;i<s.heap.size();i++) if(!s.heap[i].o->freed){ if(i!=j) s.heap[j]=s.heap[i]; j++; } s.heap.resize(j); } } }
static void copymem(State& s,u64 d,u64 a,u64 n){ if(!n) return; Obj* so=access(s,a,n,false); u64 ao=a-so->base; vector<u8> b(so->b.begin()+ao,so->b.begin()+ao+n); vector<EP> e; if(!so->s.empty()){ bool any=false; for(u64 i=0;i<n;i++) if(so->s[ao+i]){ any=true; break; } if(any) e.assign(so->s.begin()+ao,so->s.begin()+ao+n); }
  Obj* o=access(s,d,n,true); u64 off=d-o->base; memcpy(&o->b[off],b.data(),n); if(!e.empty()){ if(o->s.empty()) o->s.assign(o->size,nullptr); std::copy(e.begin(),e.end(),o->s.begin()+off); } else if(!o->s.empty()) std::fill(o->s.begin()+off,o->s.begin()+off+n,nullptr); }

// ---------------------------------------------------------------- errors
static string demangle(const string& n){ // light v0 demangling: keep identifier words
  if(n.compare(0,2,"_R")) return n; string out; size_t i=2; while(i<n.size()){ if(isdigit((unsigned char)n[i])){ size_t l=0,j=i; while(j<n.size()&&isdigit((unsigned char)n[j])) l=l*10+(n[j++]-'0'); if(j<n.size()&&n[j]=='_') j++; if(l>0&&l<200&&j+l<=n.size()&&(isalpha((unsigned char)n[j])||n[j]=='_')){ if(!out.empty()) out+="::"; out+=n.substr(j,l); i=j+l; continue; } i=j; continue; }
    if(n[i]=='C'&&i+1<n.size()&&n[i+1]=='s'){ size_t j=n.find('_',i); if(j!=string::npos){ i=j+1; continue; } }
    if(n[i]=='s'||n[i]=='B'){ size_t j=i+1; while(j<n.size()&&isalnum((unsigned char)n[j])) j++; if(j<n.size()&&n[j]=='_'&&j-i<5){ i=j+1; continue; } }
    i++; } return out; }
static vector<string> stackOf(State& s){ vector<string> r; for(size_t i=s.fr.size();i-->0&&r.size()<24;){ Frame& f=s.fr[i]; u32 dbg=0; if(f.f->parsed&&f.bb<(int)f.f->bl.size()&&f.ip<(int)f.f->bl[f.bb].in.size()) dbg=f.f->bl[f.bb].in[f.ip].dbg; 
    while(dbg){ string file; int line; u32 sp; M.loc(dbg,file,line,sp); if(file.empty()) break; string nm=M.mdstr(M.mdp(sp),"linkageName: "); if(nm.empty()) nm=M.mdstr(M.mdp(sp),"name: "); r.push_back(demangle(nm)+" @ "+file+":"+std::to_string(line)); dbg=M.inlinedAt(dbg); if(r.size()>=24) break; }
    if(!f.f->sp&&r.empty()) r.push_back(demangle(f.f->name)); } return r; }
static string inputsHex(State& s){ string o; for(size_t i=0;i<s.inputs.size();i++){ u32 v=s.inputs[i]; u64 x=v<s.model.size()?s.model[v]:0; for(unsigned k=0;k<g_vars[v].w/8u;k++){ char b[4]; snprintf(b,4,"%02x",(unsigned)((x>>(8*k))&255)); o+=b; } } return o; }
static string slowinfo(State& s){ string o=inputsHex(s); int n=0; for(auto&x:stackOf(s)){ o+="\n    "+x; if(++n>=14) break; } return o; }
static void report(State& s,const string& kind,const string& msg){ Err e; e.h=s.h; e.kind=kind; e.msg=msg; e.stack=stackOf(s); 
  string key=std::to_string(s.h)+kind; int nrep=0; for(auto&x:e.stack){ if(has(x,"/repo/")||has(x,"/verif/")||has(x,"harness")){ key+=x; if(++nrep==3) break; } } if(!nrep) for(auto&x:e.stack) key+=x;
  if(!errkeys.insert(key).second) return; e.inputs=inputsHex(s); ERRS.push_back(e); }

// ---------------------------------------------------------------- execution
static inline const V& opv(Frame& f,const Operand& o,unsigned i=0){ return o.slot>=0? f.sl[o.slot+i] : f.f->consts[o.cidx][i]; }
static inline u64 mk64(unsigned w){ return w>=64? ~0ull : ((1ull<<w)-1); }
static inline i64 sx64(u64 c,unsigned w){ return w>=64? (i64)c : (i64)(c<<(64-w))>>(64-w); }
static V bin(State& s,int op,const V& a,const V& b){
  if(!a.e&&!b.e){ u64 x=a.c,y=b.c; unsigned w=a.w; switch(op){ case OAdd: return vc(x+y,w); case OSub: return vc(x-y,w); case OMul: return vc(x*y,w); case OAnd: return vc(x&y,w); case OOr: return vc(x|y,w); case OXor: return vc(x^y,w);
      case OShl: return vc(y>=w?0:x<<y,w); case OLShr: return vc(y>=w?0:x>>y,w); case OAShr: return vc((u64)(sx64(x,w)>>(y>=w?w-1:y)),w);
      case OUDiv: if(!y) perr("panic","division by zero reached the divide instruction"); return vc(x/y,w); case OURem: if(!y) perr("panic","remainder by zero"); return vc(x%y,w);
      case OSDiv: { if(!y) perr("panic","division by zero"); i64 p=sx64(x,w),q=sx64(y,w); if(q==-1) return vc((u64)0-(u64)p,w); return vc((u64)(p/q),w); } case OSRem: { if(!y) perr("panic","remainder by zero"); i64 p=sx64(x,w),q=sx64(y,w); if(q==-1) return vc(0,w); return vc((u64)(p%q),w); } } }
  EP x=toE(a),y=toE(b); if(op==OUDiv||op==OSDiv||op==OURem||op==OSRem){ EP z=mk_bin(OEq,y,mkc(0,y->w)); if(!isc(z)||z->k){ if(branch(s,z)) perr("panic","division by zero reached the divide instruction"); } }
  return ve(mk_bin((Op)op,x,y)); }
static V icmp(int p,const V& a,const V& b){
  if(!a.e&&!b.e){ u64 x=a.c,y=b.c; i64 p1=sx64(x,a.w),q=sx64(y,b.w); bool r=false; switch(p){ case 0:r=x==y;break; case 1:r=x!=y;break; case 2:r=x>y;break; case 3:r=x>=y;break; case 4:r=x<y;break; case 5:r=x<=y;break; case 6:r=p1>q;break; case 7:r=p1>=q;break; case 8:r=p1<q;break; case 9:r=p1<=q;break; } return vc(r,1); }
  EP x=toE(a),y=toE(b); switch(p){ case 0: return ve(mk_bin(OEq,x,y)); case 1: return ve(mk_not(mk_bin(OEq,x,y))); case 2: return ve(mk_bin(OUlt,y,x)); case 3: return ve(mk_bin(OUle,y,x)); case 4: return ve(mk_bin(OUlt,x,y)); case 5: return ve(mk_bin(OUle,x,y)); case 6: return ve(mk_bin(OSlt,y,x)); case 7: return ve(mk_bin(OSle,y,x)); case 8: return ve(mk_bin(OSlt,x,y)); default: return ve(mk_bin(OSle,x,y)); } }
static EP fnan(EP x){ return mk_un(OFIsNan,x,1); }
static V fcmp(int p,const V& a,const V& b){ EP x=toE(a),y=toE(b); EP un=mk_bin(OOr,fnan(x),fnan(y)); EP r; 
  switch(p){ case 0: return vc(0,1); case 15: return vc(1,1); case 7: return ve(mk_not(un)); case 14: return ve(un);
    case 1: r=mk_fbin(OFEq,x,y); break; case 2: r=mk_fbin(OFLt,y,x); break; case 3: r=mk_fbin(OFLe,y,x); break; case 4: r=mk_fbin(OFLt,x,y); break; case 5: r=mk_fbin(OFLe,x,y); break;
    case 6: r=mk_bin(OOr,mk_fbin(OFLt,x,y),mk_fbin(OFLt,y,x)); break;
    case 8: r=mk_bin(OOr,un,mk_fbin(OFEq,x,y)); break; case 9: r=mk_not(mk_fbin(OFLe,x,y)); break; case 10: r=mk_not(mk_fbin(OFLt,x,y)); break; case 11: r=mk_not(mk_fbin(OFLe,y,x)); break; case 12: r=mk_not(mk_fbin(OFLt,y,x)); break; default: r=mk_not(mk_fbin(OFEq,x,y)); break; }
  return ve(r); }
static V castv(int k,const V& a,Type* to){ unsigned w=to->bits;
  switch(k){ case 0: if(!a.e) return vc(a.c,w); return ve(mk_extract(a.e,0,w));
    case 1: if(!a.e&&w<=64) return vc(a.c,w); return ve(mk_zext(toE(a),w));
    case 2: if(!a.e&&w<=64) return vc((u64)sx64(a.c,a.w),w); return ve(mk_sext(toE(a),w));
    case 3: return ve(mk_un(OFTrunc,toE(a),32)); case 4: return ve(mk_un(OFExt,toE(a),64));
    case 5: return ve(mk_un(OFToU,toE(a),w)); case 6: return ve(mk_un(OFToS,toE(a),w)); case 7: return ve(mk_un(OUToF,toE(a),w)); case 8: return ve(mk_un(OSToF,toE(a),w));
    case 9: case 10: { V v=a; if(a.w==w) return v; if(!a.e) return vc(a.c,w); return ve(a.w>w? mk_extract(a.e,0,w):mk_zext(a.e,w)); }
    default: { V v=a; return v; } } }
static EP ctpopE(EP x){ unsigned w=x->w; EP r=mkc(0,w); for(unsigned i=0;i<w;i++) r=mk_bin(OAdd,r,mk_zext(mk_extract(x,i,1),w)); return r; }
static EP ctlzE(EP x){ unsigned w=x->w; EP r=mkc(w,w); for(unsigned i=0;i<w;i++) r=mk_ite(mk_extract(x,i,1),mkc(w-1-i,w),r); return r; }
static EP cttzE(EP x){ unsigned w=x->w; EP r=mkc(w,w); for(unsigned i=w;i-->0;) r=mk_ite(mk_extract(x,i,1),mkc(i,w),r); return r; }
static EP bswapE(EP x){ EP r=nullptr; for(unsigned i=0;i<x->w/8u;i++){ EP b=mk_extract(x,8*i,8); r= r? mk_concat(r,b):b; } return r; }
static EP bitrevE(EP x){ EP r=nullptr; for(unsigned i=0;i<x->w;i++){ EP b=mk_extract(x,i,1); r= r? mk_concat(r,b):b; } return r; }
static EP fshE(bool left,EP a,EP b,EP c){ unsigned w=a->w; EP sh=mk_bin(OURem,c,mkc(w,w)); if(isc(sh)){ unsigned k=(unsigned)sh->k; if(!k) return left?a:b; unsigned l=left?k:w-k; return mk_concat(mk_extract(a,0,w-l),mk_extract(b,w-l,l)); }
  EP inv=mk_bin(OSub,mkc(w,w),sh); EP z=mk_bin(OEq,sh,mkc(0,w)); return left? mk_ite(z,a,mk_bin(OOr,mk_bin(OShl,a,sh),mk_bin(OLShr,b,inv))) : mk_ite(z,b,mk_bin(OOr,mk_bin(OShl,a,inv),mk_bin(OLShr,b,sh))); }
static EP sgnmax(unsigned w){ return mkc(maskw(w-1),w);} static EP sgnmin(unsigned w){ return mkc((u128)1<<(w-1),w);}
static void ovf(int k,EP a,EP b,EP& r,EP& o){ unsigned w=a->w; EP z=mkc(0,w);
  switch(k){ case IN_UADDO: r=mk_bin(OAdd,a,b); if(isc(b)) o=mk_bin(OUlt,mkc(maskw(w)-b->k,w),a); else if(isc(a)) o=mk_bin(OUlt,mkc(maskw(w)-a->k,w),b); else if(w<128){ EP s=mk_bin(OAdd,mk_zext(a,w+1),mk_zext(b,w+1)); o= (lz(a)&&lz(b))? FALSE_() : mk_extract(s,w,1); } else o=mk_bin(OUlt,r,a); break; case IN_USUBO: r=mk_bin(OSub,a,b); o=mk_bin(OUlt,a,b); break;
    case IN_UMULO: r=mk_bin(OMul,a,b); if(isc(a)) std::swap(a,b); if(isc(b)) o= b->k? mk_bin(OUlt,mkc(maskw(w)/b->k,w),a):FALSE_(); else if(lz(a)+lz(b)>=w) o=FALSE_(); else if(w<=64){ EP p=mk_bin(OMul,mk_zext(a,2*w),mk_zext(b,2*w)); o=mk_not(mk_bin(OEq,mk_extract(p,w,w),z)); } else unsup("128-bit multiply overflow"); break;
    case IN_SADDO: r=mk_bin(OAdd,a,b); o=mk_bin(OSlt,mk_bin(OAnd,mk_bin(OXor,a,r),mk_bin(OXor,b,r)),z); break;
    case IN_SSUBO: r=mk_bin(OSub,a,b); o=mk_bin(OSlt,mk_bin(OAnd,mk_bin(OXor,a,b),mk_bin(OXor,a,r)),z); break;
    case IN_SMULO: { r=mk_bin(OMul,a,b); if(w<=64){ EP p=mk_bin(OMul,mk_sext(a,2*w),mk_sext(b,2*w)); o=mk_not(mk_bin(OEq,p,mk_sext(mk_extract(p,0,w),2*w))); } else unsup("128-bit multiply overflow"); break; } } }

static void pushFrame(State& s,Func* f,const vector<V>& args,const Inst* call){
  if(!f->parsed) M.parse(f); if(f->declared) unsup("call to external function "+f->name);
  if(s.fr.size()>4000) perr("recursion","call depth above 4000");
  Frame n; n.f=f; n.bb=f->kind; n.sl.resize(f->nslots); n.sp=s.sp; n.nstk=s.stk.size(); n.call=call; size_t k=0; 
  for(size_t i=0;i<f->params.size();i++) for(unsigned l=0;l<f->ptypes[i]->leaves;l++) n.sl[f->params[i]+l]= k<args.size()? args[k++]:vc(0,64);
  s.fr.push_back(std::move(n)); }
static void popFrame(State& s){ Frame& f=s.fr.back(); s.stk.resize(f.nstk); s.sp=f.sp; s.fr.pop_back(); }
static V rnd(const V& a,int m){ return ve(mk_un(OFRnd,toE(a),a.w,m)); }

// returns true if handled (value in res), false if a frame was pushed
static bool intrinsic(State& s,int k,const Inst& in,Func* f,vector<V>& a,vector<V>& res){
  auto ret=[&](V v){ res.push_back(v); return true; };
  unsigned L= in.ty&&in.ty->k!=Type::Void? in.ty->leaves:0;
  auto each=[&](auto fn){ for(unsigned i=0;i<L;i++) res.push_back(fn(i)); return true; };
  auto minmax=[&](bool max,bool sg){ return each([&](unsigned i)->V{ const V&x=a[i],&y=a[L+i]; V c=icmp(sg?8:4,x,y); if(!c.e) return (c.c!=0)!=max? x:y; return max? ve(mk_ite(c.e,toE(y),toE(x))):ve(mk_ite(c.e,toE(x),toE(y))); }); };
  switch(k){
    case IN_NOP: for(unsigned i=0;i<L;i++) res.push_back(vc(0,64)); return true;
    case IN_ZERO: return ret(vc(0,in.ty->bits?in.ty->bits:64));
    case IN_PANIC: case IN_OOM: { string m; if(has(f->name,"9panicking5panicB")||(a.size()==3&&has(f->name,"9panicking5panic")&&!has(f->name,"panic_fmt"))){ try { u64 p=concretize(s,a[0]),l=concretize(s,a[1]); if(l<300){ Obj*o=access(s,p,l,false); m.assign((char*)&o->b[p-o->base],l); } } catch(PathEnd&){} } perr(k==IN_OOM?"alloc":"panic",demangle(f->name)+(m.empty()?"":": "+m)); }
    case IN_ABORT: perr("panic","abort");
    case IN_ALLOC: case IN_ALLOCZ: return ret(vc(doalloc(s,a[0],concretize(s,a[1])),64));
    case IN_DEALLOC: case IN_FREE: dofree(s,concretize(s,a[0])); return true;
    case IN_REALLOC: case IN_CREALLOC: { u64 p=concretize(s,a[0]); u64 al= k==IN_REALLOC? concretize(s,a[2]):16; const V& nz= k==IN_REALLOC? a[3]:a[1]; 
        if(!isConc(nz)){ EP big=mk_bin(OUlt,mkc(s.alim,64),nz.e); if(branch(s,big)) perr("alloc","allocation of more than "+std::to_string(s.alim)+" bytes requested"); } V szv=vc(concretize(s,nz),64);
        if(!p) return ret(vc(doalloc(s,szv,al),64)); OR* r=lookup(s,p,false); if(!r||r->o->base!=p||r->o->freed) perr("memory","realloc of a bad pointer"); u64 old=r->o->size; u64 q=doalloc(s,szv,al); copymem(s,q,p,std::min(old,szv.c)); dofree(s,p); return ret(vc(q,64)); }
    case IN_MALLOC: return ret(vc(doalloc(s,a[0],16),64)); case IN_CALLOC: { u64 n=concretize(s,a[0])*concretize(s,a[1]); return ret(vc(doalloc(s,vc(n,64),16),64)); }
    case IN_MEMALIGN: { u64 al=concretize(s,a[1]); u64 p=doalloc(s,a[2],al); storev(s,a[0],8,vc(p,64)); return ret(vc(0,32)); }
    case IN_MEMCPY: { u64 n=concretize(s,a[2]); if(n) { u64 d=concretize(s,a[0]); 
        if(!isConc(a[1])&&n<=16&&!s.known.count(a[1].e)){ V v=loadv(s,a[1],n,n*8); Obj*o=access(s,d,n,true); putbytes(o,d-o->base,n,v); }
        else copymem(s,d,concretize(s,a[1]),n); } if(L) res.push_back(a[0]); return true; }
    case IN_MEMSET: { u64 n=concretize(s,a[2]); if(n){ u64 d=concretize(s,a[0]); Obj* o=access(s,d,n,true); u64 off=d-o->base; V b=a[1]; if(b.w>8) b=castv(0,b,M.T.Int(8)); for(u64 i=0;i<n;i++) putbytes(o,off+i,1,b); } if(L) res.push_back(a[0]); return true; }
    case IN_MEMCMP: case IN_BCMP: { u64 n=concretize(s,a[2]); if(!n) return ret(vc(0,32)); u64 p=concretize(s,a[0]),q=concretize(s,a[1]); Obj*x=access(s,p,n,false),*y=access(s,q,n,false); EP r=mkc(0,32); 
        if(k==IN_BCMP){ EP eq=TRUE_(); for(u64 i=0;i<n;i++){ eq=mk_bin(OAnd,eq,mk_bin(OEq,toE(getbytes(x,p-x->base+i,1,8)),toE(getbytes(y,q-y->base+i,1,8)))); if(isc(eq,0)) break; } return ret(ve(mk_ite(eq,mkc(0,32),mkc(1,32)))); }
        vector<std::pair<EP,EP>> ps; for(u64 i=0;i<n;i++){ EP u=toE(getbytes(x,p-x->base+i,1,8)),v=toE(getbytes(y,q-y->base+i,1,8)); if(u==v) continue; ps.push_back({u,v}); if(isc(u)&&isc(v)) break; }
        // ordering comparisons fork, so that binary searches over tables stay concrete
        for(auto& pr:ps){ EP eq=mk_bin(OEq,pr.first,pr.second); if(branch(s,eq)) continue; bool lt=branch(s,mk_bin(OUlt,pr.first,pr.second)); return ret(vc(lt?0xffffffffu:1u,32)); }
        (void)r; return ret(vc(0,32)); }
    case IN_STRLEN: { u64 p=concretize(s,a[0]); for(u64 i=0;;i++){ Obj*o=access(s,p+i,1,false); V b=getbytes(o,p+i-o->base,1,8); if(!b.e? b.c==0 : branch(s,mk_bin(OEq,b.e,mkc(0,8)))) return ret(vc(i,64)); } }
    case IN_ASSUME: { const V&c=a[0]; if(!c.e){ if(!c.c) perr("assume","compiler assumption violated (undefined behaviour)"); } else { vector<u64> m; int r=feasible(s,mk_not(c.e),m); if(r==1){ State* n=forkst(s); n->model=m; addc(*n,mk_not(c.e)); report(*n,"assume","compiler assumption violated (undefined behaviour)"); delete n; if(!evalm(s,c.e)){ vector<u64> m2; if(feasible(s,c.e,m2)!=1) throw Kill(); s.model=m2; } addc(s,c.e); } } return true; }
    case IN_EXPECT: for(unsigned i=0;i<L;i++) res.push_back(a[i]); return true;
    case IN_TLS: return ret(a[0]); case IN_ISCONST: return ret(vc(0,1));
    case IN_UMAX: return minmax(true,false); case IN_UMIN: return minmax(false,false); case IN_SMAX: return minmax(true,true); case IN_SMIN: return minmax(false,true);
    case IN_UADDO: case IN_USUBO: case IN_UMULO: case IN_SADDO: case IN_SSUBO: case IN_SMULO: { EP r,o; 
        if(!a[0].e&&!a[1].e){ unsigned w=a[0].w; u64 x=a[0].c,y=a[1].c; if(k<=IN_UMULO){ u128 X=x,Y=y; u128 z= k==IN_UADDO? X+Y : k==IN_USUBO? X-Y : X*Y; res.push_back(vc((u64)z,w)); res.push_back(vc(k==IN_USUBO? x<y : z>maskw(w),1)); } else { i128 X=sx64(x,w),Y=sx64(y,w),z= k==IN_SADDO?X+Y:k==IN_SSUBO?X-Y:X*Y; res.push_back(vc((u64)z,w)); res.push_back(vc(z!=(i128)sx64((u64)z&mk64(w),w),1)); } return true; }
        ovf(k,toE(a[0]),toE(a[1]),r,o); res.push_back(ve(r)); res.push_back(ve(o)); return true; }
    case IN_UADDS: case IN_USUBS: case IN_SADDS: case IN_SSUBS: return each([&](unsigned i)->V{ EP x=toE(a[i]),y=toE(a[L+i]); EP r,o; unsigned w=x->w; int kk= k==IN_UADDS?IN_UADDO:k==IN_USUBS?IN_USUBO:k==IN_SADDS?IN_SADDO:IN_SSUBO; ovf(kk,x,y,r,o); EP sat= k==IN_UADDS? mkc(maskw(w),w): k==IN_USUBS? mkc(0,w): mk_ite(mk_bin(OSlt,x,mkc(0,w)),sgnmin(w),sgnmax(w)); return ve(mk_ite(o,sat,r)); });
    case IN_FSHL: case IN_FSHR: return each([&](unsigned i){ return ve(fshE(k==IN_FSHL,toE(a[i]),toE(a[L+i]),toE(a[2*L+i]))); });
    case IN_CTPOP: return each([&](unsigned i){ return a[i].e? ve(ctpopE(a[i].e)) : vc(__builtin_popcountll(a[i].c),a[i].w); });
    case IN_CTLZ: return each([&](unsigned i){ return a[i].e? ve(ctlzE(a[i].e)) : vc(a[i].c? __builtin_clzll(a[i].c)-(64-a[i].w):a[i].w,a[i].w); });
    case IN_CTTZ: return each([&](unsigned i){ return a[i].e? ve(cttzE(a[i].e)) : vc(a[i].c? __builtin_ctzll(a[i].c):a[i].w,a[i].w); });
    case IN_BSWAP: return each([&](unsigned i){ return ve(bswapE(toE(a[i]))); }); case IN_BITREV: return each([&](unsigned i){ return ve(bitrevE(toE(a[i]))); });
    case IN_ABS: return each([&](unsigned i){ EP x=toE(a[i]); return ve(mk_ite(mk_bin(OSlt,x,mkc(0,x->w)),mk_bin(OSub,mkc(0,x->w),x),x)); });
    case IN_UCMP: case IN_SCMP: return each([&](unsigned i){ unsigned w=in.ty->k==Type::Vec?in.ty->el->bits:in.ty->bits; EP x=toE(a[i]),y=toE(a[L+i]); Op lt=k==IN_UCMP?OUlt:OSlt; return ve(mk_ite(mk_bin(lt,x,y),mkc(~(u128)0,w),mk_ite(mk_bin(OEq,x,y),mkc(0,w),mkc(1,w)))); });
    case IN_FABS: return each([&](unsigned i){ unsigned w=a[i].w; return ve(mk_bin(OAnd,toE(a[i]),mkc(maskw(w-1),w))); });
    case IN_FRND: { int m= has(f->name,"floor")?0:has(f->name,"ceil")?1:has(f->name,"trunc")?2:(has(f->name,"rint")||has(f->name,"nearby")||has(f->name,"roundeven"))?4:3; return each([&](unsigned i){ return rnd(a[i],m); }); }
    case IN_SQRT: return each([&](unsigned i){ return ve(mk_un(OFSqrt,toE(a[i]),a[i].w)); });
    case IN_FMA: return each([&](unsigned i){ return ve(has(f->name,"fmuladd")? mk_fbin(OFAdd,mk_fbin(OFMul,toE(a[i]),toE(a[L+i])),toE(a[2*L+i])) : mk_fma(toE(a[i]),toE(a[L+i]),toE(a[2*L+i]))); });
    case IN_COPYSIGN: return each([&](unsigned i){ EP x=toE(a[i]),y=toE(a[L+i]); unsigned w=x->w; return ve(mk_bin(OOr,mk_bin(OAnd,x,mkc(maskw(w-1),w)),mk_bin(OAnd,y,mkc((u128)1<<(w-1),w)))); });
    case IN_FMIN: case IN_FMAX: return each([&](unsigned i){ EP x=toE(a[i]),y=toE(a[L+i]); EP lt= k==IN_FMIN? mk_fbin(OFLt,x,y):mk_fbin(OFLt,y,x); return ve(mk_ite(fnan(x),y,mk_ite(mk_bin(OOr,fnan(y),lt),x,y))); });
    case IN_FTOSI: case IN_FTOUI: return each([&](unsigned i){ unsigned w=in.ty->k==Type::Vec?in.ty->el->bits:in.ty->bits; return ve(mk_un(k==IN_FTOSI?OFToS:OFToU,toE(a[i]),w)); });
    case IN_LIBM: { bool c=true; for(auto&x:a) c&=isConc(x); if(!c) unsup("math library function "+f->name+" on a symbolic value"); bool f32= in.ty==M.T.Flt; double x= f32? asf(cval(a[0])):asd(cval(a[0])), y= a.size()>1? (f32?asf(cval(a[1])):asd(cval(a[1]))):0, r; string n=f->name; 
        auto is=[&](const char* q){ return n==q||n==string(q)+"f"||n.compare(0,5+strlen(q),string("llvm.")+q)==0; };
        if(f32){ float X=x,Y=y,z; if(is("sin")) z=sinf(X); else if(is("cos")) z=cosf(X); else if(is("pow")) z=powf(X,Y); else if(is("exp")) z=expf(X); else if(is("log")) z=logf(X); else if(is("tan")) z=tanf(X); else if(is("acos")) z=acosf(X); else if(is("asin")) z=asinf(X); else if(is("atan2")) z=atan2f(X,Y); else if(is("atan")) z=atanf(X); else if(is("fmod")) z=fmodf(X,Y); else unsup(n); return ret(vc((u64)off(z),32)); }
        if(is("sin")) r=sin(x); else if(is("cos")) r=cos(x); else if(is("pow")) r=pow(x,y); else if(is("exp")) r=exp(x); else if(is("log")) r=log(x); else if(is("fmod")) r=fmod(x,y); else unsup(n); return ret(vc((u64)ofd(r),64)); }
    case IN_REDUCE: { const string&n=f->name; EP r=toE(a[0]); for(size_t i=1;i<a.size();i++){ EP x=toE(a[i]); if(has(n,".add.")) r=mk_bin(OAdd,r,x); else if(has(n,".or.")) r=mk_bin(OOr,r,x); else if(has(n,".and.")) r=mk_bin(OAnd,r,x); else if(has(n,".xor.")) r=mk_bin(OXor,r,x); else if(has(n,".umax.")) r=mk_ite(mk_bin(OUlt,r,x),x,r); else if(has(n,".umin.")) r=mk_ite(mk_bin(OUlt,x,r),x,r); else unsup(n); } return ret(ve(r)); }
    case IN_PTRMASK: return ret(bin(s,OAnd,a[0],a[1]));
    case IN_FORMAT: if(s.realfmt){ pushFrame(s,f,a,&in); return false; } { auto it=M.fn.find("rsym_empty_string"); if(it==M.fn.end()) unsup("rsym_empty_string missing"); vector<V> b{a[0]}; pushFrame(s,it->second,b,&in); return false; }
    case IN_RANDKEYS: if(L==2){ res.push_back(vc(0x0123456789abcdefull,64)); res.push_back(vc(0xfedcba9876543210ull,64)); return true; } unsup("hashmap_random_keys shape");
    case IN_WRITE: return ret(a.size()>2? a[2]:vc(0,64));
    case IN_SYM: { u16 w= f->name=="rsym_u8"?8: f->name=="rsym_u16"?16: f->name=="rsym_u32"?32:64; u32 idx=s.inputs.size(); auto& e=inVars[{idx,w}]; if(!e) e=mkvar(w,"in"+std::to_string(idx)); s.inputs.push_back(e->imm); if(s.model.size()<=e->imm) s.model.resize(e->imm+1,0); R[s.h].maxinputs=std::max<u64>(R[s.h].maxinputs,s.inputs.size()); return ret(ve(e)); }
    case IN_SASSUME: { V c=a[0]; if(c.w>1) c=icmp(1,c,vc(0,c.w)); if(!c.e){ if(!c.c) throw Kill(); return true; } if(evalm(s,c.e)){ addc(s,c.e); return true; } vector<u64> m; int r=feasible(s,c.e,m); if(r==0) throw Kill(); if(r==-1){ incompl(s.h,"solver gave no answer (timeout) on an assumption"); throw Kill(); } s.model=m; addc(s,c.e); return true; }
    case IN_SASSERT: { V c=a[0]; if(c.w>1) c=icmp(1,c,vc(0,c.w)); R[s.h].asserts++; if(!c.e){ if(!c.c) perr("assert","assertion "+std::to_string(concretize(s,a[1]))); return true; } vector<u64> m; EP nc=mk_not(c.e); int r=feasible(s,nc,m); if(r==1){ State* n=forkst(s); n->model=m; addc(*n,nc); report(*n,"assert","assertion "+std::to_string(concretize(s,a[1]))); delete n; if(!evalm(s,c.e)){ vector<u64> m2; int q=feasible(s,c.e,m2); if(q!=1) throw Kill(); s.model=m2; } } else if(r==-1) incompl(s.h,"solver gave no answer (timeout) on an assertion"); addc(s,c.e); return true; }
    case IN_SCOVER: { u32 id=(u32)concretize(s,a[0]); if(R[s.h].covers.count(id)) return true; V c=a[1]; if(c.w>1) c=icmp(1,c,vc(0,c.w)); bool y=false; if(!c.e) y=c.c; else if(evalm(s,c.e)) y=true; else { vector<u64> m; y=feasible(s,c.e,m)==1; } if(y) R[s.h].covers.insert(id); return true; }
    case IN_SREALFMT: s.realfmt=concretize(s,a[0])!=0; return true; case IN_SALIM: s.alim=concretize(s,a[0]); return true;
    case IN_SPARAM: { u64 k=concretize(s,a[0]); auto it=PARAMS.find(std::to_string(k)); return ret(vc(it==PARAMS.end()?0:it->second,64)); }
    case IN_SSYMBOLIC: return ret(vc(concretize(s,a[0]),64));
    case IN_STRACE: { s.trace.push_back(a[0]); return true; }
    case IN_UNSUP: unsup("call to external function "+f->name); }
  return false; }

static void setres(Frame& f,const Inst& in,vector<V>& r){ if(in.dst<0) return; for(size_t i=0;i<r.size();i++) f.sl[in.dst+i]=r[i]; }
static void jump(Frame& f,int to){ int from=f.bb; Block& b=f.f->bl[to]; 
  // parallel phi evaluation
  size_t np=0; while(np<b.in.size()&&b.in[np].op==I::Phi) np++; 
  if(np){ static vector<V> tmp; tmp.clear(); for(size_t i=0;i<np;i++){ Inst& p=b.in[i]; unsigned k=0; while(k<p.idx.size()&&(int)p.idx[k]!=from) k++; if(k==p.idx.size()){ fprintf(stderr,"phi without incoming block in %s\n",f.f->name.c_str()); abort(); } for(unsigned l=0;l<p.ty->leaves;l++) tmp.push_back(opv(f,p.ops[k],l)); }
    size_t t=0; for(size_t i=0;i<np;i++){ Inst& p=b.in[i]; for(unsigned l=0;l<p.ty->leaves;l++) f.sl[p.dst+l]=tmp[t++]; } }
  f.prev=from; f.bb=to; f.ip=np; }

static void execCall(State& s,const Inst& in){
  Frame& f=s.fr.back(); Func* c=in.callee; size_t first=0;
  if(in.indirect){ u64 a=concretize(s,opv(f,in.ops[0])); auto it=M.faddr.find(a); if(it==M.faddr.end()) perr("memory","indirect call to "+hexs(a)); c=it->second; first=1; }
  if(!c){ if(in.cname=="<asm>"){ // compiler barriers (black_box): value passes through memory
      if(in.ty&&in.ty->k!=Type::Void) unsup("inline asm with result"); f.ip++; return; } unsup("call without callee"); }
  vector<V> args; for(size_t i=first;i<in.ops.size();i++){ const Operand& o=in.ops[i]; unsigned L=o.ty->k==Type::Meta?1:o.ty->leaves; for(unsigned l=0;l<L;l++) args.push_back(opv(f,o,l)); }
  if(!c->entered){ c->entered=true; c->al_kind=classify(c); }
  if(c->al_kind){ vector<V> res; size_t depth=s.fr.size(); if(intrinsic(s,c->al_kind,in,c,args,res)){ Frame& g=s.fr.back(); setres(g,in,res); if(in.t>=0) jump(g,in.t); else g.ip++; } (void)depth; return; }
  pushFrame(s,c,args,&in); }

static bool step(State& s){ // executes one instruction; false when the path is complete
  Frame& f=s.fr.back(); Inst& in=f.f->bl[f.bb].in[f.ip]; if(!in.seen){ in.seen=true; if(in.dbg) seenDbg.insert(in.dbg); }
  s.ninst++;
  switch(in.op){
    case I::Nop: f.ip++; return true;
    case I::Alloca: { u64 n=1; u64 al=in.al; s.sp=(s.sp+al-1)/al*al; u64 b=s.sp; u64 sz=in.ty2->size*n; s.sp+=sz+32; s.stk.push_back(OR(mkobj(b,sz,2))); f.sl[in.dst]=vc(b,64); f.ip++; return true; }
    case I::Load: { const V a=opv(f,in.ops[0]); auto& l=layout(in.ty);
      if(in.ty->k==Type::Vec&&in.ty->el->k==Type::Int&&in.ty->el->bits<8){ unsigned w=in.ty->el->bits,n=in.ty->n,by=(w*n+7)/8; if(by>16) unsup("wide bit vector"); V v=loadv(s,a,by,by*8); for(unsigned i=0;i<n;i++) s.fr.back().sl[in.dst+i]=ve(mk_extract(toE(v),i*w,w)); s.fr.back().ip++; return true; }
      if(l.size()==1){ V v=loadv(s,a,(l[0].second->bits+7)/8,l[0].second->bits); s.fr.back().sl[in.dst]=v; } else { V base=a; if(!isConc(a)) base=vc(concretize(s,a),64); for(size_t i=0;i<l.size();i++) f.sl[in.dst+i]=loadv(s,vadd(base,l[i].first),(l[i].second->bits+7)/8,l[i].second->bits); } f.ip++; return true; }
    case I::Store: { const V a=opv(f,in.ops[1]); auto& l=layout(in.ty);
      if(in.ty->k==Type::Vec&&in.ty->el->k==Type::Int&&in.ty->el->bits<8){ unsigned w=in.ty->el->bits,n=in.ty->n,by=(w*n+7)/8; if(by>16) unsup("wide bit vector"); EP e=nullptr; for(unsigned i=0;i<n;i++){ EP x=toE(opv(f,in.ops[0],i)); e= e? mk_concat(x,e):x; } if(by*8>w*n) e=mk_zext(e,by*8); storev(s,a,by,ve(e)); f.ip++; return true; }
      V base=a; if(l.size()>1&&!isConc(a)) base=vc(concretize(s,a),64); for(size_t i=0;i<l.size();i++) storev(s,l[i].first?vadd(base,l[i].first):base,(l[i].second->bits+7)/8,opv(f,in.ops[0],i)); f.ip++; return true; }
    case I::Gep: { V a=opv(f,in.ops[0]); u64 k=in.gepconst; EP e=a.e; if(!e) k+=a.c; for(size_t i=1;i<in.ops.size();i++){ const V& x=opv(f,in.ops[i]); u64 m=in.gepmul[i-1]; if(!x.e) k+=(u64)sx64(x.c,x.w)*m; else { EP y=mk_sext(x.e,64); y=mk_bin(OMul,y,mkc(m,64)); e= e? mk_bin(OAdd,e,y):y; } } 
        if(!e) f.sl[in.dst]=vc(k,64); else f.sl[in.dst]=ve(mk_bin(OAdd,e,mkc(k,64))); f.ip++; return true; }
    case I::Call: execCall(s,in); return true;
    case I::Br: jump(f,in.t); return true;
    case I::CondBr: { const V& c=opv(f,in.ops[0]); bool b; if(!c.e) b=c.c!=0; else b=branch(s,c.e); jump(s.fr.back(),b?in.t:in.f); return true; }
    case I::Switch: { const V v=opv(f,in.ops[0]); if(!v.e){ int to=in.t; for(size_t i=0;i<in.cases.size();i++) if(in.cases[i]==v.c){ to=in.idx[i]; break; } jump(f,to); return true; }
        // group by target
        u64 x=(u64)evalm(s,v.e); int mine=in.t; for(size_t i=0;i<in.cases.size();i++) if(in.cases[i]==x){ mine=in.idx[i]; break; }
        std::map<int,EP> cond; EP any=FALSE_(); for(size_t i=0;i<in.cases.size();i++){ EP q=mk_bin(OEq,v.e,mkc(in.cases[i],v.w)); any=mk_bin(OOr,any,q); auto it=cond.find(in.idx[i]); if(it==cond.end()) cond[in.idx[i]]=q; else it->second=mk_bin(OOr,it->second,q); }
        EP def=mk_not(any); { auto it=cond.find(in.t); if(it==cond.end()) cond[in.t]=def; else it->second=mk_bin(OOr,it->second,def); }
        for(auto& kv:cond){ if(kv.first==mine) continue; vector<u64> m; int r=feasible(s,kv.second,m); if(r==-1) incompl(s.h,"solver gave no answer (timeout) on a switch"); if(r==1){ State* n=forkst(s); n->model=m; addc(*n,kv.second); jump(n->fr.back(),kv.first); WL.push_back(n); } }
        addc(s,cond[mine]); jump(s.fr.back(),mine); return true; }
    case I::Ret: { vector<V> r; if(!in.ops.empty()) for(unsigned l=0;l<in.ty->leaves;l++) r.push_back(opv(f,in.ops[0],l)); const Inst* c=f.call; popFrame(s); if(s.fr.empty()) return false; Frame& g=s.fr.back(); setres(g,*c,r); if(c->t>=0) jump(g,c->t); else g.ip++; return true; }
    case I::Unreach: perr("unreachable","unreachable instruction reached");
    case I::Phi: fprintf(stderr,"stray phi\n"); abort();
    case I::Select: { const V& c=opv(f,in.ops[0]); unsigned L=in.ty->leaves; bool vecc=in.ops[0].ty->k==Type::Vec; 
        if(!vecc&&!c.e){ for(unsigned l=0;l<L;l++) f.sl[in.dst+l]=opv(f,in.ops[c.c?1:2],l); f.ip++; return true; }
        if(!vecc){ bool ptr=false; auto& ly=layout(in.ty); for(unsigned l=0;l<L;l++){ const V&x=opv(f,in.ops[1],l),&y=opv(f,in.ops[2],l); bool same=x.w==y.w&&x.e==y.e&&(x.e||x.c==y.c); if(ly[l].second->k==Type::Ptr&&!same) ptr=true; }
          if(ptr){ EP ce=c.e; bool b=branch(s,ce); Frame& g=s.fr.back(); for(unsigned l=0;l<L;l++) g.sl[in.dst+l]=opv(g,in.ops[b?1:2],l); g.ip++; return true; } }
        vector<V> r(L); for(unsigned l=0;l<L;l++){ const V& ci=vecc?opv(f,in.ops[0],l):c; const V&x=opv(f,in.ops[1],l),&y=opv(f,in.ops[2],l); if(!ci.e) r[l]=ci.c?x:y; else r[l]=ve(mk_ite(ci.e,toE(x),toE(y))); } for(unsigned l=0;l<L;l++) f.sl[in.dst+l]=r[l]; f.ip++; return true; }
    case I::Icmp: { unsigned L=in.ty->leaves; for(unsigned l=0;l<L;l++){ V r=icmp(in.pred,opv(f,in.ops[0],l),opv(f,in.ops[1],l)); f.sl[in.dst+l]=r; } f.ip++; return true; }
    case I::Fcmp: { unsigned L=in.ty->leaves; for(unsigned l=0;l<L;l++){ V r=fcmp(in.pred,opv(f,in.ops[0],l),opv(f,in.ops[1],l)); f.sl[in.dst+l]=r; } f.ip++; return true; }
    case I::Bin: { unsigned L=in.ty->leaves; for(unsigned l=0;l<L;l++){ V r=bin(s,in.sub,opv(f,in.ops[0],l),opv(f,in.ops[1],l)); f.sl[in.dst+l]=r; } f.ip++; return true; }
    case I::FBin: { unsigned L=in.ty->leaves; for(unsigned l=0;l<L;l++){ V r=ve(mk_fbin((Op)in.sub,toE(opv(f,in.ops[0],l)),toE(opv(f,in.ops[1],l)))); f.sl[in.dst+l]=r; } f.ip++; return true; }
    case I::FNeg: { unsigned L=in.ty->leaves; for(unsigned l=0;l<L;l++){ V x=opv(f,in.ops[0],l); f.sl[in.dst+l]=ve(mk_bin(OXor,toE(x),mkc((u128)1<<(x.w-1),x.w))); } f.ip++; return true; }
    case I::Cast: { Type* from=in.ops[0].ty; if(in.sub==11&&(from->leaves!=1||in.ty->leaves!=1)){ // bitcast with vectors
          vector<V> src; for(unsigned l=0;l<from->leaves;l++) src.push_back(opv(f,in.ops[0],l)); auto& lt=layout(in.ty); 
          if(src.size()==lt.size()){ for(size_t i=0;i<src.size();i++) f.sl[in.dst+i]=src[i]; }
          else { unsigned tot=0; for(auto&x:src) tot+=x.w; if(tot>128) unsup("wide bitcast"); EP e=nullptr; for(auto&x:src) e= e? mk_concat(toE(x),e):toE(x); unsigned lo=0; for(size_t i=0;i<lt.size();i++){ unsigned w=lt[i].second->bits; f.sl[in.dst+i]=ve(mk_extract(e,lo,w)); lo+=w; } }
          f.ip++; return true; }
        auto& lt=layout(in.ty); for(unsigned l=0;l<in.ty->leaves;l++){ V r=castv(in.sub,opv(f,in.ops[0],l),lt[l].second); f.sl[in.dst+l]=r; } f.ip++; return true; }
    case I::ExtractV: { for(unsigned l=0;l<in.ty->leaves;l++){ V v=opv(f,in.ops[0],in.idx[0]+l); f.sl[in.dst+l]=v; } f.ip++; return true; }
    case I::InsertV: { unsigned n=in.ops[1].ty->leaves; vector<V> t; for(unsigned l=0;l<in.ty->leaves;l++) t.push_back(opv(f,in.ops[0],l)); for(unsigned l=0;l<n;l++) t[in.idx[0]+l]=opv(f,in.ops[1],l); for(unsigned l=0;l<in.ty->leaves;l++) f.sl[in.dst+l]=t[l]; f.ip++; return true; }
    case I::ExtractE: { u64 k=concretize(s,opv(f,in.ops[1])); Frame& g=s.fr.back(); g.sl[in.dst]=V(opv(g,in.ops[0],k)); g.ip++; return true; }
    case I::InsertE: { u64 k=concretize(s,opv(f,in.ops[2])); vector<V> t; for(unsigned l=0;l<in.ty->leaves;l++) t.push_back(opv(f,in.ops[0],l)); t[k]=opv(f,in.ops[1]); for(unsigned l=0;l<in.ty->leaves;l++) f.sl[in.dst+l]=t[l]; f.ip++; return true; }
    case I::Shuffle: { unsigned n=in.ops[0].ty->leaves; vector<V> t; for(u32 k:in.idx) t.push_back(k<n? opv(f,in.ops[0],k): k<2*n? opv(f,in.ops[1],k-n):vc(0,in.ty->el->bits)); for(size_t l=0;l<t.size();l++) f.sl[in.dst+l]=t[l]; f.ip++; return true; }
    case I::ARMW: { const V a=opv(f,in.ops[0]); const V v=opv(f,in.ops[1]); unsigned n=(in.ty->bits+7)/8; V o=loadv(s,a,n,in.ty->bits); V r; switch(in.sub){ case 0: r=v; break; case 1: r=bin(s,OAdd,o,v); break; case 2: r=bin(s,OSub,o,v); break; case 3: r=bin(s,OAnd,o,v); break; case 4: r=bin(s,OOr,o,v); break; case 5: r=bin(s,OXor,o,v); break; default: unsup("atomicrmw"); } storev(s,a,n,r); f.sl[in.dst]=o; f.ip++; return true; }
    case I::CmpX: { const V a=opv(f,in.ops[0]); unsigned n=(in.ty2->bits+7)/8; V o=loadv(s,a,n,in.ty2->bits); V eq=icmp(0,o,opv(f,in.ops[1])); bool b= !eq.e? eq.c!=0 : branch(s,eq.e); if(b) storev(s,a,n,opv(f,in.ops[2])); f.sl[in.dst]=o; f.sl[in.dst+1]=vc(b,1); f.ip++; return true; }
    case I::Freeze: { for(unsigned l=0;l<in.ty->leaves;l++){ V v=opv(f,in.ops[0],l); f.sl[in.dst+l]=v; } f.ip++; return true; }
    case I::LandingPad: case I::Resume: perr("unreachable","unwinding reached"); }
  return true; }

static string js(const string& s){ string o="\""; for(char c:s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if((unsigned char)c<32) o+=' '; else o+=c; } return o+"\""; }
static void writeResults(){ string p=OUTDIR+"/"+std::to_string(getpid())+".json"; FILE* f=fopen(p.c_str(),"w"); 
  fprintf(f,"{\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"cache_hits\":%lu,\"domain_decisions\":%lu,\"solver_s\":%.3f,\"exprs\":%zu,\"harnesses\":{",S.n_q,S.n_sat,S.n_unsat,S.n_unknown,S.n_cache,S.n_dom,S.t,g_all.size());
  for(size_t i=0;i<H.size();i++){ HRes& r=R[i]; fprintf(f,"%s%s:{\"paths\":%lu,\"assumed_away\":%lu,\"insts\":%lu,\"forks\":%lu,\"max_inst\":%lu,\"max_inputs\":%lu,\"asserts\":%lu,\"covers\":[",i?",":"",js(H[i]).c_str(),r.paths,r.killed,r.insts,r.forks,r.maxinst,r.maxinputs,r.asserts); int k=0; for(u32 c:r.covers) fprintf(f,"%s%u",k++?",":"",c); fprintf(f,"],\"incomplete\":["); k=0; for(auto&c:r.incomplete) fprintf(f,"%s%s",k++?",":"",js(c).c_str()); fprintf(f,"]}"); }
  fprintf(f,"},\"errors\":["); for(size_t i=0;i<ERRS.size();i++){ Err&e=ERRS[i]; fprintf(f,"%s{\"harness\":%s,\"kind\":%s,\"msg\":%s,\"inputs\":%s,\"stack\":[",i?",":"",js(H[e.h]).c_str(),js(e.kind).c_str(),js(e.msg).c_str(),js(e.inputs).c_str()); for(size_t j=0;j<e.stack.size();j++) fprintf(f,"%s%s",j?",":"",js(e.stack[j]).c_str()); fprintf(f,"]}"); }
  fprintf(f,"],\"samples\":["); { int k=0; for(size_t i=0;i<H.size();i++) for(auto& x:R[i].samples){ fprintf(f,"%s{\"harness\":%s,\"inputs\":\"%s\",\"insts\":%lu,\"trace\":[",k++?",":"",js(H[i]).c_str(),x.inputs.c_str(),x.insts); for(size_t j=0;j<x.trace.size();j++) fprintf(f,"%s%lu",j?",":"",x.trace[j]); fprintf(f,"]}"); } }
  fprintf(f,"],\"functions\":["); std::set<string> fs; std::set<u32> done; for(u32 d:seenDbg){ while(d&&done.insert(d).second){ string file; int line; u32 sp; M.loc(d,file,line,sp); if(file.find("/repo/")!=string::npos){ string nm=M.mdstr(M.mdp(sp),"linkageName: "); string n2=M.mdstr(M.mdp(sp),"name: "); size_t k=file.find("/repo/"); fs.insert(file.substr(k+6)+" "+(nm.empty()?n2:demangle(nm))); } d=M.inlinedAt(d); } }
  int k=0; for(auto&x:fs) fprintf(f,"%s%s",k++?",":"",js(x).c_str()); fprintf(f,"]}\n"); fclose(f); }

static u64 rss(){ FILE* f=fopen("/proc/self/statm","r"); if(!f) return 0; unsigned long a=0,b=0; if(fscanf(f,"%lu %lu",&a,&b)!=2) b=0; fclose(f); return b*4096ull; }
static void donate(){ if(WL.size()<2) return; int a=SH->active.load(); if(a>=SH->maxp) return; if(!SH->active.compare_exchange_strong(a,a+1)) return;
  size_t h=WL.size()/2; pid_t p=fork(); if(p<0){ SH->active--; return; }
  if(p==0){ for(size_t i=h;i<WL.size();i++) ; WL.resize(h); for(auto&r:R){ r=HRes(); } ERRS.clear(); S.n_q=S.n_sat=S.n_unsat=S.n_unknown=S.n_cache=S.n_dom=0; S.t=0; throw 1; }
  WL.erase(WL.begin(),WL.begin()+h); }
static void sample(State& s){ auto& v=R[s.h].samples; u64 n=R[s.h].paths; size_t at; 
  if(v.size()<3) { at=v.size(); v.emplace_back(); } else if(s.ninst>v[2].insts) at=2; else if((n&(n-1))==0) at=1; else return;
  Sample& x=v[at]; x.inputs=inputsHex(s); x.insts=s.ninst; x.trace.clear(); for(auto& t:s.trace) x.trace.push_back(t.e? (u64)evalm(s,t.e):t.c); }
static void runState(State* s){ bool ended=false; u64 tick=0;
  try { while(step(*s)){ if((++tick&0x3fff)==0){ if(now_s()>DEADLINE||SH->stop){ incompl(s->h,"time budget exhausted"); ended=true; break; } if(s->ninst>INSTBUDGET){ report(*s,"budget","instruction budget of "+std::to_string(INSTBUDGET)+" exceeded on one path (possible non-termination)"); ended=true; break; } } }
    R[s->h].paths+=!ended; if(!ended) sample(*s); }
  catch(PathEnd& e){ report(*s,e.kind,e.msg); R[s->h].paths++; }
  catch(Kill&){ R[s->h].killed++; }
  catch(Unsup& u){ vector<string> st=stackOf(*s); string w; for(auto&x:st) if(has(x,"/repo/")){ w=x; break; } incompl(s->h,"unsupported: "+u.m+(st.empty()?"":" in "+st[0])+(w.empty()?"":" from "+w)); }
  R[s->h].insts+=s->ninst; R[s->h].maxinst=std::max(R[s->h].maxinst,s->ninst); delete s; }
static int mainloop(){ // returns when the worklist is empty
  u64 it=0; double last=now_s(); (void)last;
  for(;;){ try { while(!WL.empty()){ donate(); State* s=WL.back(); WL.pop_back(); 
        if(now_s()>DEADLINE){ incompl(s->h,"time budget exhausted"); delete s; continue; }
        if((++it&63)==0&&rss()>RSSLIM){ incompl(s->h,"memory budget exhausted"); delete s; continue; }
        unsigned ne=0; for(auto&e:ERRS) ne+=e.h==s->h; if(ne>=MAXERR){ incompl(s->h,"error limit reached"); delete s; continue; }
        runState(s); } return 0; } catch(int){ /* forked child continues with its half */ } } }

static vector<string> ARGV; static int g_rc=0;
static void* realmain(void*){
  string ll; int jobs=1; double tl=600; for(size_t i=1;i<ARGV.size();i++){ string a=ARGV[i]; if(a=="-j") jobs=stoi(ARGV[++i]); else if(a=="-t") tl=stod(ARGV[++i]); else if(a=="-o") OUTDIR=ARGV[++i]; else if(a=="-q") S.timeout_ms=stoi(ARGV[++i])*1000; else if(a=="-m") RSSLIM=stoull(ARGV[++i])<<20; else if(a=="-b") INSTBUDGET=stoull(ARGV[++i]); else if(a=="-p"){ string kv=ARGV[++i]; size_t e=kv.find('='); PARAMS[kv.substr(0,e)]=stoull(kv.substr(e+1)); } else if(ll.empty()) ll=a; else H.push_back(a); }
  SH=(Shared*)mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); new(SH) Shared; SH->active=1; SH->maxp=jobs; SH->stop=0; DEADLINE=now_s()+tl;
  prctl(PR_SET_CHILD_SUBREAPER,1); pid_t root=getpid();
  S.init(); M.open(ll.c_str()); R.resize(H.size());
  for(size_t i=0;i<H.size();i++){ auto it=M.fn.find(H[i]); if(it==M.fn.end()){ fprintf(stderr,"rsx: no harness %s\n",H[i].c_str()); g_rc=3; return 0; } State* s=new State; s->h=i; vector<V> no; pushFrame(*s,it->second,no,nullptr); WL.push_back(s); }
  mainloop(); writeResults(); SH->active--;
  if(getpid()!=root) _exit(0);
  int st; pid_t p; while((p=waitpid(-1,&st,0))>0||(p<0&&errno==EINTR)){ if(p>0&&!(WIFEXITED(st)&&WEXITSTATUS(st)==0)){ fprintf(stderr,"rsx: worker %d failed (status %x)\n",p,st); g_rc=4; SH->active--; } }
  return 0; }
int main(int argc,char**argv){ for(int i=0;i<argc;i++) ARGV.push_back(argv[i]); pthread_attr_t at; pthread_attr_init(&at); size_t sz=4ull<<30; void* st=mmap(0,sz,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_STACK,-1,0); pthread_attr_setstack(&at,st,sz); pthread_t t; if(pthread_create(&t,&at,realmain,0)){ perror("thread"); return 2; } pthread_join(t,0); return g_rc; }
