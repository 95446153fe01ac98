// Parser for textual LLVM IR (as printed by rustc's LLVM), lazily per function.
#pragma once
#include "expr.h"
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <string_view>
#include <memory>
using std::string; using std::string_view; using std::vector;

struct Type { enum K{Void,Int,Flt,Dbl,Ptr,Arr,Vec,Str,Label,Meta,Opaque} k; unsigned bits=0; Type* el=nullptr; u64 n=0; vector<Type*> f; bool packed=false;
  u64 size=0, align=1; vector<u64> off; unsigned leaves=1; vector<unsigned> leafoff; };

struct TypeTab {
  std::map<string,Type*> named; std::map<string,Type*> pool;
  Type *Void,*Flt,*Dbl,*Ptr,*Label,*Meta;
  TypeTab(){ Void=mk(Type::Void,0,0,1,0); Flt=mk(Type::Flt,32,4,4,1); Dbl=mk(Type::Dbl,64,8,8,1); Ptr=mk(Type::Ptr,64,8,8,1); Label=mk(Type::Label,0,0,1,0); Meta=mk(Type::Meta,0,0,1,1); }
  Type* mk(Type::K k,unsigned b,u64 s,u64 a,unsigned lv){ Type*t=new Type; t->k=k;t->bits=b;t->size=s;t->align=a;t->leaves=lv; return t; }
  Type* Int(unsigned b){ string key="i"+std::to_string(b); auto&t=pool[key]; if(!t){ u64 by=(b+7)/8; u64 al=1; while(al<by&&al<(b>64?16:8)) al*=2; u64 sz=(by+al-1)/al*al; t=mk(Type::Int,b,sz,al,1);} return t; }
  Type* arr(Type* e,u64 n,bool vec){ char key[64]; snprintf(key,64,"%s%p_%lu",vec?"V":"A",(void*)e,(unsigned long)n); auto&t=pool[key]; if(!t){ t=new Type; t->k=vec?Type::Vec:Type::Arr; t->el=e;t->n=n; 
      if(vec&&e->k==Type::Int&&e->bits<8){ t->size=(n*e->bits+7)/8; t->align=1; } else { t->size=e->size*n; t->align=vec?std::max<u64>(1,t->size):e->align; }
      t->leaves=e->leaves*n; } return t; }
  Type* str(vector<Type*> f,bool packed){ string key=packed?"P":"S"; char b[32]; for(auto*x:f){ snprintf(b,32,"%p,",(void*)x); key+=b; } auto&t=pool[key]; if(!t){ t=new Type; t->k=Type::Str; t->f=f; t->packed=packed; u64 o=0,al=1; unsigned lv=0;
      for(auto*x:f){ u64 a=packed?1:x->align; o=(o+a-1)/a*a; t->off.push_back(o); o+=x->size; al=std::max(al,a); t->leafoff.push_back(lv); lv+=x->leaves; } t->align=al; t->size=(o+al-1)/al*al; t->leaves=lv; } return t; }
};

struct V { u64 c=0; EP e=nullptr; u16 w=0; 
  bool conc() const { return !e; } };
static V vc(u64 c,u16 w){ V v; v.w=w; if(w<=64) v.c= w==64? c : c&(((u64)1<<w)-1); else v.e=mkc(c,w); return v; }
static V ve(EP e){ V v; v.w=e->w; if(isc(e)&&e->w<=64) v.c=(u64)e->k; else v.e=e; return v; }
static EP toE(const V& v){ return v.e? v.e : mkc(v.c,v.w); }
static bool isConc(const V& v){ return !v.e || v.e->op==OConst; }
static u128 cval(const V& v){ return v.e? v.e->k : v.c; }

struct Operand { int slot=-1; int cidx=-1; Type* ty=nullptr; }; // slot >=0: SSA slot (first leaf); else constant pool index in function

enum class I : u8 { Alloca, Load, Store, Gep, Call, Br, CondBr, Switch, Ret, Unreach, Phi, Select, Icmp, Fcmp, Bin, FBin, FNeg, Cast, ExtractV, InsertV, ExtractE, InsertE, Shuffle, ARMW, CmpX, Freeze, Nop, LandingPad, Resume };
struct Func;
struct Inst { I op; u8 sub=0; u8 pred=0; bool seen=false; int dst=-1; Type* ty=nullptr; Type* ty2=nullptr; vector<Operand> ops; vector<u32> idx; vector<u64> cases; int t=-1,f=-1; u32 dbg=0; Func* callee=nullptr; string_view cname; int intr=-1; vector<u64> gepmul; u64 gepconst=0; u64 al=1; bool indirect=false; };
struct Block { vector<Inst> in; std::unordered_map<int,int> dummy; };
struct Func { string name; size_t pos=0,end=0; bool parsed=false; bool declared=false; vector<Block> bl; int nslots=0; vector<int> params; vector<Type*> ptypes; Type* ret=nullptr; vector<vector<V>> consts; u64 addr=0; int kind=-1; u32 sp=0; bool entered=false; int al_kind=0; };
struct Global { string name; size_t pos=0; Type* ty=nullptr; bool constant=false,ext=false,tls=false; u64 addr=0; u64 al=1; size_t init=0; bool alias=false; u64 aliasv=0;};

struct Module {
  const char* d; size_t n; TypeTab T; std::unordered_map<string,Func*> fn; std::unordered_map<string,Global*> gl; std::map<u64,Func*> faddr; std::map<u64,Global*> gaddr;
  vector<u32> mdpos_hi; std::unordered_map<u32,size_t> md; vector<Func*> fl; vector<Global*> gll; vector<size_t> mdv;
  [[noreturn]] void die(size_t p,const string& m){ size_t a=p; while(a>0&&d[a-1]!='\n') a--; size_t b=p; while(b<n&&d[b]!='\n') b++; fprintf(stderr,"IR parse error: %s at col %zu in: %.*s\n",m.c_str(),p-a,(int)std::min<size_t>(b-a,600),d+a); exit(2); }
  // --- lexing
  size_t p=0;
  void ws(){ for(;;){ while(p<n&&(d[p]==' '||d[p]=='\t')) p++; break; } }
  void wsnl(){ for(;;){ while(p<n&&(d[p]==' '||d[p]=='\t'||d[p]=='\n')) p++; if(p<n&&d[p]==';'){ while(p<n&&d[p]!='\n') p++; } else break; } }
  bool eat(const char* s){ ws(); size_t l=strlen(s); if(p+l<=n&&!memcmp(d+p,s,l)){ p+=l; return true; } return false; }
  void expect(const char* s){ if(!eat(s)) die(p,string("expected ")+s); }
  bool peek(char c){ ws(); return p<n&&d[p]==c; }
  static bool idc(char c){ return isalnum((unsigned char)c)||c=='_'||c=='.'||c=='$'||c=='-'; }
  string_view word(){ ws(); size_t a=p; while(p<n&&(isalnum((unsigned char)d[p])||d[p]=='_'||d[p]=='.')) p++; return string_view(d+a,p-a); }
  string_view peekword(){ size_t s=p; auto w=word(); p=s; return w; }
  bool eatw(const char* s){ size_t q=p; auto w=word(); if(w==s) return true; p=q; return false; }
  string_view ident(){ // after % or @
    if(d[p]=='"'){ size_t a=++p; while(d[p]!='"') p++; auto r=string_view(d+a,p-a); p++; return r; }
    size_t a=p; while(p<n&&idc(d[p])) p++; return string_view(d+a,p-a); }
  u64 unum(){ ws(); u64 v=0; while(p<n&&isdigit((unsigned char)d[p])) v=v*10+(d[p++]-'0'); return v; }
  Type* type(){ ws(); Type* t=nullptr; char ch=d[p];
    if(ch=='['||ch=='<'){ if(ch=='<'&&d[p+1]=='{'){ p+=2; vector<Type*> f; wsnl(); if(!eat("}")){ do f.push_back(type()); while(eat(",")); expect("}"); } expect(">"); t=T.str(f,true); }
      else { p++; u64 c=unum(); if(!eatw("x")) die(p,"x"); Type* e=type(); expect(ch=='['?"]":">"); t=T.arr(e,c,ch=='<'); } }
    else if(ch=='{'){ p++; vector<Type*> f; if(!eat("}")){ do f.push_back(type()); while(eat(",")); expect("}"); } t=T.str(f,false); }
    else if(ch=='%'){ p++; auto nm=ident(); auto it=T.named.find(string(nm)); if(it==T.named.end()) die(p,"named type"); t=it->second; }
    else { auto w=word(); if(w=="void") t=T.Void; else if(w=="ptr"){ t=T.Ptr; if(eat("addrspace(")){ unum(); expect(")"); } } else if(w=="float") t=T.Flt; else if(w=="double") t=T.Dbl; else if(w=="label") t=T.Label; else if(w=="metadata"||w=="token") t=T.Meta; else if(w=="half") t=T.Int(16); else if(w=="x86_fp80"||w=="fp128") t=T.Int(128);
      else if(w.size()>1&&w[0]=='i'&&isdigit((unsigned char)w[1])) t=T.Int(atoi(string(w.substr(1)).c_str())); else die(p,"type "+string(w)); }
    ws(); if(d[p]=='('){ // function type
      int dep=0; do { if(d[p]=='(') dep++; if(d[p]==')') dep--; p++; } while(dep); t=T.Void==t?T.Void:t; }
    return t; }
  static bool valueword(string_view w){ return w=="true"||w=="false"||w=="null"||w=="undef"||w=="poison"||w=="zeroinitializer"||w=="none"||w=="getelementptr"||w=="inttoptr"||w=="ptrtoint"||w=="sub"||w=="add"||w=="splat"||w=="bitcast"||w=="trunc"||w=="zext"||w=="asm"||w=="select"||w=="icmp"||w=="and"||w=="xor"||w=="mul"||w=="addrspacecast"||w=="ptrtoaddr"||w=="c"; }
  void skipparens(){ int dep=0; do { if(d[p]=='"'){ p++; while(d[p]!='"') p++; } if(d[p]=='(') dep++; else if(d[p]==')') dep--; p++; } while(dep); }
  void skipattrs(){ for(;;){ ws(); char ch=d[p]; if(ch=='"'){ p++; while(d[p]!='"') p++; p++; if(d[p]=='='){ p+=2; while(d[p]!='"') p++; p++; } continue; } if(ch=='#'){ p++; unum(); continue; } if(!isalpha((unsigned char)ch)) return; size_t s=p; auto w=word();
      if(valueword(w)){ p=s; return; } if(w.size()>2&&(w.substr(0,2)=="f0")){ p=s; return; } ws(); if(d[p]=='(') skipparens(); else if(w=="align"){ unum(); } } }

  void open(const char* path){ int fd=::open(path,O_RDONLY); if(fd<0){ perror(path); exit(2);} struct stat st; fstat(fd,&st); n=st.st_size; d=(const char*)mmap(0,n+1,PROT_READ,MAP_PRIVATE,fd,0); if(d==MAP_FAILED){ perror("mmap"); exit(2);} ::close(fd); index(); }
  void index(){
    size_t i=0; u64 fa=0x1000000; vector<size_t> glines;
    while(i<n){ size_t e=(const char*)memchr(d+i,'\n',n-i)-d; if((const char*)memchr(d+i,'\n',n-i)==nullptr) e=n; 
      char ch=d[i];
      if(ch=='@') glines.push_back(i);
      else if(ch=='%'){ p=i+1; string nm(ident()); expect("="); eatw("type"); ws(); if(!eatw("opaque")) T.named[nm]=type(); }
      else if(ch=='d'&&(!strncmp(d+i,"define ",7)||!strncmp(d+i,"declare ",8))){ bool def=d[i+2]=='f'; const char* q=(const char*)memchr(d+i,'@',e-i); 
        // first @ may be inside attribute? not before the name
        p=q-d+1; Func* f=new Func; f->name=string(ident()); f->pos=i; f->declared=!def; f->addr=fa; fa+=16; fn[f->name]=f; faddr[f->addr]=f; fl.push_back(f);
        if(def){ const char* x=(const char*)memmem(d+e,n-e,"\n}",2); f->end=x-d+1; e=f->end; while(e<n&&d[e]!='\n') e++; } }
      else if(ch=='!'&&isdigit((unsigned char)d[i+1])){ u32 k=0; size_t j=i+1; while(isdigit((unsigned char)d[j])) k=k*10+(d[j++]-'0'); if(mdv.size()<=k) mdv.resize(k+k/2+16,0); mdv[k]=i; }
      i=e+1; }
    u64 ga=0x100000000ull;
    for(size_t g:glines){ p=g+1; Global* G=new Global; G->name=string(ident()); G->pos=g; expect("="); 
      for(;;){ ws(); size_t s=p; auto w=word(); if(w=="constant"||w=="global"){ G->constant=w=="constant"; break; } if(w=="external"||w=="extern_weak"){ G->ext=true; continue; } if(w=="thread_local"){ G->tls=true; ws(); if(d[p]=='(') skipparens(); continue; } if(w=="addrspace"){ ws(); skipparens(); continue; } if(w=="alias"){ G->alias=true; break; } if(w.empty()) die(s,"global"); }
      if(G->alias){ gl[G->name]=G; type(); expect(","); G->ty=T.Int(8); size_t q=p; G->init=q; gll.push_back(G); continue; }
      G->ty=type(); ws(); if(G->ext) { G->init=0; } else G->init=p;
      u64 al=std::max<u64>(16,G->ty->align); ga=(ga+al-1)/al*al; G->addr=ga; ga+=G->ty->size+32; gl[G->name]=G; gaddr[G->addr]=G; gll.push_back(G); }
    for(auto*G:gll) if(G->alias){ p=G->init; type(); vector<V> o; constant(T.Ptr,o); G->addr=(u64)cval(o[0]); }
  }
  u64 symaddr(string_view nm){ string s(nm); auto f=fn.find(s); if(f!=fn.end()) return f->second->addr; auto g=gl.find(s); if(g!=gl.end()) return g->second->addr; die(p,"unknown symbol "+s); }
  // constant of type t -> leaves appended
  void zero(Type* t,vector<V>& o){ switch(t->k){ case Type::Int: case Type::Ptr: case Type::Flt: case Type::Dbl: o.push_back(vc(0,t->bits)); break; case Type::Arr: case Type::Vec: for(u64 i=0;i<t->n;i++) zero(t->el,o); break; case Type::Str: for(auto*x:t->f) zero(x,o); break; default: break; } }
  void constant(Type* t,vector<V>& o){ ws(); char ch=d[p];
    if(ch=='@'){ p++; o.push_back(vc(symaddr(ident()),64)); return; }
    if((ch=='+'||ch=='-')&&isalpha((unsigned char)d[p+1])){ // +inf, -qnan, +nan(0x..), +snan(0x..)
      bool neg=ch=='-'; p++; auto w=word(); u64 pay=0; if(d[p]=='('){ p++; pay=strtoull(d+p,nullptr,16); while(d[p]!=')') p++; p++; } bool D=t->k==Type::Dbl; u64 x=D?0x7FF0000000000000ull:0x7F800000ull, q=D?0x0008000000000000ull:0x400000ull;
      if(w=="inf") ; else if(w=="qnan") x|=q|pay; else if(w=="nan"||w=="snan") x|=pay; else die(p,"constant"); if(neg) x|=D?1ull<<63:1ull<<31; o.push_back(vc(x,t->bits)); return; }
    if(ch=='+') p++, ch=d[p];
    if(ch=='-'||isdigit((unsigned char)ch)){ 
      if(t->k==Type::Flt||t->k==Type::Dbl){ if(ch=='0'&&d[p+1]=='x'){ p+=2; u64 x=strtoull(d+p,nullptr,16); while(isxdigit((unsigned char)d[p])) p++; double v; memcpy(&v,&x,8); if(t->k==Type::Dbl) o.push_back(vc(x,64)); else o.push_back(vc((u64)off((float)v),32)); return; }
        char* e; double v=strtod(d+p,&e); p=e-d; if(t->k==Type::Dbl) o.push_back(vc((u64)ofd(v),64)); else o.push_back(vc((u64)off((float)v),32)); return; }
      bool neg=false; if(ch=='-'){ neg=true; p++; } u128 v=0; while(isdigit((unsigned char)d[p])) v=v*10+(d[p++]-'0'); if(neg) v=(u128)0-v; if(t->bits<=64) o.push_back(vc((u64)v,t->bits)); else o.push_back(ve(mkc(v,t->bits))); return; }
    if(ch=='<'||ch=='{'||ch=='['){ bool pk=ch=='<'&&d[p+1]=='{'; p+=pk?2:1; const char* cl= pk?"}":ch=='<'?">":ch=='{'?"}":"]"; ws(); if(!eat(cl)){ do { Type* e=type(); constant(e,o);} while(eat(",")); expect(cl);} if(pk) expect(">"); return; }
    if(ch=='c'&&d[p+1]=='"'){ p+=2; while(d[p]!='"'){ u8 b=d[p]; if(b=='\\'){ if(d[p+1]=='\\'){ b='\\'; p+=2; } else { auto hx=[](char c){ return c<='9'?c-'0':(c|32)-'a'+10; }; b=hx(d[p+1])*16+hx(d[p+2]); p+=3; } } else p++; o.push_back(vc(b,8)); } p++; return; }
    if(ch=='!'){ // metadata operand
      while(p<n&&d[p]!=','&&d[p]!=')'&&d[p]!='\n'){ if(d[p]=='(') skipparens(); else p++; } o.push_back(vc(0,1)); return; }
    size_t s=p; auto w=word();
    if(w=="true"){ o.push_back(vc(1,1)); return; } if(w=="false"){ o.push_back(vc(0,1)); return; }
    if(w=="null"||w=="undef"||w=="poison"||w=="zeroinitializer"||w=="none"){ zero(t,o); return; }
    if(w=="splat"){ expect("("); Type* e=type(); vector<V> x; constant(e,x); expect(")"); for(u64 i=0;i<t->n;i++) o.insert(o.end(),x.begin(),x.end()); return; }
    if(w.size()>2&&w.substr(0,2)=="f0"){ string h(w.substr(3)); u64 x=strtoull(h.c_str(),nullptr,16); if(t->k==Type::Flt&&h.size()>8){ double v; memcpy(&v,&x,8); o.push_back(vc((u64)off((float)v),32)); } else o.push_back(vc(x,t->bits)); return; }
    if(w=="getelementptr"){ while(!peek('(')) { word(); ws(); if(d[p]=='('&&string_view(d+p-7,7)=="inrange") { skipparens(); } } expect("("); Type* bt=type(); expect(","); type(); vector<V> b; constant(T.Ptr,b); u64 a=(u64)cval(b[0]); bool first=true; Type* cur=bt; while(eat(",")){ Type* it=type(); vector<V> x; constant(it,x); i64 k=(i64)sx(cval(x[0]),it->bits); if(first){ a+=k*(i64)cur->size; first=false; } else if(cur->k==Type::Str){ a+=cur->off[k]; cur=cur->f[k]; } else { cur=cur->el; a+=k*(i64)cur->size; } } expect(")"); o.push_back(vc(a,64)); return; }
    if(w=="inttoptr"||w=="ptrtoint"||w=="bitcast"||w=="trunc"||w=="zext"||w=="addrspacecast"||w=="ptrtoaddr"){ expect("("); Type* a=type(); vector<V> x; constant(a,x); if(!eatw("to")) die(p,"to"); Type* b=type(); expect(")"); u128 v=cval(x[0]); if(b->bits<=64) o.push_back(vc((u64)v,b->bits)); else o.push_back(ve(mkc(v,b->bits))); return; }
    if(w=="sub"||w=="add"||w=="mul"||w=="and"||w=="xor"){ while(!peek('(')) word(); expect("("); Type* a=type(); vector<V> x,y; constant(a,x); expect(","); type(); constant(a,y); expect(")"); u64 X=(u64)cval(x[0]),Y=(u64)cval(y[0]); o.push_back(vc(w=="sub"?X-Y:w=="add"?X+Y:w=="mul"?X*Y:w=="and"?X&Y:X^Y,a->bits)); return; }
    if(w=="asm"){ die(s,"asm"); }
    die(s,"constant '"+string(w)+"'"); }

  // --- function bodies
  struct FP_ { std::unordered_map<string_view,int> slot; std::unordered_map<string_view,Type*> ty; std::unordered_map<string_view,int> label; };
  Func* F=nullptr; std::unordered_map<string_view,std::pair<int,Type*>> sl; std::unordered_map<string_view,int> lab;
  int defslot(string_view nm,Type* t){ auto it=sl.find(nm); if(it!=sl.end()&&it->second.second) return it->second.first; int s=F->nslots; F->nslots+=t->leaves; sl[nm]={s,t}; return s; }
  Operand operand(Type* t){ ws(); Operand o; o.ty=t; if(d[p]=='%'){ p++; auto nm=ident(); auto it=sl.find(nm); if(it==sl.end()){ // forward reference
        int s=F->nslots; F->nslots+=t->leaves; sl[nm]={s,t}; o.slot=s; } else o.slot=it->second.first; return o; }
    vector<V> c; constant(t,c); o.cidx=F->consts.size(); F->consts.push_back(std::move(c)); return o; }
  Operand tyoperand(){ Type* t=type(); skipattrs(); if(t->k==Type::Meta){ // skip
      ws(); while(p<n&&d[p]!=','&&d[p]!=')') p++; Operand o; o.ty=t; vector<V> c{vc(0,1)}; o.cidx=F->consts.size(); F->consts.push_back(c); return o; } return operand(t); }
  int label(){ ws(); if(!eatw("label")) die(p,"label"); ws(); if(d[p]!='%') die(p,"%"); p++; auto nm=ident(); auto it=lab.find(nm); if(it!=lab.end()) return it->second; int k=lab.size(); lab[nm]=k; return k; }
  int labname(string_view nm){ auto it=lab.find(nm); if(it!=lab.end()) return it->second; int k=lab.size(); lab[nm]=k; return k; }
  void trailing(Inst& in){ // rest of line: find !dbg
    size_t e=p; while(e<n&&d[e]!='\n') e++; const char* q=(const char*)memmem(d+p,e-p,"!dbg !",6); if(q) in.dbg=atoi(q+6); p=e; }
  void parseHeader(Func* f){ // params
    p=f->pos; word(); // define/declare
    for(;;){ ws(); // skip linkage/cc/attrs until a type that is followed by @name
      size_t s=p; if(isalpha((unsigned char)d[p])){ auto w=word(); bool isty= w=="void"||w=="ptr"||w=="float"||w=="double"||(w[0]=='i'&&w.size()>1&&isdigit((unsigned char)w[1]))||w=="half"||w=="x86_fp80"||w=="fp128"||w=="metadata"||w=="token"; if(isty){ p=s; break; } ws(); if(d[p]=='(') skipparens(); else if(w=="align") unum(); } else break; }
    f->ret=type(); ws(); if(d[p]!='@') die(p,"fn name"); p++; ident(); expect("("); 
    if(!eat(")")){ do { ws(); if(eat("...")) break; Type* t=type(); skipattrs(); f->ptypes.push_back(t); ws(); if(d[p]=='%'){ p++; auto nm=ident(); if(F==f) f->params.push_back(defslot(nm,t)); } } while(eat(",")); expect(")"); }
    size_t e=p; while(d[e]!='\n') e++; const char* q=(const char*)memmem(d+p,e-p,"!dbg !",6); if(q) f->sp=atoi(q+6); p=e; }
  void parse(Func* f){ if(f->parsed) return; f->parsed=true; F=f; sl.clear(); lab.clear(); parseHeader(f); if(f->declared){ F=nullptr; return; }
    p++; vector<std::pair<int,Block>> blocks; Block cur; int curl=-1; size_t end=f->end;
    auto flush=[&](){ if(curl>=0) blocks.push_back({curl,std::move(cur)}); cur=Block(); };
    while(p<end){ // line start
      size_t ls=p; if(d[p]=='\n'){ p++; continue; } if(d[p]==';'){ while(d[p]!='\n') p++; p++; continue; }
      if(d[p]!=' '){ // label
        string_view nm; nm=ident(); if(d[p]!=':') die(ls,"label def"); flush(); curl=labname(nm); while(d[p]!='\n') p++; p++; continue; }
      ws(); if(d[p]==';'||(d[p]=='#')){ while(d[p]!='\n') p++; p++; continue; }
      if(curl<0){ int k=0; for(auto&x:sl) if(!x.first.empty()&&isdigit((unsigned char)x.first[0])) k++; static std::map<int,string> nums; string& nm=nums[k]; if(nm.empty()) nm=std::to_string(k); curl=labname(nm); }
      Inst in; in.op=I::Nop; inst(in); trailing(in); cur.in.push_back(std::move(in)); p++; }
    flush(); f->bl.resize(lab.size()); for(auto&b:blocks) f->bl[b.first]=std::move(b.second); entryfix(f,blocks.empty()?0:blocks[0].first); F=nullptr; }
  void entryfix(Func* f,int e){ f->kind=e; }
  static int pred(string_view w){ static const char* N[]={"eq","ne","ugt","uge","ult","ule","sgt","sge","slt","sle"}; for(int i=0;i<10;i++) if(w==N[i]) return i; return -1; }
  static int fpred(string_view w){ static const char* N[]={"false","oeq","ogt","oge","olt","ole","one","ord","ueq","ugt","uge","ult","ule","une","uno","true"}; for(int i=0;i<16;i++) if(w==N[i]) return i; return -1; }
  void inst(Inst& in){ string_view name; bool has=false; if(d[p]=='%'){ p++; name=ident(); expect("="); has=true; }
    auto def=[&](Type* t){ in.ty=t; if(has) in.dst=defslot2(name,t); };
    size_t s=p; auto w=word();
    if(w=="tail"||w=="musttail"||w=="notail"){ w=word(); }
    static const std::map<string_view,int> BIN={{"add",OAdd},{"sub",OSub},{"mul",OMul},{"udiv",OUDiv},{"sdiv",OSDiv},{"urem",OURem},{"srem",OSRem},{"shl",OShl},{"lshr",OLShr},{"ashr",OAShr},{"and",OAnd},{"or",OOr},{"xor",OXor}};
    static const std::map<string_view,int> FB={{"fadd",OFAdd},{"fsub",OFSub},{"fmul",OFMul},{"fdiv",OFDiv},{"frem",OFRem}};
    static const std::map<string_view,int> CA={{"trunc",0},{"zext",1},{"sext",2},{"fptrunc",3},{"fpext",4},{"fptoui",5},{"fptosi",6},{"uitofp",7},{"sitofp",8},{"ptrtoint",9},{"inttoptr",10},{"bitcast",11},{"addrspacecast",11},{"ptrtoaddr",9}};
    auto flags=[&](){ for(;;){ size_t q=p; auto x=word(); if(x=="nuw"||x=="nsw"||x=="exact"||x=="disjoint"||x=="nneg"||x=="samesign"||x=="fast"||x=="nnan"||x=="ninf"||x=="nsz"||x=="arcp"||x=="contract"||x=="afn"||x=="reassoc"||x=="inbounds"||x=="nusw"||x=="volatile") continue; if(x=="inrange"){ ws(); skipparens(); continue; } p=q; return; } };
    auto b=BIN.find(w); if(b!=BIN.end()){ flags(); Type* t=type(); in.op=I::Bin; in.sub=b->second; in.ops.push_back(operand(t)); expect(","); in.ops.push_back(operand(t)); def(t); return; }
    b=FB.find(w); if(b!=FB.end()){ flags(); Type* t=type(); in.op=I::FBin; in.sub=b->second; in.ops.push_back(operand(t)); expect(","); in.ops.push_back(operand(t)); def(t); return; }
    b=CA.find(w); if(b!=CA.end()){ flags(); Type* t=type(); in.op=I::Cast; in.sub=b->second; in.ops.push_back(operand(t)); if(!eatw("to")) die(p,"to"); Type* u=type(); def(u); return; }
    if(w=="fneg"){ flags(); Type*t=type(); in.op=I::FNeg; in.ops.push_back(operand(t)); def(t); return; }
    if(w=="icmp"){ flags(); in.op=I::Icmp; in.pred=pred(word()); Type* t=type(); in.ops.push_back(operand(t)); expect(","); in.ops.push_back(operand(t)); def(t->k==Type::Vec?T.arr(T.Int(1),t->n,true):T.Int(1)); return; }
    if(w=="fcmp"){ flags(); in.op=I::Fcmp; in.pred=fpred(word()); Type* t=type(); in.ops.push_back(operand(t)); expect(","); in.ops.push_back(operand(t)); def(t->k==Type::Vec?T.arr(T.Int(1),t->n,true):T.Int(1)); return; }
    if(w=="load"){ in.op=I::Load; flags(); eatw("atomic"); flags(); Type* t=type(); expect(","); type(); in.ops.push_back(operand(T.Ptr)); def(t); return; }
    if(w=="store"){ in.op=I::Store; flags(); eatw("atomic"); flags(); Type* t=type(); in.ops.push_back(operand(t)); expect(","); type(); in.ops.push_back(operand(T.Ptr)); in.ty=t; return; }
    if(w=="getelementptr"){ in.op=I::Gep; flags(); Type* bt=type(); expect(","); type(); in.ops.push_back(operand(T.Ptr)); Type* cur=bt; bool first=true; while(eat(",")){ ws(); if(d[p]=='!'){ p--; break; } Type* it=type(); Operand o=operand(it); u64 mul; if(first){ mul=cur->size; first=false; } else if(cur->k==Type::Str){ u64 k=(u64)cval(F->consts[o.cidx][0]); in.gepconst+=cur->off[k]; cur=cur->f[k]; continue; } else { cur=cur->el; mul=cur->size; }
        if(o.cidx>=0){ in.gepconst+=(u64)((i64)sx(cval(F->consts[o.cidx][0]),it->bits)*(i64)mul); } else { in.ops.push_back(o); in.gepmul.push_back(mul); } } def(T.Ptr); return; }
    if(w=="alloca"){ in.op=I::Alloca; Type* t=type(); in.ty2=t; in.al=16; if(eat(", align ")) in.al=std::max<u64>(16,unum()); def(T.Ptr); in.ty2=t; return; }
    if(w=="br"){ if(peekword()=="label"){ in.op=I::Br; in.t=label(); } else { in.op=I::CondBr; type(); in.ops.push_back(operand(T.Int(1))); expect(","); in.t=label(); expect(","); in.f=label(); } return; }
    if(w=="switch"){ in.op=I::Switch; Type* t=type(); in.ops.push_back(operand(t)); in.ty=t; expect(","); in.t=label(); expect("["); for(;;){ wsnl(); if(d[p]==']'){ p++; break; } type(); vector<V> c; constant(t,c); in.cases.push_back((u64)cval(c[0])); expect(","); in.idx.push_back(label()); } return; }
    if(w=="ret"){ in.op=I::Ret; Type* t=type(); in.ty=t; if(t->k!=Type::Void) in.ops.push_back(operand(t)); return; }
    if(w=="unreachable"){ in.op=I::Unreach; return; }
    if(w=="phi"){ in.op=I::Phi; flags(); Type* t=type(); do { ws(); if(d[p]=='!') break; expect("["); in.ops.push_back(operand(t)); expect(","); ws(); if(d[p]!='%') die(p,"phi"); p++; in.idx.push_back(labname(ident())); expect("]"); } while(eat(",")); def(t); return; }
    if(w=="select"){ flags(); in.op=I::Select; Type* ct=type(); in.ops.push_back(operand(ct)); expect(","); Type* t=type(); in.ops.push_back(operand(t)); expect(","); type(); in.ops.push_back(operand(t)); def(t); return; }
    if(w=="extractvalue"){ in.op=I::ExtractV; Type* t=type(); in.ops.push_back(operand(t)); unsigned lo=0; Type* cur=t; while(eat(",")){ ws(); if(d[p]=='!'){ p--; break; } u64 k=unum(); if(cur->k==Type::Str){ lo+=cur->leafoff[k]; cur=cur->f[k]; } else { lo+=cur->el->leaves*k; cur=cur->el; } } in.idx.push_back(lo); def(cur); return; }
    if(w=="insertvalue"){ in.op=I::InsertV; Type* t=type(); in.ops.push_back(operand(t)); expect(","); Type* vt=type(); in.ops.push_back(operand(vt)); unsigned lo=0; Type* cur=t; while(eat(",")){ ws(); if(d[p]=='!'){ p--; break; } u64 k=unum(); if(cur->k==Type::Str){ lo+=cur->leafoff[k]; cur=cur->f[k]; } else { lo+=cur->el->leaves*k; cur=cur->el; } } in.idx.push_back(lo); def(t); return; }
    if(w=="extractelement"){ in.op=I::ExtractE; Type* t=type(); in.ops.push_back(operand(t)); expect(","); Type* it=type(); in.ops.push_back(operand(it)); def(t->el); return; }
    if(w=="insertelement"){ in.op=I::InsertE; Type* t=type(); in.ops.push_back(operand(t)); expect(","); Type* et=type(); in.ops.push_back(operand(et)); expect(","); Type* it=type(); in.ops.push_back(operand(it)); def(t); return; }
    if(w=="shufflevector"){ in.op=I::Shuffle; Type* t=type(); in.ops.push_back(operand(t)); expect(","); type(); in.ops.push_back(operand(t)); expect(","); Type* mt=type(); vector<V> m; constant(mt,m); for(auto&x:m) in.idx.push_back((u32)cval(x)); def(T.arr(t->el,mt->n,true)); return; }
    if(w=="freeze"){ in.op=I::Freeze; Type* t=type(); in.ops.push_back(operand(t)); def(t); return; }
    if(w=="fence"){ in.op=I::Nop; return; }
    if(w=="atomicrmw"){ in.op=I::ARMW; flags(); static const char* N[]={"xchg","add","sub","and","or","xor","max","min","umax","umin","nand"}; auto o=word(); for(int i=0;i<11;i++) if(o==N[i]) in.sub=i; type(); in.ops.push_back(operand(T.Ptr)); expect(","); Type* t=type(); in.ops.push_back(operand(t)); def(t); return; }
    if(w=="cmpxchg"){ in.op=I::CmpX; flags(); eatw("weak"); flags(); type(); in.ops.push_back(operand(T.Ptr)); expect(","); Type* t=type(); in.ops.push_back(operand(t)); expect(","); type(); in.ops.push_back(operand(t)); in.ty2=t; def(T.str({t,T.Int(1)},false)); return; }
    if(w=="landingpad"){ in.op=I::LandingPad; Type* t=type(); def(t); for(;;){ size_t q=p; wsnl(); auto x=peekword(); if(x=="cleanup"||x=="filter"||x=="catch"){ while(d[p]!='\n') p++; } else { p=q; break; } } return; }
    if(w=="resume"){ in.op=I::Resume; return; }
    if(w=="call"||w=="invoke"){ bool inv=w=="invoke"; in.op=I::Call; flags(); 
      // cc + ret attrs
      for(;;){ ws(); size_t q=p; if(!isalpha((unsigned char)d[p])) break; auto x=word(); bool isty= x=="void"||x=="ptr"||x=="float"||x=="double"||(x[0]=='i'&&x.size()>1&&isdigit((unsigned char)x[1])&&x!="inreg")||x=="half"||x=="x86_fp80"||x=="fp128"||x=="token"; if(isty){ p=q; break; } ws(); if(d[p]=='(') skipparens(); else if(x=="align") unum(); }
      Type* rt=type(); ws();
      if(d[p]=='@'){ p++; in.cname=ident(); auto it=fn.find(string(in.cname)); if(it!=fn.end()) in.callee=it->second; else { auto g=gl.find(string(in.cname)); if(g!=gl.end()&&g->second->alias){ auto fi=faddr.find(g->second->addr); if(fi!=faddr.end()) in.callee=fi->second; } if(!in.callee) die(p,"callee "+string(in.cname)); } }
      else if(d[p]=='%'){ in.indirect=true; in.ops.push_back(operand(T.Ptr)); }
      else if(!strncmp(d+p,"asm",3)){ in.cname="<asm>"; while(d[p]!='"') p++; p++; while(d[p]!='"') p++; p++; while(d[p]!='"') p++; p++; while(d[p]!='"') p++; p++; }
      else { in.indirect=true; in.ops.push_back(operand(T.Ptr)); }
      expect("("); if(!eat(")")){ do in.ops.push_back(tyoperand()); while(eat(",")); expect(")"); }
      if(has&&rt->k!=Type::Void) def(rt); else in.ty=rt;
      if(inv){ size_t e=p; while(d[e]!='\n') e++; p=e; wsnl(); if(!eatw("to")) die(p,"to"); in.t=label(); if(!eatw("unwind")) die(p,"unwind"); in.f=label(); }
      return; }
    die(s,"instruction "+string(w)); }
  int defslot2(string_view nm,Type* t){ auto it=sl.find(nm); if(it!=sl.end()){ it->second.second=t; return it->second.first; } int s=F->nslots; F->nslots+=t->leaves; sl[nm]={s,t}; return s; }
  // --- metadata
  size_t mdp(u32 k){ return k<mdv.size()?mdv[k]:0; }
  string mdstr(size_t a,const char* key){ size_t e=a; while(e<n&&d[e]!='\n') e++; const char* q=(const char*)memmem(d+a,e-a,key,strlen(key)); if(!q) return ""; q+=strlen(key); if(*q=='"'){ q++; const char* z=q; while(*z!='"') z++; return string(q,z-q);} if(*q=='!'){ q++; } const char* z=q; while(isalnum((unsigned char)*z)) z++; return string(q,z-q); }
  void loc(u32 dbg,string& file,int& line,u32& sp){ file="";line=0;sp=0; size_t a=mdp(dbg); if(!a) return; line=atoi(mdstr(a,"line: ").c_str()); string sc=mdstr(a,"scope: "); for(int g=0;g<64&&!sc.empty();g++){ u32 k=atoi(sc.c_str()); size_t b=mdp(k); if(!b) return; size_t e=b; while(d[e]!='\n') e++; if(memmem(d+b,e-b,"DISubprogram",12)){ sp=k; string fl=mdstr(b,"file: "); size_t c=mdp(atoi(fl.c_str())); if(c){ string dir=mdstr(c,"directory: "), fnm=mdstr(c,"filename: "); file= (fnm.size()&&fnm[0]=='/')||dir.empty()? fnm : dir+"/"+fnm; } return; } sc=mdstr(b,"scope: "); } }
  u32 inlinedAt(u32 dbg){ size_t a=mdp(dbg); if(!a) return 0; string s=mdstr(a,"inlinedAt: "); return s.empty()?0:atoi(s.c_str()); }
};
