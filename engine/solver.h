// Z3 back end: satisfiability of a conjunction of width-1 expressions, with models.
#pragma once
#include "expr.h"
#include <z3.h>
#include <chrono>
static double now_s(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Solver {
  Z3_context c; Z3_solver bv=nullptr; unsigned long n_q=0,n_sat=0,n_unsat=0,n_unknown=0,n_cache=0,n_dom=0; double t=0; unsigned timeout_ms=60000;
  std::vector<Z3_ast> abv, abo; std::vector<Z3_ast> vars;
  void init(){ Z3_config cfg=Z3_mk_config(); Z3_set_param_value(cfg,"model","true"); c=Z3_mk_context(cfg); Z3_del_config(cfg); 
    Z3_set_error_handler(c,[](Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); abort(); }); }
  Z3_sort bvs(unsigned w){ return Z3_mk_bv_sort(c,w); }
  Z3_sort fps(unsigned w){ return w==32? Z3_mk_fpa_sort_32(c):Z3_mk_fpa_sort_64(c); }
  Z3_ast keep(Z3_ast a){ Z3_inc_ref(c,a); return a; }
  Z3_ast num(u128 v,unsigned w){ if(w<=64) return Z3_mk_unsigned_int64(c,(u64)v,bvs(w)); Z3_ast hi=Z3_mk_unsigned_int64(c,(u64)(v>>64),bvs(w-64)); Z3_ast lo=Z3_mk_unsigned_int64(c,(u64)v,bvs(64)); return Z3_mk_concat(c,hi,lo); }
  Z3_ast fp(EP e){ Z3_ast b=toBV(e); return Z3_mk_fpa_to_fp_bv(c,b,fps(e->w)); }
  Z3_ast rne(){ return Z3_mk_fpa_rne(c); } Z3_ast rtz(){ return Z3_mk_fpa_rtz(c); }
  Z3_ast fromfp(Z3_ast f){ return Z3_mk_fpa_to_ieee_bv(c,f); }
  void room(EP e){ if(abv.size()<=e->id){ abv.resize(g_all.size()+1024,nullptr); abo.resize(g_all.size()+1024,nullptr);} }
  Z3_ast toBool(EP e){ room(e); if(abo[e->id]) return abo[e->id]; Z3_ast r; Z3_ast t2[2];
    switch(e->op){
      case OConst: r= e->k? Z3_mk_true(c):Z3_mk_false(c); break;
      case OAnd: t2[0]=toBool(e->a);t2[1]=toBool(e->b); r=Z3_mk_and(c,2,t2); break;
      case OOr: t2[0]=toBool(e->a);t2[1]=toBool(e->b); r=Z3_mk_or(c,2,t2); break;
      case OXor: if(isc(e->b,1)) r=Z3_mk_not(c,toBool(e->a)); else r=Z3_mk_xor(c,toBool(e->a),toBool(e->b)); break;
      case OEq: if(e->a->w==1) r=Z3_mk_iff(c,toBool(e->a),toBool(e->b)); else r=Z3_mk_eq(c,toBV(e->a),toBV(e->b)); break;
      case OUlt: r=Z3_mk_bvult(c,toBV(e->a),toBV(e->b)); break; case OUle: r=Z3_mk_bvule(c,toBV(e->a),toBV(e->b)); break;
      case OSlt: r=Z3_mk_bvslt(c,toBV(e->a),toBV(e->b)); break; case OSle: r=Z3_mk_bvsle(c,toBV(e->a),toBV(e->b)); break;
      case OIte: r=Z3_mk_ite(c,toBool(e->a),toBool(e->b),toBool(e->c)); break;
      case OFEq: r=Z3_mk_fpa_eq(c,fp(e->a),fp(e->b)); break; case OFLt: r=Z3_mk_fpa_lt(c,fp(e->a),fp(e->b)); break; case OFLe: r=Z3_mk_fpa_leq(c,fp(e->a),fp(e->b)); break;
      case OFIsNan: r=Z3_mk_fpa_is_nan(c,fp(e->a)); break;
      default: r=Z3_mk_eq(c,toBV(e),num(1,1)); }
    keep(r); room(e); abo[e->id]=r; return r; }
  static bool isbool(Op o){ switch(o){ case OConst: case OAnd: case OOr: case OXor: case OEq: case OUlt: case OUle: case OSlt: case OSle: case OIte: case OFEq: case OFLt: case OFLe: case OFIsNan: return true; default: return false; } }
  Z3_ast toBV(EP e){ room(e); if(abv[e->id]) return abv[e->id]; Z3_ast r;
    switch(e->op){
      case OConst: r=num(e->k,e->w); break;
      case OVar: { char nm[32]; snprintf(nm,32,"v%u",e->imm); r=Z3_mk_const(c,Z3_mk_string_symbol(c,nm),bvs(e->w)); if(vars.size()<=e->imm) vars.resize(e->imm+1,nullptr); vars[e->imm]=r; break; }
      case OExtract: r=Z3_mk_extract(c,e->imm+e->w-1,e->imm,toBV(e->a)); break;
      case OConcat: r=Z3_mk_concat(c,toBV(e->a),toBV(e->b)); break;
      case OZExt: r=Z3_mk_zero_ext(c,e->w-e->a->w,toBV(e->a)); break; case OSExt: r=Z3_mk_sign_ext(c,e->w-e->a->w,toBV(e->a)); break;
      default:
      if(e->w==1&&isbool(e->op)){ r=Z3_mk_ite(c,toBool(e),num(1,1),num(0,1)); break; }
      switch(e->op){
      case OAdd: r=Z3_mk_bvadd(c,toBV(e->a),toBV(e->b)); break; case OSub: r=Z3_mk_bvsub(c,toBV(e->a),toBV(e->b)); break; case OMul: r=Z3_mk_bvmul(c,toBV(e->a),toBV(e->b)); break;
      case OUDiv: r=Z3_mk_bvudiv(c,toBV(e->a),toBV(e->b)); break; case OSDiv: r=Z3_mk_bvsdiv(c,toBV(e->a),toBV(e->b)); break;
      case OURem: r=Z3_mk_bvurem(c,toBV(e->a),toBV(e->b)); break; case OSRem: r=Z3_mk_bvsrem(c,toBV(e->a),toBV(e->b)); break;
      case OShl: r=Z3_mk_bvshl(c,toBV(e->a),toBV(e->b)); break; case OLShr: r=Z3_mk_bvlshr(c,toBV(e->a),toBV(e->b)); break; case OAShr: r=Z3_mk_bvashr(c,toBV(e->a),toBV(e->b)); break;
      case OAnd: r=Z3_mk_bvand(c,toBV(e->a),toBV(e->b)); break; case OOr: r=Z3_mk_bvor(c,toBV(e->a),toBV(e->b)); break; case OXor: r=Z3_mk_bvxor(c,toBV(e->a),toBV(e->b)); break;
      case OIte: r=Z3_mk_ite(c,toBool(e->a),toBV(e->b),toBV(e->c)); break;
      case OFAdd: r=fromfp(Z3_mk_fpa_add(c,rne(),fp(e->a),fp(e->b))); break; case OFSub: r=fromfp(Z3_mk_fpa_sub(c,rne(),fp(e->a),fp(e->b))); break;
      case OFMul: r=fromfp(Z3_mk_fpa_mul(c,rne(),fp(e->a),fp(e->b))); break; case OFDiv: r=fromfp(Z3_mk_fpa_div(c,rne(),fp(e->a),fp(e->b))); break;
      case OFSqrt: r=fromfp(Z3_mk_fpa_sqrt(c,rne(),fp(e->a))); break; case OFFma: r=fromfp(Z3_mk_fpa_fma(c,rne(),fp(e->a),fp(e->b),fp(e->c))); break;
      case OFRnd: { Z3_ast m= e->imm==0?Z3_mk_fpa_rtn(c):e->imm==1?Z3_mk_fpa_rtp(c):e->imm==2?rtz():e->imm==3?Z3_mk_fpa_rna(c):rne(); r=fromfp(Z3_mk_fpa_round_to_integral(c,m,fp(e->a))); break; }
      case OFToS: case OFToU: { // saturating, NaN -> 0
        bool s=e->op==OFToS; Z3_ast f=fp(e->a); Z3_sort fs=fps(e->a->w); unsigned w=e->w;
        double hi=ldexp(1.0,s?w-1:w), lo= s?-ldexp(1.0,w-1):0.0;
        Z3_ast H=Z3_mk_fpa_numeral_double(c,hi,fs), L=Z3_mk_fpa_numeral_double(c,lo,fs);
        Z3_ast conv= s?Z3_mk_fpa_to_sbv(c,rtz(),f,w):Z3_mk_fpa_to_ubv(c,rtz(),f,w);
        u128 mx= s? maskw(w-1):maskw(w), mn= s? ((u128)1<<(w-1)):0;
        r=Z3_mk_ite(c,Z3_mk_fpa_is_nan(c,f),num(0,w),Z3_mk_ite(c,Z3_mk_fpa_geq(c,f,H),num(mx,w),Z3_mk_ite(c,Z3_mk_fpa_leq(c,f,L),num(mn,w),conv))); break; }
      case OSToF: r=fromfp(Z3_mk_fpa_to_fp_signed(c,rne(),toBV(e->a),fps(e->w))); break; case OUToF: r=fromfp(Z3_mk_fpa_to_fp_unsigned(c,rne(),toBV(e->a),fps(e->w))); break;
      case OFExt: case OFTrunc: r=fromfp(Z3_mk_fpa_to_fp_float(c,rne(),fp(e->a),fps(e->w))); break;
      default: fprintf(stderr,"toBV op %s\n",OPN[e->op]); abort(); } }
    keep(r); room(e); abv[e->id]=r; return r; }

  // 1 sat, 0 unsat, -1 unknown.  On sat, writes values of the variables in `vs` into m.
  // Bit-vector queries go to one incremental solver: every constraint is asserted once as (literal => constraint) and a query
  // assumes the literals of its conjuncts, so that bit-blasting and learnt clauses are shared.  It is rebuilt when it grows.
  std::unordered_map<u32,Z3_ast> lits; unsigned reset_at=4000; double last_ms=0;
  Z3_ast lit(EP e){ auto it=lits.find(e->id); if(it!=lits.end()) return it->second; char nm[32]; snprintf(nm,32,"l%u",e->id); Z3_ast l=keep(Z3_mk_const(c,Z3_mk_string_symbol(c,nm),Z3_mk_bool_sort(c))); Z3_solver_assert(c,bv,Z3_mk_implies(c,l,toBool(e))); lits[e->id]=l; return l; }
  int check(const std::vector<EP>& cs,std::vector<u64>& m){
    double t0=now_s(); n_q++; bool hasfp=false; for(EP e:cs) hasfp|=e->fp;
    Z3_solver s; Z3_lbool r; bool own=false;
    std::set<u32> vs; for(EP e:cs) for(u32 v:e->vs->v) vs.insert(v);
    if(!hasfp){ if(bv&&(lits.size()>reset_at||(last_ms>8&&lits.size()>2*cs.size()+40))){ Z3_solver_dec_ref(c,bv); bv=nullptr; lits.clear(); }
      if(!bv){ bv=Z3_mk_solver_for_logic(c,Z3_mk_string_symbol(c,"QF_BV")); Z3_solver_inc_ref(c,bv); setto(bv,std::min(timeout_ms,5000u)); } s=bv;
      std::vector<Z3_ast> as; for(EP e:cs) as.push_back(lit(e)); double q0=now_s(); r=Z3_solver_check_assumptions(c,s,as.size(),as.data()); last_ms=(now_s()-q0)*1000;
      if(r==Z3_L_UNDEF){ // one-shot solver with preprocessing
        own=true; s=Z3_mk_solver_for_logic(c,Z3_mk_string_symbol(c,"QF_BV")); Z3_solver_inc_ref(c,s); setto(s,timeout_ms); for(EP e:cs) Z3_solver_assert(c,s,toBool(e)); r=Z3_solver_check(c,s); } }
    else { own=true; s=Z3_mk_solver_for_logic(c,Z3_mk_string_symbol(c,"QF_FPBV")); Z3_solver_inc_ref(c,s); setto(s,timeout_ms); for(EP e:cs) Z3_solver_assert(c,s,toBool(e)); r=Z3_solver_check(c,s); }
    int res= r==Z3_L_TRUE?1: r==Z3_L_FALSE?0:-1;
    if(res==1){ n_sat++; Z3_model mo=Z3_solver_get_model(c,s); Z3_model_inc_ref(c,mo);
      for(u32 v:vs){ if(v>=vars.size()||!vars[v]) continue; Z3_ast out; if(Z3_model_eval(c,mo,vars[v],true,&out)){ uint64_t x=0; if(Z3_get_numeral_uint64(c,out,&x)){ if(m.size()<=v) m.resize(v+1,0); m[v]=x; } } }
      Z3_model_dec_ref(c,mo); }
    else if(res==0) n_unsat++; else n_unknown++;
    if(own) Z3_solver_dec_ref(c,s);
    t+=now_s()-t0; return res; }
  void setto(Z3_solver s,unsigned ms){ Z3_params p=Z3_mk_params(c); Z3_params_inc_ref(c,p); Z3_params_set_uint(c,p,Z3_mk_string_symbol(c,"timeout"),ms); Z3_solver_set_params(c,s,p); Z3_params_dec_ref(c,p); }
};
