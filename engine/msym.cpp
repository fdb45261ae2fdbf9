// msym: a forward symbolic executor for LLVM IR (C programs), deciding path
// feasibility and assertions with Z3.
//
//   msym [options] program.bc  (program must define mse_main)
//
// Memory addresses are concrete, contents are symbolic bytes.  Every branch on
// a symbolic value forks when both outcomes are satisfiable.  A program with
// threads is executed with symbolic (forked) scheduling decisions at the
// points where the model calls mse_preempt().
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Passes/PassBuilder.h>
#include <map>
#include <set>
#include <memory>
#include <chrono>
#include <cmath>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include "expr.h"
using namespace llvm;

static double nowS(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static ExprMgr EM;
static Z3Low *Z;

// ---------------------------------------------------------------- options
static double optTime=600; static unsigned optQueryMs=60000; static uint64_t optMaxInst=0;
static int optProcs=1; static bool optVerbose=false; static unsigned optMaxViol=20; static std::string optOut; 
static bool optNoSse=false, optSites=false; static bool optPrint=false; static std::string optReplay; static size_t optMaxRss=3500;

// ---------------------------------------------------------------- values
struct V { uint64_t c; E e; };
static inline V mk(uint64_t c){ return V{c,nullptr}; }
static inline V mkE(E e){ if(ExprMgr::isC(e)) return V{e->c,nullptr}; return V{0,e}; }
static inline E toE(const V&v,unsigned w){ return v.e? v.e : EM.cst(v.c,w); }

// ---------------------------------------------------------------- memory
static const unsigned CH=512;
struct Chunk { uint8_t b[CH]; std::unique_ptr<E[]> s; Chunk(){} Chunk(const Chunk&o){ memcpy(b,o.b,CH); if(o.s){ s.reset(new E[CH]); memcpy(s.get(),o.s.get(),CH*sizeof(E)); } } };
typedef std::shared_ptr<Chunk> ChunkP;
enum class OK : uint8_t { Heap, Stack, Global, Code };
struct Obj { uint64_t addr, size; OK kind; bool ro; uint8_t fill; const char*name; std::vector<ChunkP> ch;
  Obj(uint64_t a,uint64_t s,OK k,uint8_t f,const char*n):addr(a),size(s),kind(k),ro(false),fill(f),name(n){ ch.resize((s+CH-1)/CH); } };
typedef std::shared_ptr<Obj> ObjP;

// ---------------------------------------------------------------- program
struct Opnd { int32_t s; uint64_t c; }; // s>=0: slot, s==-1: constant c
enum KOp : uint8_t { KNone, KAlloca,KLoad,KStore,KGep,KBr,KCondBr,KSwitch,KRet,KCall,KSelect,KICmp,KBin,KZExt,KSExt,KTrunc,KCopy,KExtractV,KInsertV,KRmw,KCas,KUnreach,KNop,KFBin,KFCmp,KFCast,KFNeg,KUnsup };
struct Fn; 
struct KI {
  KOp op=KNone; uint8_t sub=0; uint16_t w=0; uint16_t w2=0; int32_t dst=-1; uint32_t nleaf=1;
  std::vector<Opnd> o; Instruction*I=nullptr;
  std::vector<std::pair<int32_t,uint64_t>> gep; // slot index, scale
  uint64_t imm=0; 
  std::vector<uint32_t> tgt; std::vector<uint64_t> cases;
  Fn* callee=nullptr; int builtin=-1; 
  std::vector<std::vector<Opnd>> args; std::vector<uint16_t> argw; // arg leaves
  std::vector<unsigned> leafw; std::vector<uint64_t> leafoff;
  int32_t gepw=64;
};
struct Phi { int32_t dst; std::vector<std::pair<uint32_t,std::vector<Opnd>>> in; uint32_t nleaf; };
struct Fn { Function*F; std::string name; bool built=false; uint32_t nslots=0; std::vector<KI> code; std::vector<uint32_t> bbstart; std::vector<std::vector<Phi>> phis; uint64_t addr=0; std::vector<int32_t> argslot; std::vector<uint32_t> argleaf; bool vararg=false; bool hit=false; std::string file; int builtin=-1; bool decl=false; Fn*alias=nullptr; bool harness=false; };

static LLVMContext LC; static std::unique_ptr<Module> M; static const DataLayout*DL;
static std::map<const Function*,Fn*> fnOf; static std::map<uint64_t,Fn*> fnAt;
static std::map<const GlobalVariable*,uint64_t> gvAddr; static std::map<uint64_t,const GlobalVariable*> tlsGv;
static std::map<std::string,int> builtinIdx;

// ---------------------------------------------------------------- state
struct Frame { Fn*f; std::vector<V> r; uint32_t pc=0; uint32_t bb=0; std::vector<uint64_t> al; uint64_t va=0; uint64_t fid=0; };
struct Thread { std::vector<Frame> st; int status=0; /*0 run,1 blocked,2 done*/ uint64_t wait=0; std::map<uint64_t,uint64_t> tls; };
struct Inp { std::string name; std::vector<uint32_t> vars; uint64_t c; bool conc; uint32_t size; };
struct Jmp { int tid; size_t depth; uint64_t fid; uint32_t pc; uint32_t bb; };
struct State {
  std::vector<Thread> th; int cur=0;
  std::map<uint64_t,ObjP> mem; std::map<uint64_t,uint64_t> freed;
  uint64_t next; 
  std::vector<E> pc; std::vector<uint64_t> model; 
  std::vector<Inp> inp; std::map<uint64_t,Jmp> jmps; uint64_t jid=1; uint64_t fid=1;
  int preempt=0; uint64_t inst=0; int conc=0; uint32_t live=0; int leakbase=0; std::string note;
  std::vector<std::string> reached;
};

struct Viol { std::string kind,msg,loc,stack; std::vector<std::string> inputs; };
static std::vector<Viol> viols; static std::set<std::string> violKeys;
static std::map<std::string,uint64_t> incompl; static std::map<std::string,uint64_t> reach;
static struct Stats { uint64_t paths=0,forks=0,queries=0,sat=0,unsat=0,unknown=0,cache=0,asserts=0,inst=0,assumeKill=0,states=1,procs=0; double solver=0; double maxq=0; uint64_t assertQueries=0; uint64_t modelhit=0,ranged=0,stage2=0,ordered=0; } ST;
struct Shared { volatile int slots; };
static Shared*SH; static double T0; static std::vector<pid_t> kids; static bool isChild=false;

static std::vector<std::vector<std::string>> samples;
static bool optInc=false; static unsigned optRlimit=40000000, optRlimit0=300000;
static std::vector<State*> stack_;

// ---------------------------------------------------------------- solver
static std::unordered_map<std::string,std::pair<int,std::vector<uint64_t>>> qcache;
// returns 1 sat, 0 unsat, -1 unknown. on sat fills model (overlay on base)
static std::map<std::string,std::pair<uint64_t,double>> qprof; static std::string (*locNow)(); static bool optQprof=false;
// Transitive closure of the order atoms (a<b, a<=b, a==b, a!=b, a<a+1) of a
// query; sound: it only ever reports a contradiction that follows from them.
static bool orderUnsat(const std::vector<E>&rel,E cond){
  std::vector<E> nodes; std::unordered_map<uint32_t,int> idx;
  struct At{int a,b,k;}; std::vector<At> at; // k 0 <=,1 <,2 !=
  bool full=false;
  auto node=[&](E e)->int{ auto it=idx.find(e->id); if(it!=idx.end()) return it->second; if(nodes.size()>=64){ full=true; return -1;} int i=nodes.size(); nodes.push_back(e); idx[e->id]=i; return i; };
  std::function<void(E)> learn=[&](E x){
    if(x->op==Op::And&&x->w==1){ learn(x->a); learn(x->b); return; }
    if(x->op==Op::Ult||x->op==Op::Ule){ if(x->a->w>64) return; int a=node(x->a),b=node(x->b); if(a>=0&&b>=0) at.push_back({a,b,x->op==Op::Ult?1:0}); return; }
    if(x->op==Op::Eq&&x->a->w<=64){ int a=node(x->a),b=node(x->b); if(a>=0&&b>=0){ at.push_back({a,b,0}); at.push_back({b,a,0}); } return; }
    if(x->op==Op::Xor&&x->w==1&&ExprMgr::isC(x->b,1)&&x->a->op==Op::Eq&&x->a->a->w<=64){ int a=node(x->a->a),b=node(x->a->b); if(a>=0&&b>=0) at.push_back({a,b,2}); return; }
  };
  for(E x:rel) learn(x); learn(cond);
  if(at.size()<2) return false;
  int n=nodes.size();
  for(int i=0;i<n&&!full;i++){ E e=nodes[i]; if(e->op==Op::Add&&ExprMgr::isC(e->b,1)) node(e->a); }
  n=nodes.size();
  std::vector<uint64_t> le(n,0),lt(n,0);
  for(int i=0;i<n;i++) le[i]|=1ull<<i;
  for(auto&x:at){ if(x.k==0) le[x.a]|=1ull<<x.b; else if(x.k==1){ le[x.a]|=1ull<<x.b; lt[x.a]|=1ull<<x.b; } }
  for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(i!=j&&nodes[i]->w==nodes[j]->w){ // constants and value ranges
    if(nodes[i]->hi<nodes[j]->lo){ le[i]|=1ull<<j; lt[i]|=1ull<<j; } else if(nodes[i]->hi==nodes[j]->lo) le[i]|=1ull<<j; }
  for(int round=0;round<4;round++){
    bool ch=false;
    for(int k=0;k<n;k++) for(int i=0;i<n;i++) if(le[i]>>k&1){ uint64_t nl=le[i]|le[k], ns=lt[i]|lt[k]|((lt[i]>>k&1)?le[k]:0); if(nl!=le[i]||ns!=lt[i]){ le[i]=nl; lt[i]=ns; ch=true; } }
    for(int i=0;i<n;i++) if(lt[i]>>i&1) return true;
    for(auto&x:at) if(x.k==2){ bool ab=le[x.a]>>x.b&1, ba=le[x.b]>>x.a&1; if(ab&&ba) return true;
      if(ab&&!(lt[x.a]>>x.b&1)){ lt[x.a]|=1ull<<x.b; ch=true; } if(ba&&!(lt[x.b]>>x.a&1)){ lt[x.b]|=1ull<<x.a; ch=true; } }
    for(int i=0;i<n;i++){ E e=nodes[i]; if(e->op==Op::Add&&ExprMgr::isC(e->b,1)){ auto it=idx.find(e->a->id); if(it==idx.end()) continue; int b=it->second;
      bool nowrap=lt[b]!=0||e->a->hi<maskw(e->w);
      if(nowrap){ uint64_t nl=lt[b]|(1ull<<i)|le[i]; if((le[i]|lt[b])!=le[i]){ le[i]|=lt[b]; ch=true; } if(!(lt[b]>>i&1)){ lt[b]|=1ull<<i; le[b]|=1ull<<i; ch=true; }
        for(int j=0;j<n;j++) if((lt[j]>>i&1)&&!(le[j]>>b&1)){ le[j]|=1ull<<b; ch=true; } } } }
    if(!ch) break;
  }
  for(int i=0;i<n;i++) if(lt[i]>>i&1) return true;
  return false;
}
static int solve(const std::vector<E>&pc,E cond,std::vector<uint64_t>*model){
  // slice
  std::vector<E> rel; std::vector<char> used(pc.size(),0);
  std::vector<char> vs(EM.varinfo.size(),0);
  std::vector<uint32_t> work(cond->vars->begin(),cond->vars->end()); for(auto v:work) vs[v]=1;
  bool ch=true;
  while(ch){ ch=false;
    for(size_t i=0;i<pc.size();i++) if(!used[i]){ bool hit=false; for(auto v:*pc[i]->vars) if(vs[v]){hit=true;break;}
      if(hit){ used[i]=1; ch=true; rel.push_back(pc[i]); for(auto v:*pc[i]->vars) if(!vs[v]){vs[v]=1; work.push_back(v);} } } }
  std::vector<uint32_t> ids; for(E x:rel) ids.push_back(x->id); std::sort(ids.begin(),ids.end()); ids.erase(std::unique(ids.begin(),ids.end()),ids.end()); ids.push_back(cond->id);
  std::string key((char*)ids.data(),ids.size()*4);
  auto it=qcache.find(key);
  if(it!=qcache.end()){ ST.cache++; if(it->second.first==1&&model){ auto&mv=it->second.second; for(size_t i=0;i+1<mv.size();i+=2){ if(model->size()<=mv[i]) model->resize(mv[i]+1,0); (*model)[mv[i]]=mv[i+1]; } } return it->second.first; }
  { Ranges rg; for(E x:rel) rg.learn(x); rg.learn(cond); bool bad=rg.contradiction; if(!bad){ auto r=rg.get(cond); if(r.second==0) bad=true; } if(!bad) for(E x:rel){ auto r=rg.get(x); if(r.second==0){bad=true;break;} }
    if(bad){ ST.ranged++; qcache.emplace(key,std::make_pair(0,std::vector<uint64_t>())); return 0; } }
  if(orderUnsat(rel,cond)){ ST.ordered++; qcache.emplace(key,std::make_pair(0,std::vector<uint64_t>())); return 0; }
  double t=nowS(); ST.queries++;
  Z3_context c=Z->ctx;
  std::vector<uint64_t> mv; int res;
  auto take=[&](Z3_solver s){ Z3_model m=Z3_solver_get_model(c,s); Z3_model_inc_ref(c,m);
    for(auto v:work){ Z3_ast a; uint64_t val=0; if(Z3_model_eval(c,m,Z->varOf(v),true,&a)){ Z3_inc_ref(c,a); Z3_get_numeral_uint64(c,a,&val); Z3_dec_ref(c,a);} mv.push_back(v); mv.push_back(val);}
    Z3_model_dec_ref(c,m); };
  auto lim=[&](Z3_solver s,unsigned rl){ Z3_params p=Z3_mk_params(c); Z3_params_inc_ref(c,p); Z3_params_set_uint(c,p,Z3_mk_string_symbol(c,"rlimit"),rl); Z3_solver_set_params(c,s,p); Z3_params_dec_ref(c,p); };
  if(optInc){
    // one incremental solver; every constraint is guarded by a literal and the query is the set of literals
    static Z3_solver inc=nullptr; static std::unordered_map<uint32_t,Z3_ast> lits; static uint64_t nq=0;
    if(inc&&nq>60){ Z3_solver_dec_ref(c,inc); inc=nullptr; for(auto&kv:lits) Z3_dec_ref(c,kv.second); lits.clear(); nq=0; Z->dcur++; }
    if(!inc){ inc=Z3_mk_solver_for_logic(c,Z3_mk_string_symbol(c,"QF_BV")); Z3_solver_inc_ref(c,inc); lim(inc,optRlimit); Z->dcur++; }
    nq++;
    std::vector<Z3_ast> as;
    auto lit=[&](E x){ auto it=lits.find(x->id); if(it==lits.end()){ Z3_ast l=Z3_mk_fresh_const(c,"l",Z3_mk_bool_sort(c)); Z3_inc_ref(c,l); Z3_solver_assert(c,inc,Z3_mk_implies(c,l,Z->toBool(x))); std::vector<Z3_ast> sd; Z->sides(x,sd); for(auto a:sd) Z3_solver_assert(c,inc,a); it=lits.emplace(x->id,l).first; } as.push_back(it->second); };
    for(E x:rel) lit(x); lit(cond);
    Z3_lbool r=Z3_solver_check_assumptions(c,inc,as.size(),as.data()); res=r==Z3_L_TRUE?1:r==Z3_L_FALSE?0:-1;
    if(res==1) take(inc);
  } else {
  // the default core with a small budget first, then bit-blasting
  std::vector<Z3_ast> as; for(E x:rel) as.push_back(Z->toBool(x)); as.push_back(Z->toBool(cond));
  Z->dcur++; for(E x:rel) Z->sides(x,as); Z->sides(cond,as);
  Z3_solver s=nullptr; res=-1;
  for(int stage=0;stage<2&&res<0;stage++){
    if(s) Z3_solver_dec_ref(c,s);
    if(stage==0) s=Z3_mk_simple_solver(c);
    else { static Z3_tactic qt=nullptr; if(!qt){ qt=Z3_mk_tactic(c,"qfbv"); Z3_tactic_inc_ref(c,qt); } s=Z3_mk_solver_from_tactic(c,qt); }
    Z3_solver_inc_ref(c,s); lim(s,stage==0?optRlimit0:optRlimit);
    for(auto a:as) Z3_solver_assert(c,s,a);
    Z3_lbool r=Z3_solver_check(c,s); res=r==Z3_L_TRUE?1:r==Z3_L_FALSE?0:-1;
    if(res<0&&stage==0) ST.stage2++;
  }
  if(res==1) take(s);
  Z3_solver_dec_ref(c,s);
  }
  if(res==1) ST.sat++; else if(res==0) ST.unsat++; else ST.unknown++;
  double d=nowS()-t; ST.solver+=d; if(d>ST.maxq) ST.maxq=d; if(optQprof){ auto&q=qprof[locNow()]; q.first++; q.second+=d; }
  if(model) for(size_t i=0;i+1<mv.size();i+=2){ if(model->size()<=mv[i]) model->resize(mv[i]+1,0); (*model)[mv[i]]=mv[i+1]; }
  if(res>=0) qcache.emplace(key,std::make_pair(res,mv));
  return res;
}
static bool evalM(State&S,E e){ return EM.evalBegin(e,S.model)&1; }
static uint64_t evalV(State&S,E e){ return EM.evalBegin(e,S.model); }
// is cond satisfiable together with S.pc? on sat m receives a model
static int feasible(State&S,E cond,std::vector<uint64_t>&m){
  if(ExprMgr::isC(cond)) { m=S.model; return cond->c?1:0; }
  if(evalM(S,cond)){ ST.modelhit++; m=S.model; return 1; }
  m=S.model; return solve(S.pc,cond,&m);
}
static void addPC(State&S,E c){ if(ExprMgr::isC(c)) return; 
  if(c->op==Op::And){ addPC(S,c->a); addPC(S,c->b); return; }
  for(E x:S.pc) if(x==c) return; S.pc.push_back(c); }

// ---------------------------------------------------------------- reporting
static std::string locOf(Instruction*I){ if(!I) return "?"; if(DILocation*d=I->getDebugLoc()) { std::string f=d->getFilename().str(); return f+":"+std::to_string(d->getLine()); } return "?"; }
static std::string curLoc(State&S){ auto&T=S.th[S.cur]; if(T.st.empty()) return "?"; 
  for(size_t i=T.st.size();i-->0;){ auto&f=T.st[i]; uint32_t p=f.pc; if(p>=f.f->code.size()) p=f.f->code.size()-1; Instruction*I=f.f->code[p].I; if(I&&I->getDebugLoc()) return f.f->name+"@"+locOf(I); }
  return T.st.back().f->name; }
static std::string stackOf(State&S){ std::string r; for(auto&f:S.th[S.cur].st){ uint32_t p=f.pc; if(p>=f.f->code.size()) p=f.f->code.size()-1; r+=f.f->name+"("+locOf(f.f->code[p].I)+") "; } return r; }
static std::vector<std::string> inputsOf(State&S,const std::vector<uint64_t>&m){
  std::vector<std::string> r;
  for(auto&i:S.inp){ std::string h; char b[24];
    if(i.conc){ snprintf(b,sizeof b,"%llu",(unsigned long long)i.c); h=b; }
    else { bool one=i.vars.size()==1&&EM.varinfo[i.vars[0]].w>8; 
      if(one){ uint64_t v=i.vars[0]<m.size()?m[i.vars[0]]:0; for(unsigned k=0;k<i.size;k++){ snprintf(b,sizeof b,"%02x",(unsigned)((v>>(8*k))&255)); h+=b; } }
      else for(auto v:i.vars){ snprintf(b,sizeof b,"%02x",(unsigned)((v<m.size()?m[v]:0)&255)); h+=b; }
      h="x"+h; }
    r.push_back(i.name+"="+h); }
  return r; }
static void report(State&S,const std::string&kind,const std::string&msg,const std::vector<uint64_t>&m){ if(optSites) for(auto&kv:S.mem) if(kv.second->kind==OK::Heap) fprintf(stderr,"LIVE %llx %llu %s\n",(unsigned long long)kv.first,(unsigned long long)kv.second->size,kv.second->name);
  std::string loc=curLoc(S); std::string key=kind+"|"+msg+"|"+loc;
  if(violKeys.count(key)) return; violKeys.insert(key);
  if(viols.size()<optMaxViol) viols.push_back({kind,msg,loc,stackOf(S),inputsOf(S,m)});
  if(optVerbose) fprintf(stderr,"VIOL %s: %s at %s\n   %s\n",kind.c_str(),msg.c_str(),loc.c_str(),stackOf(S).c_str());
}
struct Kill {}; // end of this path
static void incomplete(State&S,const std::string&why){ incompl[why]++; if(optVerbose) fprintf(stderr,"INCOMPLETE %s at %s\n  %s\n",why.c_str(),curLoc(S).c_str(),stackOf(S).c_str()); }
[[noreturn]] static void die(State&S,const std::string&kind,const std::string&msg){ report(S,kind,msg,S.model); throw Kill(); }
[[noreturn]] static void unsup(State&S,const std::string&msg){ incomplete(S,"unsupported: "+msg); throw Kill(); }

// ---------------------------------------------------------------- memory ops
static std::unordered_map<std::string,const char*> siteNames;
static uint64_t allocObj(State&S,uint64_t size,OK k,uint8_t fill,const char*name,unsigned align=16){
  if(optSites&&k==OK::Heap){ auto&n=siteNames[stackOf(S)]; if(!n) n=strdup(stackOf(S).c_str()); name=n; }
  uint64_t a=(S.next+align-1)/align*align; S.next=a+size+64; S.next=(S.next+15)&~15ull;
  S.mem.emplace_hint(S.mem.end(),a,std::make_shared<Obj>(a,size,k,fill,name)); if(k==OK::Heap) S.live++; return a; }
static Obj* findObj(State&S,uint64_t a){ auto it=S.mem.upper_bound(a); if(it==S.mem.begin()) return nullptr; --it; Obj*o=it->second.get(); if(a-o->addr<o->size) return o; if(o->size==0&&a==o->addr) return o; return nullptr; }
static Obj* wrObj(State&S,uint64_t a){ auto it=S.mem.upper_bound(a); --it; if(it->second.use_count()>1) it->second=std::make_shared<Obj>(*it->second); return it->second.get(); }
static Chunk* wrChunk(Obj*o,uint64_t off){ auto&c=o->ch[off/CH]; if(!c){ c=std::make_shared<Chunk>(); memset(c->b,o->fill,CH);} else if(c.use_count()>1) c=std::make_shared<Chunk>(*c); return c.get(); }
static std::string hexs(uint64_t v){ char b[32]; snprintf(b,sizeof b,"0x%llx",(unsigned long long)v); return b; }
static Obj* checkAcc(State&S,uint64_t a,uint64_t n,const char*what){
  if(n==0) return nullptr;
  Obj*o=findObj(S,a);
  if(!o){ std::string m=std::string("invalid ")+what; if(a<4096) m+=" (null pointer)"; else { auto it=S.freed.upper_bound(a); bool f=false; if(it!=S.freed.begin()){--it; if(a<it->first+it->second){ m+=" (use after free)"; f=true; }} if(!f) m+=" (out of bounds)"; } die(S,"memory",m); }
  if(n>o->size-(a-o->addr)) die(S,"memory",std::string("out-of-bounds ")+what+" past end of "+(o->kind==OK::Heap?"heap":o->kind==OK::Stack?"stack":"global")+" object");
  if(o->kind==OK::Code) die(S,"memory",std::string("bad ")+what+" on function");
  return o; }
static E rdByteE(Obj*o,uint64_t off){ auto&c=o->ch[off/CH]; if(!c) return EM.cst(o->fill,8); if(c->s&&c->s[off%CH]) return c->s[off%CH]; return EM.cst(c->b[off%CH],8); }
static V rdMem(Obj*o,uint64_t off,unsigned bytes){
  uint64_t v=0; bool sym=false;
  if(off/CH==(off+bytes-1)/CH){ Chunk*c=o->ch[off/CH].get(); if(!c){ for(unsigned i=0;i<bytes;i++) v|=(uint64_t)o->fill<<(8*i); return mk(v);} 
    if(c->s){ for(unsigned i=0;i<bytes;i++) if(c->s[off%CH+i]){sym=true;break;} }
    if(!sym){ memcpy(&v,c->b+off%CH,bytes); return mk(v);} }
  else { for(unsigned i=0;i<bytes;i++){ auto&c=o->ch[(off+i)/CH]; if(!c) v|=(uint64_t)o->fill<<(8*i); else { if(c->s&&c->s[(off+i)%CH]){sym=true;break;} v|=(uint64_t)c->b[(off+i)%CH]<<(8*i);} } if(!sym) return mk(v); }
  E e=rdByteE(o,off+bytes-1); for(int i=(int)bytes-2;i>=0;i--) e=EM.concat(e,rdByteE(o,off+i)); return mkE(e); }
static void wrByte(Obj*o,uint64_t off,const V&v){ Chunk*c=wrChunk(o,off); unsigned k=off%CH; if(v.e){ if(!c->s){ c->s.reset(new E[CH]); memset(c->s.get(),0,CH*sizeof(E)); } c->s[k]=v.e; } else { c->b[k]=(uint8_t)v.c; if(c->s) c->s[k]=nullptr; } }
static void wrMem(Obj*o,uint64_t off,unsigned bytes,const V&v){
  if(!v.e&&off/CH==(off+bytes-1)/CH){ Chunk*c=wrChunk(o,off); memcpy(c->b+off%CH,&v.c,bytes); if(c->s) memset(c->s.get()+off%CH,0,bytes*sizeof(E)); return; }
  for(unsigned i=0;i<bytes;i++){ if(v.e) wrByte(o,off+i,mkE(EM.extract(v.e,8*i,8))); else wrByte(o,off+i,mk((v.c>>(8*i))&255)); } }
static V load(State&S,uint64_t a,unsigned bytes){ Obj*o=checkAcc(S,a,bytes,"read"); return rdMem(o,a-o->addr,bytes); }
static void store(State&S,uint64_t a,unsigned bytes,const V&v){ Obj*o=checkAcc(S,a,bytes,"write"); if(o->ro) die(S,"memory","write to constant object"); o=wrObj(S,a); wrMem(o,a-o->addr,bytes,v); }
static void copyMem(State&S,uint64_t d,uint64_t s,uint64_t n){
  if(!n) return; checkAcc(S,s,n,"read"); Obj*od=checkAcc(S,d,n,"write"); if(od->ro) die(S,"memory","write to constant object");
  od=wrObj(S,d); Obj*os=findObj(S,s);
  uint64_t so=s-os->addr, dof=d-od->addr;
  bool hasSym=false; for(uint64_t i=so/CH;i<=(so+n-1)/CH;i++) if(os->ch[i]&&os->ch[i]->s){hasSym=true;break;}
  if(!hasSym){ std::vector<uint8_t> t(n); uint64_t i=0; while(i<n){ uint64_t k=std::min<uint64_t>(n-i,CH-(so+i)%CH); auto&c=os->ch[(so+i)/CH]; if(c) memcpy(&t[i],c->b+(so+i)%CH,k); else memset(&t[i],os->fill,k); i+=k; }
    i=0; while(i<n){ uint64_t k=std::min<uint64_t>(n-i,CH-(dof+i)%CH); Chunk*c=wrChunk(od,dof+i); memcpy(c->b+(dof+i)%CH,&t[i],k); if(c->s) memset(c->s.get()+(dof+i)%CH,0,k*sizeof(E)); i+=k; } return; }
  std::vector<V> t(n); for(uint64_t i=0;i<n;i++) t[i]=rdMem(os,so+i,1); for(uint64_t i=0;i<n;i++) wrByte(od,dof+i,t[i]); }
static void setMem(State&S,uint64_t d,const V&v,uint64_t n){ if(!n) return; Obj*o=checkAcc(S,d,n,"write"); if(o->ro) die(S,"memory","write to constant object"); o=wrObj(S,d); uint64_t off=d-o->addr;
  if(v.e){ V b=mkE(EM.extract(v.e,0,8)); for(uint64_t i=0;i<n;i++) wrByte(o,off+i,b); return; }
  if(off==0&&n==o->size){ o->fill=(uint8_t)v.c; for(auto&c:o->ch) c.reset(); return; }
  uint64_t i=0; while(i<n){ uint64_t k=std::min<uint64_t>(n-i,CH-(off+i)%CH); Chunk*c=wrChunk(o,off+i); memset(c->b+(off+i)%CH,(int)v.c,k); if(c->s) memset(c->s.get()+(off+i)%CH,0,k*sizeof(E)); i+=k; } }
static void freeObj(State&S,uint64_t a){ auto it=S.mem.find(a); if(it==S.mem.end()) return; if(it->second->kind==OK::Heap){ S.live--; S.freed[a]=it->second->size; } S.mem.erase(it); }
static std::string rdStr(State&S,uint64_t a){ std::string r; for(;;){ V v=load(S,a++,1); if(v.e){ r+='?'; continue;} if(!v.c) break; r+=(char)v.c; if(r.size()>4096) break; } return r; }

// ---------------------------------------------------------------- forking
static void pushState(State*s){ ST.states++;
  if(optProcs>1){
    if(__sync_sub_and_fetch(&SH->slots,1)>=0){
      fflush(stdout); fflush(stderr);
      pid_t p=fork();
      if(p==0){ isChild=true; kids.clear(); for(State*x:stack_) (void)x; stack_.clear(); stack_.push_back(s); // inherit only this state
        ST=Stats(); ST.states=0; viols.clear(); samples.clear(); incompl.clear(); reach.clear();
        for(auto&kv:fnOf) kv.second->hit=false;
        throw 1; }
      if(p>0){ kids.push_back(p); delete s; return; }
      __sync_add_and_fetch(&SH->slots,1);
    } else __sync_add_and_fetch(&SH->slots,1);
  }
  stack_.push_back(s); }
// fork: current continues with cond, the other with !cond. Caller sets control
// of the other state via fn.
template<class F> static int forkOn(State&S,E cond,F other){
  // returns 1 if current state takes cond true, 0 if takes false. other(State&) prepared for opposite.
  if(ExprMgr::isC(cond)) return cond->c&1;
  bool cur=evalM(S,cond); E nc=EM.not1(cond);
  E opp=cur?nc:cond; std::vector<uint64_t> m=S.model; int r=solve(S.pc,opp,&m);
  if(r<0){ incomplete(S,"solver timeout"); }
  if(r!=1){ if(r==0) {} else addPC(S,cur?cond:nc); return cur; }
  ST.forks++;
  State*n=new State(S); n->model=m; addPC(*n,opp); other(*n,!cur);
  addPC(S,cur?cond:nc);
  pushState(n);
  return cur; }
// concretize: pick value; alternative values are explored by re-executing the instruction
static uint64_t concr(State&S,const V&v,const char*what,int limit=600){
  if(!v.e) return v.c;
  uint64_t val=evalV(S,v.e); E eq=EM.eq(v.e,EM.cst(val,v.e->w));
  if(ExprMgr::isC(eq)) return val;
  std::vector<uint64_t> m=S.model; int r=solve(S.pc,EM.not1(eq),&m);
  if(r<0) incomplete(S,"solver timeout");
  if(r==1){ if(S.conc>=limit) incomplete(S,std::string("concretisation limit: ")+what); else { State*n=new State(S); n->conc++; n->model=m; addPC(*n,EM.not1(eq)); ST.forks++; addPC(S,eq); S.conc=0; pushState(n); return val; } }
  addPC(S,eq); S.conc=0; return val; }
// assume on all paths
static void assumeE(State&S,E c){ if(ExprMgr::isC(c)){ if(!c->c){ ST.assumeKill++; throw Kill(); } return; }
  std::vector<uint64_t> m; int r=feasible(S,c,m); if(r<0){ incomplete(S,"solver timeout"); throw Kill(); } if(!r){ ST.assumeKill++; throw Kill(); } S.model=m; addPC(S,c); }
static bool mustBe(State&S,E c){ if(ExprMgr::isC(c)) return c->c; if(!evalM(S,c)) return false; std::vector<uint64_t> m=S.model; return solve(S.pc,EM.not1(c),&m)==0; }

// symbolic-address read
static V loadSym(State&S,E a,unsigned bytes){
  // A table of 256 words that is affine over GF(2) (every entry is checked) and whose index is any byte: xor of one constant per index bit
  if(bytes==4&&a->w==64&&a->hi-a->lo==1020&&!(a->lo&3)){ E lw=EM.extract(EM.bin(Op::Sub,a,EM.cst(a->lo,64)),0,2); Obj*t_=findObj(S,a->lo);
    if(t_&&ExprMgr::isC(lw)&&!lw->c&&a->hi+4<=t_->addr+t_->size){ uint64_t lo=a->lo-t_->addr; std::vector<uint64_t> t(256); bool ok=true; for(unsigned i=0;i<256&&ok;i++){ V v=rdMem(t_,lo+4*i,4); if(v.e) ok=false; else t[i]=v.c; }
    for(unsigned i=1;i<256&&ok;i++){ unsigned l=i&-i; if(i!=l&&(t[i]^t[0])!=((t[l]^t[0])^(t[i^l]^t[0]))) ok=false; }
    if(ok&&t[1]!=t[0]){ E ix=EM.extract(EM.bin(Op::Sub,a,EM.cst(a->lo,64)),2,8); E r=EM.cst(t[0],32); for(unsigned b=0;b<8;b++){ E q=EM.extract(ix,b,1); r=EM.bin(Op::Xor,EM.ite(q,EM.cst(t[1u<<b]^t[0],32),EM.cst(0,32)),r); } return mkE(r); } } }
  uint64_t v0=evalV(S,a); Obj*o=findObj(S,v0);
  E eq=EM.eq(a,EM.cst(v0,64)); if(mustBe(S,eq)){ addPC(S,eq); return load(S,v0,bytes); }
  if(!o) { uint64_t v=concr(S,V{0,a},"address"); return load(S,v,bytes); }
  // in bounds of o?
  E off=EM.bin(Op::Sub,a,EM.cst(o->addr,64)); E inb= o->size>=bytes? EM.ule(off,EM.cst(o->size-bytes,64)) : EM.cst(0,1);
  if(!mustBe(S,inb)){ // split
    std::vector<uint64_t> m; int r=feasible(S,inb,m);
    if(r!=1){ uint64_t v=concr(S,V{0,a},"address"); return load(S,v,bytes);} 
    std::vector<uint64_t> m2=S.model; int r2=evalM(S,EM.not1(inb))?1:solve(S.pc,EM.not1(inb),&m2);
    if(r2==1){ State*n=new State(S); n->model=m2; addPC(*n,EM.not1(inb)); ST.forks++; S.model=m; addPC(S,inb); pushState(n);} else { if(r2<0) incomplete(S,"solver timeout"); S.model=m; addPC(S,inb);} 
    o=findObj(S,evalV(S,a)); off=EM.bin(Op::Sub,a,EM.cst(o->addr,64)); }
  // range of off
  uint64_t lo=0,hi=o->size-bytes; 
  { uint64_t l=0,h=evalV(S,off); while(l<h){ uint64_t mid=(l+h)/2; std::vector<uint64_t> m=S.model; E q=EM.ule(off,EM.cst(mid,64)); int r=evalM(S,q)?1:solve(S.pc,q,&m); if(r==1){ uint64_t nv=EM.evalBegin(off,m); h=std::min(nv,mid);} else l=mid+1; } lo=l; }
  { uint64_t l=evalV(S,off),h=hi; while(l<h){ uint64_t mid=l+(h-l+1)/2; std::vector<uint64_t> m=S.model; E q=EM.ule(EM.cst(mid,64),off); int r=evalM(S,q)?1:solve(S.pc,q,&m); if(r==1){ uint64_t nv=EM.evalBegin(off,m); l=std::max(nv,mid);} else h=mid-1; } hi=l; }
  unsigned step=1; for(unsigned s=4096;s>1;s/=2){ E al=EM.eq(EM.bin(Op::And,off,EM.cst(s-1,64)),EM.cst(lo&(s-1),64)); if(mustBe(S,al)){ step=s; break; } }
  uint64_t cnt=(hi-lo)/step+1; if(cnt>2048){ uint64_t v=concr(S,V{0,a},"address",4096); return load(S,v,bytes);} 
  E res=toE(rdMem(o,hi,bytes),bytes*8); // build from high to low with range merging
  E curv=res; uint64_t k=hi; 
  while(k>lo){ k-=step; E v=toE(rdMem(o,k,bytes),bytes*8); if(v==curv) continue; res=EM.ite(EM.ule(off,EM.cst(k,64)),v,res); curv=v; }
  // note: ite(off<=k, v_k.., res) built ascending outward: outermost is smallest range
  return mkE(res); }

// ---------------------------------------------------------------- compile IR
static unsigned bitw(Type*T){ if(T->isPointerTy()) return 64; if(T->isIntegerTy()) return T->getIntegerBitWidth(); if(T->isDoubleTy()) return 64; if(T->isFloatTy()) return 32; return 0; }
static bool leaves(Type*T,std::vector<unsigned>&w,std::vector<uint64_t>*off=nullptr,uint64_t base=0){
  if(unsigned b=bitw(T)){ if(b>64) return false; w.push_back(b); if(off) off->push_back(base); return true; }
  if(auto*ST_=dyn_cast<StructType>(T)){ const StructLayout*L=DL->getStructLayout(ST_); for(unsigned i=0;i<ST_->getNumElements();i++) if(!leaves(ST_->getElementType(i),w,off,base+L->getElementOffset(i))) return false; return true; }
  if(auto*A=dyn_cast<ArrayType>(T)){ for(uint64_t i=0;i<A->getNumElements();i++) if(!leaves(A->getElementType(),w,off,base+i*DL->getTypeAllocSize(A->getElementType()))) return false; return true; }
  if(auto*A=dyn_cast<FixedVectorType>(T)){ for(uint64_t i=0;i<A->getNumElements();i++) if(!leaves(A->getElementType(),w,off,base+i*DL->getTypeAllocSize(A->getElementType()))) return false; return true; }
  return false; }
static uint64_t constVal(Constant*C);
static uint64_t gepOff(GEPOperator*G,bool&ok){ APInt off(64,0); ok=G->accumulateConstantOffset(*DL,off); return off.getZExtValue(); }
static Fn* getFn(Function*F){ return fnOf[F]; }
static uint64_t constVal(Constant*C){
  if(auto*I=dyn_cast<ConstantInt>(C)) { if(I->getBitWidth()>64) return I->getValue().trunc(64).getZExtValue(); return I->getZExtValue(); }
  if(isa<ConstantPointerNull>(C)||isa<UndefValue>(C)||isa<ConstantAggregateZero>(C)) return 0;
  if(auto*F=dyn_cast<ConstantFP>(C)) return F->getValueAPF().bitcastToAPInt().getZExtValue();
  if(auto*F=dyn_cast<Function>(C)) return getFn(F)->addr;
  if(auto*G=dyn_cast<GlobalVariable>(C)) return gvAddr.at(G);
  if(auto*A=dyn_cast<GlobalAlias>(C)) return constVal(A->getAliasee());
  if(auto*E_=dyn_cast<ConstantExpr>(C)){
    if(auto*G=dyn_cast<GEPOperator>(E_)){ bool ok; uint64_t o=gepOff(G,ok); if(!ok){ errs()<<"const gep\n"; abort(); } return constVal(cast<Constant>(G->getPointerOperand()))+o; }
    unsigned op=E_->getOpcode(); uint64_t a=constVal(E_->getOperand(0));
    if(op==Instruction::PtrToInt||op==Instruction::IntToPtr||op==Instruction::BitCast||op==Instruction::ZExt) return a;
    if(op==Instruction::Trunc) return a&maskw(bitw(E_->getType()));
    uint64_t b=constVal(E_->getOperand(1));
    if(op==Instruction::Sub) return a-b; if(op==Instruction::Add) return a+b; if(op==Instruction::And) return a&b;
    if(op==Instruction::ICmp) { auto p=(CmpInst::Predicate)E_->getPredicate(); if(p==CmpInst::ICMP_EQ) return a==b; if(p==CmpInst::ICMP_NE) return a!=b; }
    errs()<<"constexpr "<<*C<<"\n"; abort(); }
  errs()<<"const "<<*C<<"\n"; abort(); }
static void constLeaves(Constant*C,std::vector<Opnd>&out){ Type*T=C->getType();
  if(bitw(T)){ out.push_back({-1,constVal(C)&maskw(bitw(T))}); return; }
  unsigned n=0; if(auto*S_=dyn_cast<StructType>(T)) n=S_->getNumElements(); else if(auto*A=dyn_cast<ArrayType>(T)) n=A->getNumElements(); else if(auto*A=dyn_cast<FixedVectorType>(T)) n=A->getNumElements();
  for(unsigned i=0;i<n;i++) constLeaves(C->getAggregateElement(i),out); }
static void initGlobal(Obj*o,uint64_t off,Constant*C){
  if(isa<ConstantAggregateZero>(C)||isa<UndefValue>(C)) return;
  if(auto*D=dyn_cast<ConstantDataSequential>(C)){ StringRef r=D->getRawDataValues(); for(size_t i=0;i<r.size();i++) wrByte(o,off+i,mk((uint8_t)r[i])); return; }
  Type*T=C->getType();
  if(auto*S_=dyn_cast<StructType>(T)){ auto*L=DL->getStructLayout(S_); for(unsigned i=0;i<S_->getNumElements();i++) initGlobal(o,off+L->getElementOffset(i),C->getAggregateElement(i)); return; }
  if(auto*A=dyn_cast<ArrayType>(T)){ uint64_t es=DL->getTypeAllocSize(A->getElementType()); for(uint64_t i=0;i<A->getNumElements();i++) initGlobal(o,off+i*es,C->getAggregateElement(i)); return; }
  wrMem(o,off,DL->getTypeStoreSize(T),mk(constVal(C))); }

static void build(Fn*f){
  if(f->built) return; f->built=true; Function&F=*f->F; 
  std::map<const Value*,int32_t> slot; std::map<const BasicBlock*,uint32_t> bbi; uint32_t ns=0;
  auto alloc=[&](Value*v){ std::vector<unsigned> w; if(v->getType()->isVoidTy()||v->getType()->isLabelTy()||v->getType()->isMetadataTy()) return -1; if(!leaves(v->getType(),w)) return -2; int32_t s=ns; ns+=w.size(); slot[v]=s; return s; };
  for(auto&A:F.args()){ int32_t s=alloc(&A); f->argslot.push_back(s); std::vector<unsigned> w; leaves(A.getType(),w); f->argleaf.push_back(w.size()); }
  uint32_t nb=0; for(auto&B:F){ bbi[&B]=nb++; for(auto&I:B) if(!I.getType()->isVoidTy()) alloc(&I); }
  f->vararg=F.isVarArg();
  auto ops=[&](Value*v){ std::vector<Opnd> r; if(auto*C=dyn_cast<Constant>(v)){ constLeaves(C,r); return r; }
    auto it=slot.find(v); if(it==slot.end()) return r; std::vector<unsigned> w; leaves(v->getType(),w); for(unsigned i=0;i<w.size();i++) r.push_back({it->second+(int)i,0}); return r; };
  auto op1=[&](Value*v){ auto r=ops(v); if(r.empty()) return Opnd{-1,0}; return r[0]; };
  f->phis.resize(nb); f->bbstart.resize(nb);
  for(auto&B:F){ uint32_t bi=bbi[&B]; f->bbstart[bi]=f->code.size();
    for(auto&I:B){
      if(auto*P=dyn_cast<PHINode>(&I)){ Phi ph; ph.dst=slot.count(P)?slot[P]:-1; std::vector<unsigned> w; leaves(P->getType(),w); ph.nleaf=w.size(); for(unsigned i=0;i<P->getNumIncomingValues();i++) ph.in.push_back({bbi[P->getIncomingBlock(i)],ops(P->getIncomingValue(i))}); f->phis[bi].push_back(ph); continue; }
      KI k; k.I=&I; if(slot.count(&I)) k.dst=slot[&I]; else if(!I.getType()->isVoidTy()) { k.op=KUnsup; f->code.push_back(k); continue; }
      { std::vector<unsigned> w; if(!I.getType()->isVoidTy()) leaves(I.getType(),w); k.nleaf=w.size(); k.leafw=w; if(!w.empty()) k.w=w[0]; }
      switch(I.getOpcode()){
      case Instruction::Alloca: { auto*A=cast<AllocaInst>(&I); k.op=KAlloca; k.imm=DL->getTypeAllocSize(A->getAllocatedType()); k.o.push_back(op1(A->getArraySize())); k.w2=A->getAlign().value(); break; }
      case Instruction::Load: { auto*L=cast<LoadInst>(&I); k.op=KLoad; k.o.push_back(op1(L->getPointerOperand())); k.leafw.clear(); leaves(L->getType(),k.leafw,&k.leafoff); break; }
      case Instruction::Store: { auto*S_=cast<StoreInst>(&I); k.op=KStore; k.o.push_back(op1(S_->getPointerOperand())); auto v=ops(S_->getValueOperand()); k.leafw.clear(); if(!leaves(S_->getValueOperand()->getType(),k.leafw,&k.leafoff)) k.op=KUnsup; for(auto&x:v) k.o.push_back(x); k.nleaf=v.size(); break; }
      case Instruction::GetElementPtr: { auto*G=cast<GetElementPtrInst>(&I); k.op=KGep; k.o.push_back(op1(G->getPointerOperand())); uint64_t cst=0; 
        for(auto gi=gep_type_begin(G),ge=gep_type_end(G);gi!=ge;++gi){ Value*ix=gi.getOperand(); if(auto*S_=gi.getStructTypeOrNull()){ cst+=DL->getStructLayout(S_)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { uint64_t sz=DL->getTypeAllocSize(gi.getIndexedType()); if(auto*C=dyn_cast<ConstantInt>(ix)) cst+=sz*(uint64_t)C->getSExtValue(); else { auto x=op1(ix); k.o.push_back(x); k.gep.push_back({(int)bitw(ix->getType()),sz}); } } }
        k.imm=cst; break; }
      case Instruction::Br: { auto*Br=cast<BranchInst>(&I); if(Br->isConditional()){ k.op=KCondBr; k.o.push_back(op1(Br->getCondition())); k.tgt={bbi[Br->getSuccessor(0)],bbi[Br->getSuccessor(1)]}; } else { k.op=KBr; k.tgt={bbi[Br->getSuccessor(0)]}; } k.imm=bi; break; }
      case Instruction::Switch: { auto*Sw=cast<SwitchInst>(&I); k.op=KSwitch; k.o.push_back(op1(Sw->getCondition())); k.w=bitw(Sw->getCondition()->getType()); k.tgt.push_back(bbi[Sw->getDefaultDest()]); for(auto&c:Sw->cases()){ k.cases.push_back(c.getCaseValue()->getZExtValue()); k.tgt.push_back(bbi[c.getCaseSuccessor()]); } k.imm=bi; break; }
      case Instruction::Ret: { k.op=KRet; if(I.getNumOperands()) k.o=ops(I.getOperand(0)); break; }
      case Instruction::Unreachable: k.op=KUnreach; break;
      case Instruction::Select: { k.op=KSelect; k.o.push_back(op1(I.getOperand(0))); auto a=ops(I.getOperand(1)),b=ops(I.getOperand(2)); for(auto&x:a)k.o.push_back(x); for(auto&x:b)k.o.push_back(x); if(I.getOperand(0)->getType()->isVectorTy()) k.op=KUnsup; break; }
      case Instruction::ICmp: { auto*C=cast<ICmpInst>(&I); k.op=KICmp; k.sub=C->getPredicate(); k.w=bitw(C->getOperand(0)->getType()); k.o={op1(C->getOperand(0)),op1(C->getOperand(1))}; if(!k.w||k.w>64) k.op=KUnsup; break; }
      case Instruction::FCmp: { auto*C=cast<FCmpInst>(&I); k.op=KFCmp; k.sub=C->getPredicate(); k.w=bitw(C->getOperand(0)->getType()); k.o={op1(C->getOperand(0)),op1(C->getOperand(1))}; break; }
      case Instruction::ZExt: k.op=KZExt; k.o={op1(I.getOperand(0))}; k.w2=bitw(I.getOperand(0)->getType()); if(k.nleaf!=1) k.op=KUnsup; break;
      case Instruction::SExt: k.op=KSExt; k.o={op1(I.getOperand(0))}; k.w2=bitw(I.getOperand(0)->getType()); if(k.nleaf!=1) k.op=KUnsup; break;
      case Instruction::Trunc: k.op=KTrunc; k.o={op1(I.getOperand(0))}; k.w2=bitw(I.getOperand(0)->getType()); if(k.nleaf!=1) k.op=KUnsup; break;
      case Instruction::PtrToInt: case Instruction::IntToPtr: { unsigned sw=bitw(I.getOperand(0)->getType()); k.o={op1(I.getOperand(0))}; k.w2=sw; k.op= sw==k.w?KCopy: sw<k.w?KZExt:KTrunc; break; }
      case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: k.op=KCopy; k.o=ops(I.getOperand(0)); break;
      case Instruction::ExtractValue: { auto*X=cast<ExtractValueInst>(&I); Type*T=X->getAggregateOperand()->getType(); unsigned pos=0; for(unsigned ix:X->indices()){ for(unsigned i=0;i<ix;i++){ std::vector<unsigned> w; leaves(T->isStructTy()?T->getStructElementType(i):T->getArrayElementType(),w); pos+=w.size(); } T=T->isStructTy()?T->getStructElementType(ix):T->getArrayElementType(); }
        auto a=ops(X->getAggregateOperand()); k.op=KCopy; if(pos+k.nleaf>a.size()){ k.op=KUnsup; break; } for(unsigned i=0;i<k.nleaf;i++) k.o.push_back(a[pos+i]); break; }
      case Instruction::InsertValue: { auto*X=cast<InsertValueInst>(&I); Type*T=X->getAggregateOperand()->getType(); unsigned pos=0; for(unsigned ix:X->indices()){ for(unsigned i=0;i<ix;i++){ std::vector<unsigned> w; leaves(T->isStructTy()?T->getStructElementType(i):T->getArrayElementType(),w); pos+=w.size(); } T=T->isStructTy()?T->getStructElementType(ix):T->getArrayElementType(); }
        auto a=ops(X->getAggregateOperand()); auto b=ops(X->getInsertedValueOperand()); if(pos+b.size()>a.size()){ k.op=KUnsup; break; } for(unsigned i=0;i<b.size();i++) a[pos+i]=b[i]; k.op=KCopy; k.o=a; break; }
      case Instruction::ExtractElement: { auto*X=cast<ExtractElementInst>(&I); auto a=ops(X->getVectorOperand()); if(auto*C=dyn_cast<ConstantInt>(X->getIndexOperand())){ k.op=KCopy; k.o={a[C->getZExtValue()]}; } else k.op=KUnsup; break; }
      case Instruction::InsertElement: { auto*X=cast<InsertElementInst>(&I); auto a=ops(X->getOperand(0)); if(auto*C=dyn_cast<ConstantInt>(X->getOperand(2))){ a[C->getZExtValue()]=op1(X->getOperand(1)); k.op=KCopy; k.o=a; } else k.op=KUnsup; break; }
      case Instruction::ShuffleVector: { auto*X=cast<ShuffleVectorInst>(&I); auto a=ops(X->getOperand(0)),b=ops(X->getOperand(1)); k.op=KCopy; for(int m:X->getShuffleMask()) k.o.push_back(m<0?Opnd{-1,0}: m<(int)a.size()?a[m]:b[m-a.size()]); break; }
      case Instruction::AtomicRMW: { auto*R=cast<AtomicRMWInst>(&I); k.op=KRmw; k.sub=R->getOperation(); k.o={op1(R->getPointerOperand()),op1(R->getValOperand())}; break; }
      case Instruction::AtomicCmpXchg: { auto*R=cast<AtomicCmpXchgInst>(&I); k.op=KCas; k.w=bitw(R->getNewValOperand()->getType()); k.o={op1(R->getPointerOperand()),op1(R->getCompareOperand()),op1(R->getNewValOperand())}; break; }
      case Instruction::Fence: k.op=KNop; break;
      case Instruction::FNeg: k.op=KFNeg; k.o={op1(I.getOperand(0))}; break;
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: k.op=KFBin; k.sub=I.getOpcode(); k.o={op1(I.getOperand(0)),op1(I.getOperand(1))}; break;
      case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: k.op=KFCast; k.sub=I.getOpcode(); k.w2=bitw(I.getOperand(0)->getType()); k.o={op1(I.getOperand(0))}; break;
      case Instruction::Call: { auto*C=cast<CallInst>(&I); k.op=KCall; 
        if(C->isInlineAsm()){ auto*A=cast<InlineAsm>(C->getCalledOperand()); const std::string&as=A->getAsmString(); if(as==""||k.nleaf==0) { k.op=KNop; }
          else if(as.find("cpuid")!=std::string::npos&&k.nleaf==4){ k.op=KCopy; k.o={Opnd{-1,7},Opnd{-1,0},Opnd{-1,(uint64_t)(optNoSse?0:1u<<20)},Opnd{-1,0}}; } // a, b, c, d
          else if(as.find(".byte 0xf2")!=std::string::npos){ k.builtin=builtinIdx["mse_crc32c"]; for(auto&a:C->args()){ k.args.push_back(ops(a)); k.argw.push_back(bitw(a->getType())); } }
          else k.op=KUnsup; if(A->getAsmString().find("pause")!=std::string::npos){ k.op=KCall; k.builtin=builtinIdx["mse_pause"]; } break; }
        Function*cf=dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts());
        if(cf&&cf->isIntrinsic()){ auto id=cf->getIntrinsicID(); if(id==Intrinsic::dbg_declare||id==Intrinsic::dbg_value||id==Intrinsic::dbg_label||id==Intrinsic::lifetime_start||id==Intrinsic::lifetime_end||id==Intrinsic::assume||id==Intrinsic::experimental_noalias_scope_decl||id==Intrinsic::prefetch||id==Intrinsic::donothing||id==Intrinsic::stackrestore){ k.op=KNop; break; } }
        k.callee=cf?getFn(cf):nullptr; 
        for(auto&a:C->args()){ if(a->getType()->isMetadataTy()){ k.args.push_back({}); k.argw.push_back(0); continue; } k.args.push_back(ops(a)); k.argw.push_back(bitw(a->getType())); }
        if(!k.callee) k.o.push_back(op1(C->getCalledOperand()));
        break; }
      default:
        if(auto*Bo=dyn_cast<BinaryOperator>(&I)){ k.op=KBin; if(k.nleaf!=1||k.w>64||!k.w){ k.op=KUnsup; if(I.getType()->isVectorTy()){ // elementwise
              auto a=ops(Bo->getOperand(0)),b=ops(Bo->getOperand(1)); unsigned n=k.nleaf; auto lw=k.leafw; int32_t d=k.dst; for(unsigned i=0;i<n;i++){ KI q; q.I=&I; q.op=KBin; q.sub=Bo->getOpcode(); q.w=lw[i]; q.dst=d+i; q.nleaf=1; q.o={a[i],b[i]}; f->code.push_back(q);} continue; } break; }
          k.sub=Bo->getOpcode(); k.o={op1(Bo->getOperand(0)),op1(Bo->getOperand(1))}; }
        else k.op=KUnsup;
      }
      f->code.push_back(k);
    } }
  f->nslots=ns; }

// ---------------------------------------------------------------- executor
static inline V get(Frame&f,const Opnd&o){ return o.s>=0? f.r[o.s] : V{o.c,nullptr}; }
static Frame& top(State&S){ return S.th[S.cur].st.back(); }
static void jump(State&S,uint32_t from,uint32_t to){ Frame&f=top(S); auto&ph=f.f->phis[to]; if(!ph.empty()){ static thread_local std::vector<V> tmp; tmp.clear(); for(auto&p:ph) for(auto&in:p.in) if(in.first==from){ for(auto&o:in.second) tmp.push_back(get(f,o)); break; } size_t k=0; for(auto&p:ph) for(uint32_t i=0;i<p.nleaf;i++) f.r[p.dst+i]=tmp[k++]; } f.pc=f.f->bbstart[to]; f.bb=to; }
static void pushFrame(State&S,Fn*f,const std::vector<std::vector<V>>&args){
  build(f); f->hit=true; Frame fr; fr.f=f; fr.r.resize(f->nslots,V{0,nullptr}); fr.fid=S.fid++;
  if(S.th[S.cur].st.size()>400) die(S,"stack","stack overflow (recursion depth)");
  for(size_t i=0;i<f->argslot.size();i++) if(i<args.size()) for(size_t j=0;j<args[i].size()&&j<f->argleaf[i];j++) fr.r[f->argslot[i]+j]=args[i][j];
  if(f->vararg){ size_t n=args.size()>f->argslot.size()?args.size()-f->argslot.size():0; fr.va=allocObj(S,n*8+8,OK::Stack,0,"varargs"); fr.al.push_back(fr.va); for(size_t i=0;i<n;i++){ auto&a=args[f->argslot.size()+i]; if(a.size()==1) { V v=a[0]; if(v.e&&v.e->w<64) v=mkE(EM.zext(v.e,64)); store(S,fr.va+8*i,8,v);} } }
  fr.pc=f->bbstart[0]; fr.bb=0; S.th[S.cur].st.push_back(std::move(fr)); }
static void popFrame(State&S){ auto&st=S.th[S.cur].st; for(auto a:st.back().al) freeObj(S,a); st.pop_back(); }
static void setRes(State&S,const KI&k,V v){ if(k.dst>=0){ top(S).r[k.dst]=v; } }

struct PathEnd {};
// choose next thread when current cannot run. returns false if all done.
static void schedule(State&S,bool must){
  std::vector<int> run; for(size_t i=0;i<S.th.size();i++) if(S.th[i].status==0 && !(must&&(int)i==S.cur)) run.push_back(i);
  if(run.empty()){ if(must&&S.th[S.cur].status==0) return; bool all=true; for(auto&t:S.th) if(t.status==1) all=false; if(!all) die(S,"deadlock","all threads blocked"); throw PathEnd(); }
  for(size_t i=1;i<run.size();i++){ State*n=new State(S); n->cur=run[i]; n->inp.push_back({"sched",{},(uint64_t)run[i],true,0}); ST.forks++; pushState(n); }
  S.cur=run[0]; S.inp.push_back({"sched",{},(uint64_t)run[0],true,0}); }
static void preempt(State&S){
  if(S.th.size()<2) return; 
  std::vector<int> run; for(size_t i=0;i<S.th.size();i++) if(S.th[i].status==0&&(int)i!=S.cur) run.push_back(i);
  if(run.empty()||S.preempt<=0) return;
  for(int t:run){ State*n=new State(S); n->cur=t; n->preempt--; n->inp.push_back({"preempt",{},(uint64_t)t,true,0}); ST.forks++; pushState(n); }
  S.inp.push_back({"preempt",{},(uint64_t)S.cur,true,0}); }

typedef std::vector<std::vector<V>> Args;
typedef void (*BI)(State&,const KI&,Args&);
static std::vector<std::pair<std::string,BI>> builtins;
#define A(i) (a[i][0])
static uint64_t cargn(State&S,const V&v,const char*w){ return concr(S,v,w); }
static void bi_malloc(State&S,const KI&k,Args&a){ uint64_t n=cargn(S,A(0),"malloc size"); if(n>(1ull<<31)){ setRes(S,k,mk(0)); return; } setRes(S,k,mk(allocObj(S,n,OK::Heap,0xAB,"malloc"))); }
static void bi_calloc(State&S,const KI&k,Args&a){ uint64_t n=cargn(S,A(0),"calloc"),m=cargn(S,A(1),"calloc"); unsigned __int128 t=(unsigned __int128)n*m; if(t>(1ull<<31)){ setRes(S,k,mk(0)); return; } setRes(S,k,mk(allocObj(S,n*m,OK::Heap,0,"calloc"))); }
static void doFree(State&S,uint64_t p){ if(!p) return; auto it=S.mem.find(p); if(it==S.mem.end()||it->second->kind!=OK::Heap){ die(S,"memory", S.freed.count(p)?"double free":"invalid free"); } freeObj(S,p); }
static void bi_free(State&S,const KI&k,Args&a){ doFree(S,cargn(S,A(0),"free ptr")); }
static void bi_realloc(State&S,const KI&k,Args&a){ uint64_t p=cargn(S,A(0),"realloc"),n=cargn(S,A(1),"realloc size"); if(n>(1ull<<31)){ setRes(S,k,mk(0)); return; } uint64_t q=allocObj(S,n,OK::Heap,0xAB,"malloc"); if(p){ auto it=S.mem.find(p); if(it==S.mem.end()||it->second->kind!=OK::Heap) die(S,"memory","invalid realloc"); uint64_t c=std::min(n,it->second->size); if(c) copyMem(S,q,p,c); freeObj(S,p);} setRes(S,k,mk(q)); }
static void bi_memcpy(State&S,const KI&k,Args&a){ uint64_t n=cargn(S,A(2),"memcpy size"); uint64_t d=cargn(S,A(0),"memcpy dst"),s=cargn(S,A(1),"memcpy src"); copyMem(S,d,s,n); setRes(S,k,mk(d)); }
static void bi_memset(State&S,const KI&k,Args&a){ uint64_t n=cargn(S,A(2),"memset size"); uint64_t d=cargn(S,A(0),"memset dst"); setMem(S,d,A(1),n); setRes(S,k,mk(d)); }
static void bi_memcmp(State&S,const KI&k,Args&a){ uint64_t n=cargn(S,A(2),"memcmp size"); uint64_t p=cargn(S,A(0),"memcmp ptr"),q=cargn(S,A(1),"memcmp ptr"); if(!n){ setRes(S,k,mk(0)); return; }
  // only the bytes up to the first difference have to be readable; check whole range like libc would be allowed to
  Obj*o=checkAcc(S,p,n,"read"),*r=checkAcc(S,q,n,"read"); E e=EM.cst(0,32); for(uint64_t i=n;i-->0;){ E x=toE(rdMem(o,p-o->addr+i,1),8),y=toE(rdMem(r,q-r->addr+i,1),8); if(x==y) continue; e=EM.ite(EM.eq(x,y),e,EM.bin(Op::Sub,EM.zext(x,32),EM.zext(y,32))); }
  setRes(S,k,mkE(e)); }
static void bi_assert_fail(State&S,const KI&k,Args&a){ die(S,"assert","assertion failed: "+rdStr(S,A(0).c)); }
static void bi_abort(State&S,const KI&k,Args&a){ die(S,"abort","abort() called"); }
static void bi_exit(State&S,const KI&k,Args&a){ throw PathEnd(); }
static void bi_setjmp(State&S,const KI&k,Args&a){ uint64_t b=cargn(S,A(0),"jmpbuf"); uint64_t id=S.jid++; auto&T=S.th[S.cur]; S.jmps[id]=Jmp{S.cur,T.st.size(),T.st.back().fid,T.st.back().pc,T.st.back().bb}; store(S,b,8,mk(id)); store(S,b+8,8,mk(0x6a6d70)); setRes(S,k,mk(0)); }
static void bi_longjmp(State&S,const KI&k,Args&a){ uint64_t b=cargn(S,A(0),"jmpbuf"); V v=load(S,b,8); V m=load(S,b+8,8); if(v.e||m.e||m.c!=0x6a6d70||!S.jmps.count(v.c)) die(S,"memory","longjmp through invalid buffer"); Jmp j=S.jmps[v.c]; auto&T=S.th[S.cur]; if(j.tid!=S.cur||T.st.size()<j.depth||T.st[j.depth-1].fid!=j.fid) die(S,"memory","longjmp to a dead frame"); while(T.st.size()>j.depth) popFrame(S); Frame&f=T.st.back(); f.pc=j.pc; f.bb=j.bb; const KI&kk=f.f->code[j.pc]; V rv=A(1); if(!rv.e&&rv.c==0) rv.c=1; f.r[kk.dst]=rv; f.pc++; }
static void bi_sym(State&S,const KI&k,Args&a){ uint64_t p=A(0).c; uint64_t n=A(1).c; std::string nm=rdStr(S,A(2).c); Inp in; in.name=nm; in.conc=false; in.size=n; in.c=0;
  if(n==2||n==4||n==8){ E e=EM.var(nm,8*n); in.vars.push_back(e->c); store(S,p,n,mkE(e)); }
  else for(uint64_t i=0;i<n;i++){ E e=EM.var(nm,8); in.vars.push_back(e->c); store(S,p+i,1,mkE(e)); }
  S.inp.push_back(in); }
static void bi_choose(State&S,const KI&k,Args&a){ uint64_t n=A(0).c; std::string nm=rdStr(S,A(1).c); if(A(0).e||n==0||n>100000) unsup(S,"mse_choose");
  for(uint64_t i=n;i-->1;){ State*s=new State(S); s->inp.push_back({nm,{},i,true,0}); s->th[s->cur].st.back().r[k.dst]=mk(i); s->th[s->cur].st.back().pc++; ST.forks++; pushState(s); }
  S.inp.push_back({nm,{},0,true,0}); setRes(S,k,mk(0)); }
static void bi_assume(State&S,const KI&k,Args&a){ V v=A(0); if(!v.e){ if(!v.c){ ST.assumeKill++; throw Kill(); } return; } assumeE(S,EM.not1(EM.eq(v.e,EM.cst(0,v.e->w)))); }
static void bi_assert(State&S,const KI&k,Args&a){ V v=A(0); ST.asserts++; std::string msg; if(!v.e){ if(!v.c) die(S,"property",rdStr(S,A(1).c)); return; }
  E c=EM.not1(EM.eq(v.e,EM.cst(0,v.e->w))); if(ExprMgr::isC(c)){ if(!c->c) die(S,"property",rdStr(S,A(1).c)); return; }
  std::vector<uint64_t> m=S.model; ST.assertQueries++; int r=!evalM(S,c)?1:solve(S.pc,EM.not1(c),&m); if(r<0) incomplete(S,"solver timeout in assertion"); if(r==1){ State t(S); addPC(t,EM.not1(c)); t.model=m; report(t,"property",rdStr(S,A(1).c),m); assumeE(S,c);} }
static void bi_reach(State&S,const KI&k,Args&a){ std::string s=rdStr(S,A(0).c); reach[s]++; }
static void bi_note(State&S,const KI&k,Args&a){ if(optPrint){ fprintf(stderr,"[mse] %s",rdStr(S,A(0).c).c_str()); for(size_t i=1;i<a.size();i++) { if(A(i).e) fprintf(stderr," <sym:%llu>",(unsigned long long)evalV(S,A(i).e)); else fprintf(stderr," %lld",(long long)A(i).c);} fprintf(stderr,"\n"); } }
static void bi_issym(State&S,const KI&k,Args&a){ setRes(S,k,mk(A(0).e?1:0)); }
static void bi_isnative(State&S,const KI&k,Args&a){ setRes(S,k,mk(0)); }
static void bi_live(State&S,const KI&k,Args&a){ setRes(S,k,mk(S.live)); }
static void bi_objsize(State&S,const KI&k,Args&a){ Obj*o=findObj(S,A(0).c); setRes(S,k,mk(o?o->size-(A(0).c-o->addr):0)); }
static void bi_concretize(State&S,const KI&k,Args&a){ setRes(S,k,mk(concr(S,A(0),"mse_concretize"))); }
// SSE4.2 crc32 instruction over symbolic operands.  The result is linear over
// GF(2): it is kept as a constant plus one 32-bit constant per symbolic bit.
struct Lin { uint32_t k; std::vector<std::pair<E,uint32_t>> t; };
static std::unordered_map<E,Lin> crcLin;
static uint32_t crcStep(uint32_t x){ for(int i=0;i<8;i++) x=(x>>1)^((x&1)?0x82F63B78u:0); return x; }
static void bi_crc(State&S,const KI&k,Args&a){
  unsigned n=k.argw[1]/8; Lin L; L.k=0; V cr=A(0),d=A(1); crcLin.reserve(1<<16);
  if(!cr.e) L.k=(uint32_t)cr.c; else { auto it=crcLin.find(cr.e); if(it!=crcLin.end()) L=it->second; else for(unsigned i=0;i<32;i++){ E b=EM.extract(cr.e,i,1); if(ExprMgr::isC(b)){ if(b->c) L.k^=1u<<i; } else L.t.push_back({b,1u<<i}); } }
  for(unsigned j=0;j<n;j++){
    uint32_t kb=0; std::vector<std::pair<E,uint32_t>> nb;
    if(!d.e) kb=(uint8_t)(d.c>>8*j); else { E by=EM.extract(d.e,8*j,8); if(ExprMgr::isC(by)) kb=by->c; else for(unsigned i=0;i<8;i++){ E b=EM.extract(by,i,1); if(ExprMgr::isC(b)) kb|=b->c<<i; else nb.push_back({b,1u<<i}); } }
    L.k=crcStep(L.k^kb);
    for(auto&p:nb){ bool f=false; for(auto&q:L.t) if(q.first==p.first){ q.second^=p.second; f=true; break; } if(!f) L.t.push_back(p); }
    for(auto&q:L.t) q.second=crcStep(q.second);
  }
  L.t.erase(std::remove_if(L.t.begin(),L.t.end(),[](const std::pair<E,uint32_t>&p){ return p.second==0; }),L.t.end());
  std::sort(L.t.begin(),L.t.end(),[](const std::pair<E,uint32_t>&x,const std::pair<E,uint32_t>&y){ return x.first->id<y.first->id; });
  E r=EM.cst(L.k,32); for(auto&q:L.t) r=EM.bin(Op::Xor,EM.ite(q.first,EM.cst(q.second,32),EM.cst(0,32)),r);
  if(!ExprMgr::isC(r)) crcLin[r]=L;
  setRes(S,k,mkE(r)); }
// linear form over GF(2) of an expression of up to 64 bits: constant and one mask per single-bit atom
struct Lf { uint64_t k=0; std::map<uint32_t,std::pair<E,uint64_t>> t; };
static std::unordered_map<E,Lf> lfMemo;
static void lfAdd(Lf&x,const Lf&y){ x.k^=y.k; for(auto&p:y.t){ auto&q=x.t[p.first]; q.first=p.second.first; q.second^=p.second.second; if(!q.second) x.t.erase(p.first); } }
template<class F> static Lf lfMap(const Lf&x,F f){ Lf r; r.k=f(x.k); for(auto&p:x.t){ uint64_t m=f(p.second.second); if(m) r.t[p.first]={p.second.first,m}; } return r; }
static uint64_t lfSup(const Lf&x){ uint64_t s=x.k; for(auto&p:x.t) s|=p.second.second; return s; }
static const Lf& lf(E e){
  auto it=lfMemo.find(e); if(it!=lfMemo.end()) return it->second;
  unsigned w=e->w; Lf r; bool done=false; auto big=[](E x){ return x->w>64; };
  switch(e->op){
  case Op::Const: r.k=e->c; done=true; break;
  case Op::Xor: r=lf(e->a); lfAdd(r,lf(e->b)); done=true; break;
  case Op::And: for(int s=0;s<2&&!done;s++){ E c=s?e->a:e->b,x=s?e->b:e->a; if(c->op==Op::Const){ uint64_t m=c->c; r=lfMap(lf(x),[m](uint64_t v){ return v&m; }); done=true; } } break;
  case Op::Or: case Op::Add: { Lf x=lf(e->a),y=lf(e->b); if(!(lfSup(x)&lfSup(y))){ r=x; lfAdd(r,y); done=true; } break; }
  case Op::Sub: if(e->a->op==Op::Const&&!e->a->c){ Lf x=lf(e->b); if(lfSup(x)<=1){ uint64_t m=maskw(w); r=lfMap(x,[m](uint64_t v){ return v?m:0; }); done=true; } } break;
  case Op::Shl: if(e->b->op==Op::Const&&e->b->c<w){ unsigned n=e->b->c; uint64_t m=maskw(w); r=lfMap(lf(e->a),[=](uint64_t v){ return (v<<n)&m; }); done=true; } break;
  case Op::LShr: if(e->b->op==Op::Const&&e->b->c<w){ unsigned n=e->b->c; r=lfMap(lf(e->a),[=](uint64_t v){ return v>>n; }); done=true; } break;
  case Op::ZExt: if(!big(e->a)){ r=lf(e->a); done=true; } break;
  case Op::SExt: if(!big(e->a)){ uint64_t m=maskw(w),n=maskw(e->a->w),h=(n>>1)+1; r=lfMap(lf(e->a),[=](uint64_t v){ return (v&h)?(v|(m&~n)):v; }); done=true; } break;
  case Op::Extract: if(!big(e->a)&&!(w==1&&e->a->op==Op::Var)){ unsigned n=e->c; uint64_t m=maskw(w); Lf x=lf(e->a); r=lfMap(x,[=](uint64_t v){ return (v>>n)&m; }); done=true; } break;
  case Op::Concat: if(w<=64){ unsigned n=e->b->w; r=lfMap(lf(e->a),[=](uint64_t v){ return v<<n; }); lfAdd(r,lf(e->b)); done=true; } break;
  case Op::Ite: { Lf d=lf(e->b); lfAdd(d,lf(e->d)); if(d.t.empty()){ r=lf(e->d); uint64_t m=d.k; lfAdd(r,lfMap(lf(e->a),[m](uint64_t v){ return v&1?m:0; })); done=true; } break; }
  case Op::Eq: if(!big(e->a)){ Lf x=lf(e->a); lfAdd(x,lf(e->b)); uint64_t s=lfSup(x); if(s&&!(s&(s-1))){ r=lfMap(x,[](uint64_t v){ return (uint64_t)(v!=0); }); r.k^=1; done=true; } } break;
  default: break; }
  if(!done){ r=Lf(); if(w==1) r.t[e->id]={e,1}; else for(unsigned i=0;i<w;i++){ E b=EM.extract(e,i,1); if(ExprMgr::isC(b)){ r.k|=b->c<<i; continue; } if(b->op==Op::Extract&&b->a==e){ auto&q=r.t[b->id]; q.first=b; q.second^=1ull<<i; } else { Lf x=lf(b); lfAdd(r,lfMap(x,[=](uint64_t v){ return (v&1)<<i; })); } } }
  return lfMemo[e]=r; }
static void bi_linsame(State&S,const KI&k,Args&a){ V x=A(0),y=A(1); if(!x.e&&!y.e){ setRes(S,k,mk(x.c==y.c)); return; }
  E p=toE(x,64),q=toE(y,64); Lf d=lf(p); lfAdd(d,lf(q)); if(d.t.empty()&&!d.k){ setRes(S,k,mk(1)); return; }
  setRes(S,k,mkE(EM.zext(EM.eq(p,q),64))); }
static void bi_ite(State&S,const KI&k,Args&a){ V c=A(0); if(!c.e){ setRes(S,k,c.c?A(1):A(2)); return; } E b=EM.not1(EM.eq(c.e,EM.cst(0,c.e->w))); setRes(S,k,mkE(EM.ite(b,toE(A(1),64),toE(A(2),64)))); }
static void bi_thread(State&S,const KI&k,Args&a){ Fn*f=fnAt.count(A(0).c)?fnAt[A(0).c]:nullptr; if(!f) unsup(S,"thread fn"); if(f->alias) f=f->alias; S.th.emplace_back(); int id=S.th.size()-1; int c=S.cur; S.cur=id; pushFrame(S,f,{{A(1)}}); S.cur=c; setRes(S,k,mk(id)); }
static void bi_self(State&S,const KI&k,Args&a){ setRes(S,k,mk(S.cur)); }
static void bi_preemptb(State&S,const KI&k,Args&a){ top(S).pc++; try{ preempt(S); }catch(int){ throw; } top(S).pc=top(S).pc; throw 2; }
static void bi_setpre(State&S,const KI&k,Args&a){ S.preempt=A(0).c; }
static void bi_block(State&S,const KI&k,Args&a){ S.th[S.cur].status=1; S.th[S.cur].wait=A(0).c; top(S).pc++; schedule(S,false); throw 2; }
static void bi_wake(State&S,const KI&k,Args&a){ for(auto&t:S.th) if(t.status==1&&t.wait==A(0).c) t.status=0; }
static void bi_waken(State&S,const KI&k,Args&a){ size_t t=A(0).c; if(t<S.th.size()&&S.th[t].status==1) S.th[t].status=0; }
static void bi_tdone(State&S,const KI&k,Args&a){ size_t t=A(0).c; setRes(S,k,mk(t<S.th.size()&&S.th[t].status==2)); }
static void bi_pause(State&S,const KI&k,Args&a){ top(S).pc++; schedule(S,true); throw 2; }
static void bi_fail(State&S,const KI&k,Args&a){ ST.asserts++; die(S,"property",rdStr(S,A(0).c)); }
static void bi_killpath(State&S,const KI&k,Args&a){ throw PathEnd(); }
static void bi_nop0(State&S,const KI&k,Args&a){ setRes(S,k,mk(0)); }
static void bi_strlen(State&S,const KI&k,Args&a){ uint64_t p=cargn(S,A(0),"strlen"); uint64_t n=0; for(;;n++){ V v=load(S,p+n,1); if(v.e){ int r=-2; E c=EM.eq(v.e,EM.cst(0,8)); 
      // fork: re-execution based; current path decides this byte
      r=forkOn(S,c,[&](State&,bool){}); if(r) break; continue; } if(!v.c) break; } setRes(S,k,mk(n)); }
static void bi_addr(State&S,const KI&k,Args&a){ setRes(S,k,A(0)); }

static double asD(const V&v){ double d; memcpy(&d,&v.c,8); return d; }
static V fromD(double d){ V v{0,nullptr}; memcpy(&v.c,&d,8); return v; }
static double fval(const V&v,unsigned w){ if(w==32){ float f; uint32_t x=v.c; memcpy(&f,&x,4); return f;} return asD(v); }
static V mkF(double d,unsigned w){ if(w==32){ float f=d; uint32_t x; memcpy(&x,&f,4); return mk(x);} return fromD(d); }
static void bi_strtod_raw(State&S,const KI&k,Args&a){ std::string s=rdStr(S,A(0).c); char*e; double d=strtod(s.c_str(),&e); if(A(1).c) store(S,A(1).c,8,mk(A(0).c+(e-s.c_str()))); setRes(S,k,fromD(d)); }
static void bi_fmtd(State&S,const KI&k,Args&a){ // mse_fmt_double(buf,size,prec,d)
  char b[512]; std::string s; if(A(3).e) s="0"; else { snprintf(b,sizeof b,(A(2).c>>8)=='g'?"%.*g":(A(2).c>>8)=='e'?"%.*e":"%.*f",(int)(A(2).c&255),asD(A(3))); s=b; } uint64_t n=std::min<uint64_t>(s.size(),A(1).c-1); for(uint64_t i=0;i<n;i++) store(S,A(0).c+i,1,mk((uint8_t)s[i])); store(S,A(0).c+n,1,mk(0)); setRes(S,k,mk(n)); }

static bool intrinsic(State&S,const KI&k,Args&a,Intrinsic::ID id){
  unsigned w=k.w; Frame&f=top(S); (void)f;
  auto un=[&](E(*g)(E)){ (void)g; };(void)un;
  switch(id){
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n=cargn(S,A(2),"memcpy size"); uint64_t d=cargn(S,A(0),"memcpy dst"),s=cargn(S,A(1),"memcpy src"); copyMem(S,d,s,n); return true; }
  case Intrinsic::memset: { uint64_t n=cargn(S,A(2),"memset size"); uint64_t d=cargn(S,A(0),"memset dst"); setMem(S,d,A(1),n); return true; }
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::annotation: case Intrinsic::launder_invariant_group: setRes(S,k,A(0)); return true;
  case Intrinsic::is_constant: setRes(S,k,mk(0)); return true;
  case Intrinsic::objectsize: setRes(S,k,mk((!A(1).e&&A(1).c)?0:~0ull)); return true;
  case Intrinsic::vastart: { uint64_t p=A(0).c; Frame&fr=top(S); store(S,p,4,mk(48)); store(S,p+4,4,mk(176)); store(S,p+8,8,mk(fr.va)); store(S,p+16,8,mk(0)); return true; }
  case Intrinsic::vaend: return true;
  case Intrinsic::vacopy: copyMem(S,A(0).c,A(1).c,24); return true;
  case Intrinsic::stacksave: setRes(S,k,mk(0)); return true;
  case Intrinsic::frameaddress: case Intrinsic::returnaddress: setRes(S,k,mk(0)); return true;
  case Intrinsic::trap: case Intrinsic::ubsantrap: die(S,"abort","trap");
  case Intrinsic::threadlocal_address: { uint64_t g=A(0).c; if(S.cur==0){ setRes(S,k,mk(g)); return true; } auto&T=S.th[S.cur]; auto it=T.tls.find(g); if(it==T.tls.end()){ auto*gv=tlsGv.at(g); uint64_t sz=DL->getTypeAllocSize(gv->getValueType()); uint64_t n=allocObj(S,sz,OK::Global,0,"tls"); Obj*o=wrObj(S,n); if(gv->hasInitializer()) initGlobal(o,0,const_cast<GlobalVariable*>(gv)->getInitializer()); it=T.tls.emplace(g,n).first; } setRes(S,k,mk(it->second)); return true; }
  case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: { E x=toE(A(0),w),y=toE(A(1),w); E c= id==Intrinsic::umin?EM.ult(x,y):id==Intrinsic::umax?EM.ult(y,x):id==Intrinsic::smin?EM.slt(x,y):EM.slt(y,x); setRes(S,k,mkE(EM.ite(c,x,y))); return true; }
  case Intrinsic::abs: { E x=toE(A(0),w); setRes(S,k,mkE(EM.ite(EM.slt(x,EM.cst(0,w)),EM.bin(Op::Sub,EM.cst(0,w),x),x))); return true; }
  case Intrinsic::bswap: { E x=toE(A(0),w); E r=EM.extract(x,0,8); for(unsigned i=1;i<w/8;i++) r=EM.concat(r,EM.extract(x,8*i,8)); setRes(S,k,mkE(r)); return true; }
  case Intrinsic::ctpop: { E x=toE(A(0),w); E r=EM.cst(0,w); for(unsigned i=0;i<w;i++) r=EM.bin(Op::Add,r,EM.zext(EM.extract(x,i,1),w)); setRes(S,k,mkE(r)); return true; }
  case Intrinsic::ctlz: { E x=toE(A(0),w); E r=EM.cst(w,w); for(unsigned i=0;i<w;i++) r=EM.ite(EM.eq(EM.extract(x,i,1),EM.cst(1,1)),EM.cst(w-1-i,w),r); setRes(S,k,mkE(r)); return true; }
  case Intrinsic::cttz: { E x=toE(A(0),w); E r=EM.cst(w,w); for(unsigned i=w;i-->0;) r=EM.ite(EM.eq(EM.extract(x,i,1),EM.cst(1,1)),EM.cst(i,w),r); setRes(S,k,mkE(r)); return true; }
  case Intrinsic::fshl: case Intrinsic::fshr: { E x=toE(A(0),w),y=toE(A(1),w),s=toE(A(2),w); s=EM.bin(Op::URem,s,EM.cst(w,w)); E is=EM.bin(Op::Sub,EM.cst(w,w),s); E r; if(id==Intrinsic::fshl) r=EM.bin(Op::Or,EM.bin(Op::Shl,x,s),EM.bin(Op::LShr,y,is)); else r=EM.bin(Op::Or,EM.bin(Op::Shl,x,is),EM.bin(Op::LShr,y,s)); r=EM.ite(EM.eq(s,EM.cst(0,w)),id==Intrinsic::fshl?x:y,r); setRes(S,k,mkE(r)); return true; }
  case Intrinsic::usub_sat: { E x=toE(A(0),w),y=toE(A(1),w); setRes(S,k,mkE(EM.ite(EM.ult(x,y),EM.cst(0,w),EM.bin(Op::Sub,x,y)))); return true; }
  case Intrinsic::uadd_sat: { E x=toE(A(0),w),y=toE(A(1),w); E s=EM.bin(Op::Add,x,y); setRes(S,k,mkE(EM.ite(EM.ult(s,x),EM.cst(~0ull,w),s))); return true; }
  case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
    unsigned lw=k.leafw[0]; E x=toE(A(0),lw),y=toE(A(1),lw); E r,o; 
    if(id==Intrinsic::uadd_with_overflow){ r=EM.bin(Op::Add,x,y); o=EM.ult(r,x);} else if(id==Intrinsic::usub_with_overflow){ r=EM.bin(Op::Sub,x,y); o=EM.ult(x,y);} 
    else if(id==Intrinsic::umul_with_overflow&&(ExprMgr::isC(x)||ExprMgr::isC(y))){ if(ExprMgr::isC(x)) std::swap(x,y); r=EM.bin(Op::Mul,x,y); o= y->c? EM.ult(EM.cst(maskw(lw)/y->c,lw),x):EM.cst(0,1); }
    else if(id==Intrinsic::umul_with_overflow){ if(lw==64){ E z=EM.cst(0,64); r=EM.bin(Op::Mul,x,y); // overflow iff y!=0 && r/y != x
        o=EM.bin(Op::And,EM.not1(EM.eq(y,z)),EM.not1(EM.eq(EM.bin(Op::UDiv,r,EM.ite(EM.eq(y,z),EM.cst(1,64),y)),x))); } else { E p=EM.bin(Op::Mul,EM.zext(x,64),EM.zext(y,64)); r=EM.extract(p,0,lw); o=EM.not1(EM.eq(EM.zext(r,64),p)); } }
    else { bool add=id==Intrinsic::sadd_with_overflow; r=EM.bin(add?Op::Add:Op::Sub,x,y); E z=EM.cst(0,lw); E sx=EM.slt(x,z),sy=EM.slt(y,z),sr=EM.slt(r,z); E same=EM.eq(sx,sy); if(!add) same=EM.not1(same); o=EM.bin(Op::And,same,EM.not1(EM.eq(sx,sr))); }
    if(k.dst>=0){ top(S).r[k.dst]=mkE(r); top(S).r[k.dst+1]=mkE(o);} return true; }
  case Intrinsic::fabs: { double d=fval(A(0),w); setRes(S,k,mkF(fabs(d),w)); return true; }
  case Intrinsic::fmuladd: setRes(S,k,mkF(fval(A(0),w)*fval(A(1),w)+fval(A(2),w),w)); return true;
  default: return false; } }

static V binop(State&S,const KI&k,V x,V y){
  unsigned w=k.w; Op op;
  switch(k.sub){ case Instruction::Add: op=Op::Add;break; case Instruction::Sub: op=Op::Sub;break; case Instruction::Mul: op=Op::Mul;break; case Instruction::UDiv: op=Op::UDiv;break; case Instruction::SDiv: op=Op::SDiv;break; case Instruction::URem: op=Op::URem;break; case Instruction::SRem: op=Op::SRem;break; case Instruction::Shl: op=Op::Shl;break; case Instruction::LShr: op=Op::LShr;break; case Instruction::AShr: op=Op::AShr;break; case Instruction::And: op=Op::And;break; case Instruction::Or: op=Op::Or;break; case Instruction::Xor: op=Op::Xor;break; default: unsup(S,"binop"); }
  if(op==Op::UDiv||op==Op::SDiv||op==Op::URem||op==Op::SRem){ if(!y.e){ if(!y.c) die(S,"arith","division by zero"); } else { E z=EM.eq(y.e,EM.cst(0,w)); std::vector<uint64_t> m; if(feasible(S,z,m)==1){ State t(S); addPC(t,z); report(t,"arith","division by zero",m); assumeE(S,EM.not1(z)); } } }
  if(!x.e&&!y.e) return mk(ExprMgr::fold(op,w,x.c,y.c));
  return mkE(EM.bin(op,toE(x,w),toE(y,w))); }
static V icmp(const KI&k,V x,V y){ unsigned w=k.w; 
  if(!x.e&&!y.e){ uint64_t a=x.c,b=y.c; int64_t sa=sextw(a,w),sb=sextw(b,w); bool r=false; switch(k.sub){ case CmpInst::ICMP_EQ:r=a==b;break; case CmpInst::ICMP_NE:r=a!=b;break; case CmpInst::ICMP_UGT:r=a>b;break; case CmpInst::ICMP_UGE:r=a>=b;break; case CmpInst::ICMP_ULT:r=a<b;break; case CmpInst::ICMP_ULE:r=a<=b;break; case CmpInst::ICMP_SGT:r=sa>sb;break; case CmpInst::ICMP_SGE:r=sa>=sb;break; case CmpInst::ICMP_SLT:r=sa<sb;break; case CmpInst::ICMP_SLE:r=sa<=sb;break; } return mk(r); }
  E a=toE(x,w),b=toE(y,w),r; switch(k.sub){ case CmpInst::ICMP_EQ:r=EM.eq(a,b);break; case CmpInst::ICMP_NE:r=EM.not1(EM.eq(a,b));break; case CmpInst::ICMP_UGT:r=EM.ult(b,a);break; case CmpInst::ICMP_UGE:r=EM.ule(b,a);break; case CmpInst::ICMP_ULT:r=EM.ult(a,b);break; case CmpInst::ICMP_ULE:r=EM.ule(a,b);break; case CmpInst::ICMP_SGT:r=EM.slt(b,a);break; case CmpInst::ICMP_SGE:r=EM.sle(b,a);break; case CmpInst::ICMP_SLT:r=EM.slt(a,b);break; default:r=EM.sle(a,b);break; } return mkE(r); }

static void threadExit(State&S){ auto&T=S.th[S.cur]; T.status=2; int id=S.cur; if(id==0) throw PathEnd(); for(auto&t:S.th) if(t.status==1&&t.wait==0x7000000000000000ull+id) t.status=0; schedule(S,false); }

static State*CUR; static std::string locCur(){ std::string r; auto&st=CUR->th[CUR->cur].st; int n=0; for(size_t i=st.size();i-->0&&n<4;n++){ auto&f=st[i]; uint32_t p=std::min<uint32_t>(f.pc,f.f->code.size()-1); std::string l=locOf(f.f->code[p].I); r+=f.f->name+":"+l.substr(l.rfind(':')+1)+" < "; } return r; }
static void step(State&S){
 CUR=&S;
  Frame&f=top(S); KI&k=f.f->code[f.pc]; S.inst++; ST.inst++;
  switch(k.op){
  case KAlloca: { V n=get(f,k.o[0]); uint64_t c=concr(S,n,"alloca"); uint64_t a=allocObj(S,k.imm*c,OK::Stack,0xAB,"stack",std::max<unsigned>(16,k.w2)); Frame&g=top(S); g.al.push_back(a); g.r[k.dst]=mk(a); g.pc++; return; }
  case KLoad: { V p=get(f,k.o[0]); for(size_t i=0;i<k.leafw.size();i++){ unsigned w=k.leafw[i], by=(w+7)/8; V v; if(p.e){ E a=EM.bin(Op::Add,p.e,EM.cst(k.leafoff[i],64)); v=ExprMgr::isC(a)?load(S,a->c,by):loadSym(S,a,by);} else v=load(S,p.c+k.leafoff[i],by); if(w%8){ if(v.e) v=mkE(EM.extract(v.e,0,w)); else v.c&=maskw(w);} top(S).r[k.dst+i]=v; } top(S).pc++; return; }
  case KStore: { V p=get(f,k.o[0]); uint64_t a=concr(S,p,"store address",4096); Frame&g=top(S); for(size_t i=0;i<k.leafw.size();i++){ unsigned w=k.leafw[i], by=(w+7)/8; V v=get(g,k.o[1+i]); if(w%8){ if(v.e) v=mkE(EM.zext(v.e,by*8)); else v.c&=maskw(w);} store(S,a+k.leafoff[i],by,v); } g.pc++; return; }
  case KGep: { V p=get(f,k.o[0]); if(!p.e){ uint64_t a=p.c+k.imm; bool sym=false; E e=nullptr; for(size_t i=0;i<k.gep.size();i++){ V x=get(f,k.o[1+i]); unsigned w=k.gep[i].first; if(!x.e&&!sym) a+=k.gep[i].second*(uint64_t)sextw(x.c,w); else { if(!sym){ sym=true; e=EM.cst(a,64);} E xe=toE(x,w); if(w<64) xe=EM.sext(xe,64); else if(w>64) xe=EM.extract(xe,0,64); e=EM.bin(Op::Add,e,EM.bin(Op::Mul,xe,EM.cst(k.gep[i].second,64))); } } f.r[k.dst]=sym?mkE(e):mk(a); }
    else { E e=EM.bin(Op::Add,p.e,EM.cst(k.imm,64)); for(size_t i=0;i<k.gep.size();i++){ V x=get(f,k.o[1+i]); unsigned w=k.gep[i].first; E xe=toE(x,w); if(w<64) xe=EM.sext(xe,64); e=EM.bin(Op::Add,e,EM.bin(Op::Mul,xe,EM.cst(k.gep[i].second,64))); } f.r[k.dst]=mkE(e);} f.pc++; return; }
  case KBr: jump(S,k.imm,k.tgt[0]); return;
  case KCondBr: { V c=get(f,k.o[0]); if(!c.e){ jump(S,k.imm,k.tgt[c.c&1?0:1]); return; } E ce=c.e; const KI*kp=&k; int r=forkOn(S,ce,[kp](State&n,bool taken){ jump(n,kp->imm,kp->tgt[taken?0:1]); }); jump(S,k.imm,k.tgt[r?0:1]); return; }
  case KSwitch: { V c=get(f,k.o[0]); if(!c.e){ uint32_t t=k.tgt[0]; for(size_t i=0;i<k.cases.size();i++) if(k.cases[i]==c.c){ t=k.tgt[i+1]; break; } jump(S,k.imm,t); return; }
    // decide case by case
    for(size_t i=0;i<k.cases.size();i++){ E q=EM.eq(c.e,EM.cst(k.cases[i],k.w)); std::vector<uint64_t> m; 
      if(ExprMgr::isC(q)){ if(q->c){ jump(S,k.imm,k.tgt[i+1]); return; } continue; }
      bool cur=evalM(S,q); if(cur){ // is the rest feasible
        std::vector<uint64_t> m2=S.model; int r=solve(S.pc,EM.not1(q),&m2); if(r<0) incomplete(S,"solver timeout"); if(r==1){ State*n=new State(S); n->model=m2; addPC(*n,EM.not1(q)); ST.forks++; addPC(S,q); const KI*kp=&k; (void)kp; jump(S,k.imm,k.tgt[i+1]); pushState(n); return; } addPC(S,q); jump(S,k.imm,k.tgt[i+1]); return; }
      std::vector<uint64_t> m2=S.model; int r=solve(S.pc,q,&m2); if(r<0) incomplete(S,"solver timeout"); if(r==1){ State*n=new State(S); n->model=m2; addPC(*n,q); jump(*n,k.imm,k.tgt[i+1]); ST.forks++; addPC(S,EM.not1(q)); pushState(n); } else addPC(S,EM.not1(q)); }
    jump(S,k.imm,k.tgt[0]); return; }
  case KRet: { std::vector<V> rv; for(auto&o:k.o) rv.push_back(get(f,o)); popFrame(S); auto&T=S.th[S.cur]; if(T.st.empty()){ threadExit(S); return; } Frame&g=T.st.back(); const KI&ck=g.f->code[g.pc]; if(ck.dst>=0) for(size_t i=0;i<rv.size()&&i<ck.nleaf;i++) g.r[ck.dst+i]=rv[i]; g.pc++; return; }
  case KUnreach: die(S,"abort","unreachable executed");
  case KSelect: { V c=get(f,k.o[0]); unsigned n=k.nleaf; if(!c.e){ for(unsigned i=0;i<n;i++) f.r[k.dst+i]=get(f,k.o[1+(c.c&1?0:n)+i]); } else for(unsigned i=0;i<n;i++){ V x=get(f,k.o[1+i]),y=get(f,k.o[1+n+i]); unsigned w=k.leafw[i]; if(!x.e&&!y.e&&x.c==y.c) f.r[k.dst+i]=x; else f.r[k.dst+i]=mkE(EM.ite(c.e,toE(x,w),toE(y,w))); } f.pc++; return; }
  case KICmp: f.r[k.dst]=icmp(k,get(f,k.o[0]),get(f,k.o[1])); f.pc++; return;
  case KBin: { V v=binop(S,k,get(f,k.o[0]),get(f,k.o[1])); f.r[k.dst]=v; f.pc++; return; }
  case KZExt: { V x=get(f,k.o[0]); f.r[k.dst]= x.e?mkE(EM.zext(x.e,k.w)):x; f.pc++; return; }
  case KSExt: { V x=get(f,k.o[0]); f.r[k.dst]= x.e?mkE(EM.sext(x.e,k.w)):mk((uint64_t)sextw(x.c,k.w2)&maskw(k.w)); f.pc++; return; }
  case KTrunc: { V x=get(f,k.o[0]); f.r[k.dst]= x.e?mkE(EM.extract(x.e,0,k.w)):mk(x.c&maskw(k.w)); f.pc++; return; }
  case KCopy: { static thread_local std::vector<V> t; t.clear(); for(auto&o:k.o) t.push_back(get(f,o)); for(size_t i=0;i<t.size();i++) f.r[k.dst+i]=t[i]; f.pc++; return; }
  case KNop: f.pc++; return;
  case KRmw: { uint64_t a=concr(S,get(f,k.o[0]),"atomic"); V x=get(f,k.o[1]); unsigned w=k.w; V old=load(S,a,w/8); V nv; KI t; t.w=w; switch(k.sub){ case AtomicRMWInst::Xchg: nv=x; break; case AtomicRMWInst::Add: t.sub=Instruction::Add; nv=binop(S,t,old,x); break; case AtomicRMWInst::Sub: t.sub=Instruction::Sub; nv=binop(S,t,old,x); break; case AtomicRMWInst::And: t.sub=Instruction::And; nv=binop(S,t,old,x); break; case AtomicRMWInst::Or: t.sub=Instruction::Or; nv=binop(S,t,old,x); break; default: unsup(S,"atomicrmw"); } store(S,a,w/8,nv); Frame&g=top(S); g.r[k.dst]=old; g.pc++; return; }
  case KCas: { uint64_t a=concr(S,get(f,k.o[0]),"atomic"); unsigned w=k.w; V old=load(S,a,w/8); V c=get(f,k.o[1]); uint64_t o=concr(S,old,"cas"),cc=concr(S,c,"cas"); bool ok=o==cc; if(ok) store(S,a,w/8,get(top(S),k.o[2])); Frame&g=top(S); g.r[k.dst]=old; g.r[k.dst+1]=mk(ok); g.pc++; return; }
  case KFBin: { V x=get(f,k.o[0]),y=get(f,k.o[1]); if(x.e||y.e) unsup(S,"symbolic floating point"); double a=fval(x,k.w),b=fval(y,k.w),r=0; switch(k.sub){ case Instruction::FAdd:r=a+b;break; case Instruction::FSub:r=a-b;break; case Instruction::FMul:r=a*b;break; case Instruction::FDiv:r=a/b;break; default:r=fmod(a,b);} f.r[k.dst]=mkF(r,k.w); f.pc++; return; }
  case KFNeg: { V x=get(f,k.o[0]); if(x.e) unsup(S,"symbolic floating point"); f.r[k.dst]=mkF(-fval(x,k.w),k.w); f.pc++; return; }
  case KFCmp: { V x=get(f,k.o[0]),y=get(f,k.o[1]); if(x.e||y.e) unsup(S,"symbolic floating point"); double a=fval(x,k.w),b=fval(y,k.w); bool un=std::isnan(a)||std::isnan(b),r=false; switch(k.sub){ case CmpInst::FCMP_OEQ:r=!un&&a==b;break; case CmpInst::FCMP_OGT:r=!un&&a>b;break; case CmpInst::FCMP_OGE:r=!un&&a>=b;break; case CmpInst::FCMP_OLT:r=!un&&a<b;break; case CmpInst::FCMP_OLE:r=!un&&a<=b;break; case CmpInst::FCMP_ONE:r=!un&&a!=b;break; case CmpInst::FCMP_ORD:r=!un;break; case CmpInst::FCMP_UNO:r=un;break; case CmpInst::FCMP_UEQ:r=un||a==b;break; case CmpInst::FCMP_UGT:r=un||a>b;break; case CmpInst::FCMP_UGE:r=un||a>=b;break; case CmpInst::FCMP_ULT:r=un||a<b;break; case CmpInst::FCMP_ULE:r=un||a<=b;break; case CmpInst::FCMP_UNE:r=un||a!=b;break; } f.r[k.dst]=mk(r); f.pc++; return; }
  case KFCast: { V x=get(f,k.o[0]); if(x.e){ x.c=concr(S,x,"float cast"); x.e=nullptr; } Frame&g=top(S); V r; switch(k.sub){ case Instruction::FPToSI: r=mk((uint64_t)(int64_t)fval(x,k.w2)&maskw(k.w)); break; case Instruction::FPToUI: r=mk((uint64_t)fval(x,k.w2)&maskw(k.w)); break; case Instruction::SIToFP: r=mkF((double)sextw(x.c,k.w2),k.w); break; case Instruction::UIToFP: r=mkF((double)x.c,k.w); break; default: r=mkF(fval(x,k.w2),k.w); } g.r[k.dst]=r; g.pc++; return; }
  case KCall: {
    Fn*callee=k.callee; int bi=k.builtin;
    if(!callee&&bi<0){ V p=get(f,k.o[0]); uint64_t a=concr(S,p,"function pointer"); auto it=fnAt.find(a); if(it==fnAt.end()) die(S,"memory",a==0?"call through null pointer":"call through invalid pointer"); callee=it->second; }
    Args args; args.reserve(k.args.size()); { Frame&g=top(S); for(auto&av:k.args){ std::vector<V> x; for(auto&o:av) x.push_back(get(g,o)); if(x.empty()) x.push_back(mk(0)); args.push_back(std::move(x)); } }
    if(bi<0){ if(callee->alias) callee=callee->alias; bi=callee->builtin; }
    if(bi>=0){ if(callee) callee->hit=true; Fn*cf=top(S).f; uint64_t fid=top(S).fid; uint32_t pc=top(S).pc; (void)cf; 
      try { builtins[bi].second(S,k,args); } catch(int x){ if(x==2) return; throw; }
      if(builtins[bi].second==bi_longjmp) return; (void)fid;(void)pc; top(S).pc++; return; }
    if(callee->F->isIntrinsic()){ if(!intrinsic(S,k,args,callee->F->getIntrinsicID())) unsup(S,"intrinsic "+callee->name); top(S).pc++; return; }
    if(callee->decl) unsup(S,"external function "+callee->name);
    pushFrame(S,callee,args); return; }
  default: { std::string s; raw_string_ostream os(s); os<<*k.I; unsup(S,"instruction "+s); }
  } }

// ---------------------------------------------------------------- main
static std::string js(const std::string&s){ std::string r="\""; for(char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if((unsigned char)c<32){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r+"\""; }
static void writeOut(bool timedOut){
  std::string path=optOut+(isChild?"."+std::to_string(getpid()):std::string("")); FILE*o=optOut.empty()?stdout:fopen(path.c_str(),"w"); if(!o) return;
  fprintf(o,"{\"paths\":%llu,\"forks\":%llu,\"states\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache\":%llu,\"modelhit\":%llu,\"ranged\":%llu,\"stage2\":%llu,\"ordered\":%llu,\"asserts\":%llu,\"assert_queries\":%llu,\"inst\":%llu,\"assume_killed\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.3f,\"timed_out\":%s",
    (unsigned long long)ST.paths,(unsigned long long)ST.forks,(unsigned long long)ST.states,(unsigned long long)ST.queries,(unsigned long long)ST.sat,(unsigned long long)ST.unsat,(unsigned long long)ST.unknown,(unsigned long long)ST.cache,(unsigned long long)ST.modelhit,(unsigned long long)ST.ranged,(unsigned long long)ST.stage2,(unsigned long long)ST.ordered,(unsigned long long)ST.asserts,(unsigned long long)ST.assertQueries,(unsigned long long)ST.inst,(unsigned long long)ST.assumeKill,ST.solver,ST.maxq,nowS()-T0,timedOut?"true":"false");
  fprintf(o,",\"incomplete\":{"); bool first=true; for(auto&kv:incompl){ fprintf(o,"%s%s:%llu",first?"":",",js(kv.first).c_str(),(unsigned long long)kv.second); first=false; } fprintf(o,"}");
  fprintf(o,",\"reach\":{"); first=true; for(auto&kv:reach){ fprintf(o,"%s%s:%llu",first?"":",",js(kv.first).c_str(),(unsigned long long)kv.second); first=false; } fprintf(o,"}");
  fprintf(o,",\"functions\":["); first=true; for(auto&kv:fnOf) if(kv.second->hit&&!kv.second->decl){ fprintf(o,"%s%s",first?"":",",js(kv.second->file+":"+kv.second->name).c_str()); first=false; } fprintf(o,"]");
  fprintf(o,",\"samples\":["); first=true; for(auto&v:samples){ fprintf(o,"%s[",first?"":","); bool f2=true; for(auto&i:v){ fprintf(o,"%s%s",f2?"":",",js(i).c_str()); f2=false; } fprintf(o,"]"); first=false; }
  fprintf(o,"],\"violations\":["); first=true; for(auto&v:viols){ fprintf(o,"%s{\"kind\":%s,\"msg\":%s,\"loc\":%s,\"stack\":%s,\"inputs\":[",first?"":",",js(v.kind).c_str(),js(v.msg).c_str(),js(v.loc).c_str(),js(v.stack).c_str()); bool f2=true; for(auto&i:v.inputs){ fprintf(o,"%s%s",f2?"":",",js(i).c_str()); f2=false; } fprintf(o,"]}"); first=false; } fprintf(o,"]}\n");
  if(o!=stdout) fclose(o); }
static size_t rssMB(){ FILE*f=fopen("/proc/self/statm","r"); size_t a=0,b=0; if(f){ if(fscanf(f,"%zu %zu",&a,&b)!=2) b=0; fclose(f);} return b*4096/1048576; }

int main(int argc,char**argv){
  std::string file; 
  for(int i=1;i<argc;i++){ std::string s=argv[i]; auto val=[&](const char*p)->const char*{ size_t n=strlen(p); return s.compare(0,n,p)==0?s.c_str()+n:nullptr; }; const char*v;
    if((v=val("--time="))) optTime=atof(v); else if((v=val("--query-ms="))) optQueryMs=atoi(v); else if((v=val("--max-inst="))) optMaxInst=strtoull(v,0,10); else if((v=val("--procs="))) optProcs=atoi(v); else if((v=val("--out="))) optOut=v; else if(s=="--inc") optInc=true; else if(s=="--qprof"){ optQprof=true; locNow=locCur; } else if(s=="--sites") optSites=true; else if(s=="--nosse") optNoSse=true; else if((v=val("--rlimit="))) optRlimit=strtoul(v,0,10); else if((v=val("--rlimit0="))) optRlimit0=strtoul(v,0,10); else if(s=="-v") optVerbose=true; else if(s=="-p") optPrint=true; else if((v=val("--max-viol="))) optMaxViol=atoi(v); else if((v=val("--rss="))) optMaxRss=atoi(v); else file=s; }
  T0=nowS();
  SMDiagnostic err; M=parseIRFile(file,err,LC); if(!M){ err.print("msym",errs()); return 2; } DL=&M->getDataLayout();
  // light function-level cleanup; functions calling setjmp stay as written
  { for(auto&F:*M){ F.removeFnAttr(Attribute::OptimizeNone); bool sj=false; for(auto&B:F) for(auto&I:B) if(auto*C=dyn_cast<CallInst>(&I)) if(C->hasFnAttr(Attribute::ReturnsTwice)||(C->getCalledFunction()&&C->getCalledFunction()->getName().contains("setjmp"))) sj=true; if(sj){ F.addFnAttr(Attribute::NoInline); F.addFnAttr(Attribute::OptimizeNone);} }
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM; PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM,FAM,CAM,MAM);
    FunctionPassManager FPM; if(auto e=PB.parsePassPipeline(FPM,"sroa,early-cse,simplifycfg,instsimplify,dce")) { errs()<<"pipeline\n"; return 2; }
    for(auto&F:*M) if(!F.isDeclaration()&&!F.hasFnAttribute(Attribute::OptimizeNone)) FPM.run(F,FAM); }
  builtins={ {"malloc",bi_malloc},{"calloc",bi_calloc},{"free",bi_free},{"realloc",bi_realloc},{"memcpy",bi_memcpy},{"memmove",bi_memcpy},{"memset",bi_memset},{"memcmp",bi_memcmp},{"bcmp",bi_memcmp},{"strlen",bi_strlen},
    {"__assert_fail",bi_assert_fail},{"abort",bi_abort},{"exit",bi_exit},{"_exit",bi_exit},{"_setjmp",bi_setjmp},{"setjmp",bi_setjmp},{"longjmp",bi_longjmp},
    {"mse_sym",bi_sym},{"mse_choose",bi_choose},{"mse_assume",bi_assume},{"mse_assert",bi_assert},{"mse_reach",bi_reach},{"mse_note",bi_note},{"mse_is_sym",bi_issym},{"mse_native",bi_isnative},{"mse_live",bi_live},{"mse_objsize",bi_objsize},{"mse_concretize",bi_concretize},{"mse_ite",bi_ite},{"mse_lin_same",bi_linsame},{"mse_crc32c",bi_crc},
    {"mse_thread",bi_thread},{"mse_self",bi_self},{"mse_preempt",bi_preemptb},{"mse_set_preempt",bi_setpre},{"mse_block",bi_block},{"mse_wake",bi_wake},{"mse_wake_thread",bi_waken},{"mse_thread_done",bi_tdone},{"mse_pause",bi_pause},{"mse_fail",bi_fail},{"mse_end",bi_killpath},{"mse_strtod",bi_strtod_raw},{"mse_fmt_double",bi_fmtd} };
  for(size_t i=0;i<builtins.size();i++) builtinIdx[builtins[i].first]=i;
  State*S0=new State(); S0->next=0x100000; S0->th.emplace_back();
  uint64_t fa=0x1000;
  for(auto&F:*M){ Fn*f=new Fn(); f->F=&F; f->name=F.getName().str(); f->addr=fa; fa+=16; f->decl=F.isDeclaration(); if(auto*sp=F.getSubprogram()) f->file=sp->getFilename().str(); fnOf[&F]=f; fnAt[f->addr]=f; if(builtinIdx.count(f->name)) f->builtin=builtinIdx[f->name]; }
  std::map<std::string,Fn*> byName; for(auto&kv:fnOf) byName[kv.second->name]=kv.second;
  for(auto&kv:fnOf){ Fn*f=kv.second; auto it=byName.find("stub_"+f->name); if(it!=byName.end()&&!it->second->decl) { f->alias=it->second; continue; } if(f->decl&&f->builtin<0&&!f->F->isIntrinsic()){ auto j=byName.find("model_"+f->name); if(j!=byName.end()&&!j->second->decl) f->alias=j->second; } }
  for(auto&G:M->globals()){ uint64_t sz=DL->getTypeAllocSize(G.getValueType()); if(sz==0) sz=1; uint64_t a=allocObj(*S0,sz,OK::Global,0,"global",std::max<uint64_t>(16,G.getAlign()?G.getAlign()->value():1)); gvAddr[&G]=a; if(G.isThreadLocal()) tlsGv[a]=&G; }
  for(auto&G:M->globals()) if(G.hasInitializer()){ Obj*o=wrObj(*S0,gvAddr[&G]); initGlobal(o,0,G.getInitializer()); if(G.isConstant()) o->ro=true; }
  Z=new Z3Low(EM);
  SH=(Shared*)mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); SH->slots=optProcs-1;
  auto it=byName.find("mse_main"); if(it==byName.end()){ fprintf(stderr,"no mse_main\n"); return 2; }
  pushFrame(*S0,it->second,{}); stack_.push_back(S0);
  bool timedOut=false; uint64_t tick=0;
  while(!stack_.empty()){
    State*S=stack_.back(); stack_.pop_back();
    bool again=true;
    while(again){ again=false;
    try { for(;;){ step(*S); if((++tick&0x3fff)==0){ if(nowS()-T0>optTime||rssMB()>optMaxRss){ timedOut=true; break; } } if(optMaxInst&&S->inst>optMaxInst){ report(*S,"hang","path does not end within the instruction bound",S->model); incompl["instruction bound"]++; break; } } delete S; S=nullptr; }
    catch(Kill&){ delete S; S=nullptr; }
    catch(PathEnd&){ ST.paths++; if(samples.size()<3||(ST.paths&(ST.paths-1))==0) samples.push_back(inputsOf(*S,S->model)); delete S; S=nullptr; }
    catch(int x){ if(x==1){ // new process: abandon S, work from stack_
        S=nullptr; } else { again=true; } }
    }
    if(timedOut||nowS()-T0>optTime){ if(!stack_.empty()||timedOut){ timedOut=true; incompl["time or memory budget exhausted"]++; } break; }
  }
  if(optQprof){ std::vector<std::pair<double,std::string>> v; for(auto&q:qprof) v.push_back({q.second.second,q.first}); std::sort(v.rbegin(),v.rend()); for(size_t i=0;i<v.size()&&i<30;i++) fprintf(stderr,"%.2fs %llu %s\n",v[i].first,(unsigned long long)qprof[v[i].second].first,v[i].second.c_str()); }
  if(isChild){ for(auto p:kids){ int st; waitpid(p,&st,0); if(!WIFEXITED(st)) incompl["worker died"]++; } writeOut(timedOut); __sync_add_and_fetch(&SH->slots,1); _exit(0); }
  // parent's own slot is free while waiting
  if(optProcs>1) __sync_add_and_fetch(&SH->slots,1);
  for(auto p:kids){ int st; waitpid(p,&st,0); if(!WIFEXITED(st)) incompl["worker died"]++; }
  writeOut(timedOut);
  return 0; }
