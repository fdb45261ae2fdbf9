// Hash-consed bit-vector expression DAG with light simplification,
// evaluation under an assignment and lowering to Z3.
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <cassert>
#include <cstring>
#include <z3.h>

enum class Op : uint8_t {
  Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor,
  Shl, LShr, AShr, Concat, Extract, ZExt, SExt, Eq, Ult, Ule, Slt, Sle, Ite
};

struct Expr {
  Op op;
  uint16_t w;
  uint32_t id;
  uint64_t c;        // constant / variable index / extract low bit
  const Expr *a, *b, *d;
  const std::vector<uint32_t> *vars; // sorted variable indices
  uint64_t lo=0, hi=~0ull;           // unsigned range valid for every assignment (widths up to 64)
};
typedef const Expr *E;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sextw(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ m) - m);
}

typedef std::pair<uint64_t,uint64_t> R_;
template<class G> static R_ rangeCalc(E e,G get){
  typedef R_ R; auto boolR=[](int v){ return v<0?R(0,1):R(v,v); }; auto full=[](unsigned w){ return R(0,maskw(w)); };
    unsigned w=e->w; uint64_t mx=maskw(w);
    switch(e->op){
    case Op::ZExt: return e->a->w>64?full(w):get(e->a);
    case Op::SExt: { if(e->a->w>64) return full(w); R a=get(e->a); return a.second<=maskw(e->a->w)>>1?a:full(w); }
    case Op::Add: { R a=get(e->a),b=get(e->b); if(b.second<=mx-a.second&&a.second<=mx) return R(a.first+b.first,a.second+b.second);
      if(e->b->op==Op::Const){ uint64_t k=(0-b.first)&mx; if(a.first>=k) return R(a.first-k,a.second-k);} return full(w); }
    case Op::Sub: { R a=get(e->a),b=get(e->b); if(a.first>=b.second) return R(a.first-b.second,a.second-b.first); return full(w); }
    case Op::Mul: { R a=get(e->a),b=get(e->b); unsigned __int128 h=(unsigned __int128)a.second*b.second; if(h<=mx) return R(a.first*b.first,(uint64_t)h); return full(w); }
    case Op::Shl: { R a=get(e->a); if(e->b->op==Op::Const&&e->b->c<w){ unsigned __int128 h=(unsigned __int128)a.second<<e->b->c; if(h<=mx) return R(a.first<<e->b->c,(uint64_t)h);} return full(w); }
    case Op::UDiv: { R a=get(e->a); if(e->b->op==Op::Const&&e->b->c) return R(a.first/e->b->c,a.second/e->b->c); return full(w); }
    case Op::URem: { R a=get(e->a); if(e->b->op==Op::Const&&e->b->c){ uint64_t c=e->b->c; if(a.first/c==a.second/c) return R(a.first%c,a.second%c); return R(0,c-1);} return full(w); }
    case Op::And: { R a=get(e->a),b=get(e->b); return R(0,std::min(a.second,b.second)); }
    case Op::Extract: { if(e->a->w>64) return full(w); R a=get(e->a); if(e->c==0&&a.second<=mx) return a; if(e->c>0&&e->c+w==e->a->w) return R(a.first>>e->c,a.second>>e->c); if((a.first>>e->c>>w)==(a.second>>e->c>>w)&&w<64){ return R((a.first>>e->c)&mx,(a.second>>e->c)&mx);} return full(w); }
    case Op::Concat: { if(e->a->w>64||e->b->w>=64) return full(w); R a=get(e->a),b=get(e->b); if(a.first==a.second) return R((a.first<<e->b->w)|b.first,(a.first<<e->b->w)|b.second); return R(a.first<<e->b->w,(a.second<<e->b->w)|maskw(e->b->w)); }
    case Op::Ite: { R c=get(e->a); if(c.first==c.second) return get(c.first?e->b:e->d); R a=get(e->b),b=get(e->d); return R(std::min(a.first,b.first),std::max(a.second,b.second)); }
    case Op::Ult: { if(e->a->w>64) return R(0,1); R a=get(e->a),b=get(e->b); return boolR(a.second<b.first?1:a.first>=b.second?0:-1); }
    case Op::Ule: { if(e->a->w>64) return R(0,1); R a=get(e->a),b=get(e->b); return boolR(a.second<=b.first?1:a.first>b.second?0:-1); }
    case Op::Slt: case Op::Sle: { if(e->a->w>64) return R(0,1); uint64_t h=maskw(e->a->w)>>1; R a=get(e->a),b=get(e->b); if(a.second>h||b.second>h) return R(0,1); if(e->op==Op::Slt) return boolR(a.second<b.first?1:a.first>=b.second?0:-1); return boolR(a.second<=b.first?1:a.first>b.second?0:-1); }
    case Op::Eq: { if(e->a->w>64) return R(0,1); R a=get(e->a),b=get(e->b); if(a.second<b.first||b.second<a.first) return R(0,0); if(a.first==a.second&&a==b) return R(1,1); return R(0,1); }
    case Op::Or: if(w==1){ R a=get(e->a),b=get(e->b); return R(a.first|b.first,a.second|b.second);} return full(w);
    case Op::Xor: if(w==1){ R a=get(e->a),b=get(e->b); if(a.first==a.second&&b.first==b.second) return boolR(a.first^b.first);} return full(w);
    default: return full(w);
    }
  }

struct VarInfo { std::string name; unsigned w; };

struct ExprMgr {
  struct Key { Op op; uint16_t w; uint64_t c; E a, b, d;
    bool operator==(const Key &o) const { return op==o.op&&w==o.w&&c==o.c&&a==o.a&&b==o.b&&d==o.d; } };
  struct KH { size_t operator()(const Key &k) const {
    uint64_t h = (uint64_t)k.op * 0x9E3779B97F4A7C15ull + k.w;
    auto mix=[&](uint64_t x){ h ^= x + 0x9E3779B97F4A7C15ull + (h<<6) + (h>>2); h*=0xff51afd7ed558ccdull; };
    mix(k.c); mix((uint64_t)k.a); mix((uint64_t)k.b); mix((uint64_t)k.d); return h; } };
  std::unordered_map<Key, E, KH> tab;
  std::vector<VarInfo> varinfo;
  std::vector<E> all;
  std::vector<uint32_t> novars;

  E raw(Op op, unsigned w, uint64_t c, E a=nullptr, E b=nullptr, E d=nullptr) {
    Key k{op,(uint16_t)w,c,a,b,d};
    auto it = tab.find(k);
    if (it != tab.end()) return it->second;
    Expr *e = new Expr; e->op=op; e->w=(uint16_t)w; e->id=(uint32_t)all.size(); e->c=c; e->a=a; e->b=b; e->d=d; e->vars=nullptr;
    if (op==Op::Const) e->vars=&novars;
    else if (op==Op::Var) e->vars=new std::vector<uint32_t>{(uint32_t)c};
    else {
      const std::vector<uint32_t>* best=&novars; E ch[3]={a,b,d};
      for (E x: ch) if (x && x->vars->size()>best->size()) best=x->vars;
      bool same=true;
      for (E x: ch) if (x && x->vars!=best && !std::includes(best->begin(),best->end(),x->vars->begin(),x->vars->end())) same=false;
      if (same) e->vars=best;
      else {
        std::vector<uint32_t> u;
        for (E x: ch) if (x) { std::vector<uint32_t> t; std::set_union(u.begin(),u.end(),x->vars->begin(),x->vars->end(),std::back_inserter(t)); u.swap(t); }
        e->vars=new std::vector<uint32_t>(std::move(u));
      }
    }
    if (w<=64) { e->hi=maskw(w); if (op==Op::Const) e->lo=e->hi=c; else if (op!=Op::Var) { R_ r=rangeCalc((E)e,[](E x){ return x->w>64?R_(0,~0ull):R_(x->lo,x->hi); }); e->lo=r.first; e->hi=r.second; } }
    tab.emplace(k,e); all.push_back(e);
    return e;
  }
  E cst(uint64_t v, unsigned w) { return raw(Op::Const,w,v&maskw(w)); }
  E var(const std::string &name, unsigned w) {
    varinfo.push_back({name,w});
    return raw(Op::Var,w,varinfo.size()-1);
  }
  static bool isC(E e){ return e->op==Op::Const; }
  static bool isC(E e,uint64_t v){ return e->op==Op::Const && e->c==(v&maskw(e->w)); }

  static uint64_t fold(Op op, unsigned w, uint64_t a, uint64_t b) {
    switch(op){
    case Op::Add: return (a+b)&maskw(w);
    case Op::Sub: return (a-b)&maskw(w);
    case Op::Mul: return (a*b)&maskw(w);
    case Op::UDiv: return b? a/b : maskw(w);
    case Op::URem: return b? a%b : a;
    case Op::SDiv: { int64_t x=sextw(a,w),y=sextw(b,w); if(y==0) return x>=0?maskw(w):1; if(y==-1) return (0-(uint64_t)x)&maskw(w); return (uint64_t)(x/y)&maskw(w);}
    case Op::SRem: { int64_t x=sextw(a,w),y=sextw(b,w); if(y==0) return a; if(y==-1) return 0; return (uint64_t)(x%y)&maskw(w);}
    case Op::And: return a&b;
    case Op::Or: return a|b;
    case Op::Xor: return a^b;
    case Op::Shl: return b>=w?0:(a<<b)&maskw(w);
    case Op::LShr: return b>=w?0:(a>>b);
    case Op::AShr: { int64_t x=sextw(a,w); if(b>=w) b=w-1; return (uint64_t)(x>>b)&maskw(w);}
    case Op::Eq: return a==b;
    case Op::Ult: return a<b;
    case Op::Ule: return a<=b;
    default: assert(0); return 0;
    }
  }
  E not1(E e){ // boolean negation, width 1
    if (isC(e)) return cst(!e->c,1);
    if (e->op==Op::Xor && isC(e->b,1)) return e->a;
    if (e->op==Op::Ult) return ule(e->b,e->a);
    if (e->op==Op::Ule) return ult(e->b,e->a);
    if (e->op==Op::Slt) return sle(e->b,e->a);
    if (e->op==Op::Sle) return slt(e->b,e->a);
    return raw(Op::Xor,1,0,e,cst(1,1));
  }
  static bool ck(E e,int d=4){ return isC(e)||(d>0&&e->op==Op::Ite&&ck(e->b,d-1)&&ck(e->d,d-1)); } // constants at every leaf
  static bool iteK(E e){ return e->op==Op::Ite&&(isC(e->b)||isC(e->d)); }
  // e as a sum of atoms with constant factors, modulo 2^64; equal sums are equal values
  struct LinF { bool ok=false; uint64_t k=0; std::vector<std::pair<E,uint64_t>> t; };
  std::unordered_map<E,LinF> linMemo;
  const LinF& linOf(E e){ // the exact unsigned value of e (below full width only what cannot wrap is taken apart)
    auto it=linMemo.find(e); if(it!=linMemo.end()) return it->second;
    LinF r; r.ok=true; unsigned w=e->w; uint64_t mx=maskw(w); bool full=w==64;
    auto atom=[&]{ r=LinF(); r.ok=true; r.t={{e,1}}; };
    auto merge=[&](const LinF&x,uint64_t f){ LinF o; o.ok=r.ok&&x.ok; o.k=r.k+x.k*f; size_t i=0,j=0; while(i<r.t.size()||j<x.t.size()){
        if(j>=x.t.size()||(i<r.t.size()&&r.t[i].first->id<x.t[j].first->id)) o.t.push_back(r.t[i++]);
        else if(i>=r.t.size()||x.t[j].first->id<r.t[i].first->id){ if(x.t[j].second*f) o.t.push_back({x.t[j].first,x.t[j].second*f}); j++; }
        else { uint64_t c=r.t[i].second+x.t[j].second*f; if(c) o.t.push_back({r.t[i].first,c}); i++; j++; } }
      if(o.t.size()>64) o.ok=false; r=std::move(o); };
    switch(e->op){
    case Op::Const: r.k=e->c; break;
    case Op::ZExt: if(e->a->w<=64) merge(linOf(e->a),1); else atom(); break;
    case Op::SExt: if(e->a->w<=64&&e->a->hi<=maskw(e->a->w)>>1) merge(linOf(e->a),1); else atom(); break;
    case Op::Add:
      if(full||(e->a->hi<=mx&&e->b->hi<=mx-e->a->hi)){ LinF x=linOf(e->a),y=linOf(e->b); merge(x,1); merge(y,1); }
      else if(isC(e->b)&&e->a->lo>=((0-e->b->c)&mx)){ LinF x=linOf(e->a); merge(x,1); r.k-=(0-e->b->c)&mx; }
      else atom(); break;
    case Op::Sub: if(full||e->a->lo>=e->b->hi){ LinF x=linOf(e->a),y=linOf(e->b); merge(x,1); merge(y,~0ull); } else atom(); break;
    case Op::Mul: if(isC(e->b)&&(full||(unsigned __int128)e->a->hi*e->b->c<=mx)){ LinF x=linOf(e->a); merge(x,e->b->c); } else atom(); break;
    case Op::Shl: if(isC(e->b)&&e->b->c<w&&(full||((unsigned __int128)e->a->hi<<e->b->c)<=mx)){ LinF x=linOf(e->a); merge(x,1ull<<e->b->c); } else atom(); break;
    case Op::Concat: if(w<=64&&e->b->w<64){ LinF x=linOf(e->a),y=linOf(e->b); merge(x,1ull<<e->b->w); merge(y,1); } else atom(); break;
    case Op::Extract: if(e->c==0&&e->a->w<=64&&e->a->hi<=mx) { LinF x=linOf(e->a); merge(x,1); } else atom(); break;
    default: atom();
    }
    if(!r.ok){ r=LinF(); r.ok=true; r.t={{e,1}}; }
    return linMemo[e]=std::move(r);
  }
  static bool sumLike(E e){ return e->op==Op::Add||e->op==Op::Sub||e->op==Op::Mul; }
  E eq(E a, E b){
    if (a==b) return cst(1,1);
    if (isC(a)&&isC(b)) return cst(a->c==b->c,1);
    if (isC(a)) std::swap(a,b);
    if (a->w==64&&!isC(b)&&(sumLike(a)||sumLike(b))&&*a->vars==*b->vars) { LinF x=linOf(a); const LinF&y=linOf(b); if (x.t==y.t) return cst(x.k==y.k,1); }
    if (a->w==1) {
      if (isC(b)) return b->c? a : not1(a);
    }
    if (isC(b)) {
      if (a->op==Op::ZExt) { unsigned iw=a->a->w; if (b->c & ~maskw(iw)) return cst(0,1); return eq(a->a,cst(b->c,iw)); }
      if (a->op==Op::SExt) { unsigned iw=a->a->w; uint64_t lo=b->c&maskw(iw); if (((uint64_t)sextw(lo,iw)&maskw(a->w))!=b->c) return cst(0,1); return eq(a->a,cst(lo,iw)); }
      if (a->op==Op::Ite && isC(a->b) && isC(a->d)) {
        bool x=a->b->c==b->c, y=a->d->c==b->c;
        if (x&&y) return cst(1,1); if(!x&&!y) return cst(0,1);
        return x? a->a : not1(a->a);
      }
      if (a->op==Op::Ite && ck(a)) return ite(a->a,eq(a->b,b),eq(a->d,b));
      if (a->op==Op::Ite && (isC(a->b)||isC(a->d))) {
        if (isC(a->b) && a->b->c!=b->c) return bin(Op::And,not1(a->a),eq(a->d,b));
        if (isC(a->d) && a->d->c!=b->c) return bin(Op::And,a->a,eq(a->b,b));
        if (isC(a->b)) return bin(Op::Or,a->a,eq(a->d,b));
        if (isC(a->d)) return bin(Op::Or,not1(a->a),eq(a->b,b));
      }
      if (a->op==Op::Add && isC(a->b)) return eq(a->a,cst(b->c-a->b->c,a->w));
      if (a->op==Op::Concat) {
        unsigned lw=a->b->w;
        return bin(Op::And, eq(a->a,cst(b->c>>lw,a->a->w)), eq(a->b,cst(b->c,lw)));
      }
      if (a->op==Op::Sub && b->c==0) return eq(a->a,a->b);
      if (a->op==Op::Xor && b->c==0) return eq(a->a,a->b);
    }
    if (a->op==Op::ZExt && b->op==Op::ZExt && a->a->w==b->a->w) return eq(a->a,b->a);
    if (a->op==Op::Concat && b->op==Op::Concat && a->b->w==b->b->w && isC(a->b) && isC(b->b)) return a->b->c==b->b->c? eq(a->a,b->a) : cst(0,1);
    if (a->op==Op::SExt && b->op==Op::SExt && a->a->w==b->a->w) return eq(a->a,b->a);
    if (a->op==Op::Add&&b->op==Op::Add&&isC(a->b)&&isC(b->b)&&a->b->c==b->b->c) return eq(a->a,b->a);
    if (a->w<=64&&(a->hi<b->lo||b->hi<a->lo)) return cst(0,1);
    if (a->id>b->id) std::swap(a,b);
    if (isC(a)) std::swap(a,b);
    return raw(Op::Eq,1,0,a,b);
  }
  E ult(E a,E b){
    if (a==b) return cst(0,1);
    if (isC(a)&&isC(b)) return cst(a->c<b->c,1);
    if (isC(b,0)) return cst(0,1);
    if (isC(b,1)) return eq(a,cst(0,a->w));
    if (isC(a)&&a->c==maskw(a->w)) return cst(0,1);
    if (b->op==Op::Concat&&isC(b->b,0)) { unsigned k=b->b->w; return ult(extract(a,k,a->w-k),b->a); }
    if (a->op==Op::Concat&&isC(a->b)&&a->b->c==maskw(a->b->w)) { unsigned k=a->b->w; return ult(a->a,extract(b,k,b->w-k)); }
    if (a->op==Op::Concat&&b->op==Op::Concat&&a->b->w==b->b->w&&isC(a->b)&&isC(b->b)) return a->b->c<b->b->c? ule(a->a,b->a) : ult(a->a,b->a);
    if (isC(a,0)) return not1(eq(b,cst(0,b->w)));
    if (a->op==Op::ZExt&&b->op==Op::ZExt&&a->a->w==b->a->w) return ult(a->a,b->a);
    if (a->op==Op::ZExt&&isC(b)) { if (b->c>maskw(a->a->w)) return cst(1,1); return ult(a->a,cst(b->c,a->a->w)); }
    if (b->op==Op::ZExt&&isC(a)) { if (a->c>=maskw(b->a->w)) return cst(0,1); return ult(cst(a->c,b->a->w),b->a); }
    if (a->w<=64) { if (a->hi<b->lo) return cst(1,1); if (a->lo>=b->hi) return cst(0,1); }
    if (a->w<=64&&a->op==Op::Add&&isC(a->b)&&a->a->hi<=maskw(a->w)-a->b->c) { // x+k without wrap
      if (b->op==Op::Add&&isC(b->b)&&b->b->c==a->b->c&&b->a->hi<=maskw(a->w)-b->b->c) return ult(a->a,b->a);
      if (isC(b)&&b->c>=a->b->c) return ult(a->a,cst(b->c-a->b->c,a->w)); }
    if (isC(a)&&b->w<=64&&b->op==Op::Add&&isC(b->b)&&b->a->hi<=maskw(b->w)-b->b->c&&a->c>=b->b->c) return ult(cst(a->c-b->b->c,a->w),b->a);
    if (isC(b)&&iteK(a)) return ite(a->a,ult(a->b,b),ult(a->d,b));
    if (isC(a)&&iteK(b)) return ite(b->a,ult(a,b->b),ult(a,b->d));
    return raw(Op::Ult,1,0,a,b);
  }
  E ule(E a,E b){
    if (a==b) return cst(1,1);
    if (isC(a)&&isC(b)) return cst(a->c<=b->c,1);
    if (isC(a,0)) return cst(1,1);
    if (isC(b)&&b->c==maskw(b->w)) return cst(1,1);
    if (isC(b,0)) return eq(a,b);
    if (a->op==Op::Concat&&isC(a->b,0)) { unsigned k=a->b->w; return ule(a->a,extract(b,k,b->w-k)); }
    if (b->op==Op::Concat&&isC(b->b)&&b->b->c==maskw(b->b->w)) { unsigned k=b->b->w; return ule(extract(a,k,a->w-k),b->a); }
    if (a->op==Op::Concat&&b->op==Op::Concat&&a->b->w==b->b->w&&isC(a->b)&&isC(b->b)) return a->b->c<=b->b->c? ule(a->a,b->a) : ult(a->a,b->a);
    if (a->op==Op::ZExt&&b->op==Op::ZExt&&a->a->w==b->a->w) return ule(a->a,b->a);
    if (a->op==Op::ZExt&&isC(b)) { if (b->c>=maskw(a->a->w)) return cst(1,1); return ule(a->a,cst(b->c,a->a->w)); }
    if (b->op==Op::ZExt&&isC(a)) { if (a->c>maskw(b->a->w)) return cst(0,1); return ule(cst(a->c,b->a->w),b->a); }
    if (a->w<=64) { if (a->hi<=b->lo) return cst(1,1); if (a->lo>b->hi) return cst(0,1); }
    if (a->w<=64&&a->op==Op::Add&&isC(a->b)&&a->a->hi<=maskw(a->w)-a->b->c) { // x+k without wrap
      if (b->op==Op::Add&&isC(b->b)&&b->b->c==a->b->c&&b->a->hi<=maskw(a->w)-b->b->c) return ule(a->a,b->a);
      if (isC(b)&&b->c>=a->b->c) return ule(a->a,cst(b->c-a->b->c,a->w)); }
    if (isC(a)&&b->w<=64&&b->op==Op::Add&&isC(b->b)&&b->a->hi<=maskw(b->w)-b->b->c&&a->c>=b->b->c) return ule(cst(a->c-b->b->c,a->w),b->a);
    if (isC(b)&&iteK(a)) return ite(a->a,ule(a->b,b),ule(a->d,b));
    if (isC(a)&&iteK(b)) return ite(b->a,ule(a,b->b),ule(a,b->d));
    return raw(Op::Ule,1,0,a,b);
  }
  E slt(E a,E b){
    if (a==b) return cst(0,1);
    if (isC(a)&&isC(b)) return cst(sextw(a->c,a->w)<sextw(b->c,b->w),1);
    if (a->op==Op::ZExt&&b->op==Op::ZExt&&a->a->w==b->a->w) return ult(a->a,b->a);
    if (a->op==Op::SExt&&b->op==Op::SExt&&a->a->w==b->a->w) return slt(a->a,b->a);
    if (a->op==Op::Ite&&ck(a)&&isC(b)) { return ite(a->a,slt(a->b,b),slt(a->d,b)); }
    if (b->op==Op::Ite&&ck(b)&&isC(a)) { return ite(b->a,slt(a,b->b),slt(a,b->d)); }
    if (a->op==Op::ZExt&&isC(b)) { if (sextw(b->c,b->w)<=0) return cst(0,1); return ult(a,b);}
    if (b->op==Op::ZExt&&isC(a)) { if (sextw(a->c,a->w)<0) return cst(1,1); return ult(a,b);}
    if (a->w<=64&&a->w>1&&a->hi<=(maskw(a->w)>>1)&&b->hi<=(maskw(a->w)>>1)) return ult(a,b);
    return raw(Op::Slt,1,0,a,b);
  }
  E sle(E a,E b){
    if (a==b) return cst(1,1);
    if (isC(a)&&isC(b)) return cst(sextw(a->c,a->w)<=sextw(b->c,b->w),1);
    if (a->op==Op::ZExt&&b->op==Op::ZExt&&a->a->w==b->a->w) return ule(a->a,b->a);
    if (a->op==Op::SExt&&b->op==Op::SExt&&a->a->w==b->a->w) return sle(a->a,b->a);
    if (a->op==Op::Ite&&ck(a)&&isC(b)) { return ite(a->a,sle(a->b,b),sle(a->d,b)); }
    if (b->op==Op::Ite&&ck(b)&&isC(a)) { return ite(b->a,sle(a,b->b),sle(a,b->d)); }
    if (a->op==Op::ZExt&&isC(b)) { if (sextw(b->c,b->w)<0) return cst(0,1); return ule(a,b);}
    if (b->op==Op::ZExt&&isC(a)) { if (sextw(a->c,a->w)<=0) return cst(1,1); return ule(a,b);}
    if (a->w<=64&&a->w>1&&a->hi<=(maskw(a->w)>>1)&&b->hi<=(maskw(a->w)>>1)) return ule(a,b);
    return raw(Op::Sle,1,0,a,b);
  }
  E ite(E c,E a,E b){
    if (isC(c)) return c->c?a:b;
    if (a==b) return a;
    if (a->w==1) {
      if (isC(a,1)&&isC(b,0)) return c;
      if (isC(a,0)&&isC(b,1)) return not1(c);
      if (isC(a,1)) return bin(Op::Or,c,b);
      if (isC(a,0)) return bin(Op::And,not1(c),b);
      if (isC(b,0)) return bin(Op::And,c,a);
      if (isC(b,1)) return bin(Op::Or,not1(c),a);
    }
    if (c->op==Op::Xor && isC(c->b,1)) return ite(c->a,b,a);
    return raw(Op::Ite,a->w,0,c,a,b);
  }
  E zext(E a,unsigned w){
    if (a->w==w) return a; assert(w>a->w);
    if (isC(a)) return cst(a->c,w);
    if (a->op==Op::ZExt) return zext(a->a,w);
    return raw(Op::ZExt,w,0,a);
  }
  E sext(E a,unsigned w){
    if (a->w==w) return a; assert(w>a->w);
    if (isC(a)) return cst((uint64_t)sextw(a->c,a->w),w);
    if (a->op==Op::SExt) return sext(a->a,w);
    if (a->op==Op::ZExt) return zext(a->a,w);
    if (w<=64&&a->hi<=maskw(a->w)>>1) return zext(a,w);
    if (w<=64&&a->op==Op::Ite&&ck(a)) return ite(a->a,sext(a->b,w),sext(a->d,w));
    return raw(Op::SExt,w,0,a);
  }
  std::unordered_map<uint64_t,E> xmemo;
  E extract(E a,unsigned lo,unsigned w){
    if (lo==0&&w==a->w) return a;
    if (isC(a)) return cst(a->c>>lo,w);
    if (a->op==Op::Var) return extract0(a,lo,w);
    uint64_t key=((uint64_t)a->id<<16)|(lo<<8)|w;
    if (lo<256&&w<256) { auto it=xmemo.find(key); if(it!=xmemo.end()) return it->second; E r=extract0(a,lo,w); xmemo.emplace(key,r); return r; }
    return extract0(a,lo,w);
  }
  E extract0(E a,unsigned lo,unsigned w){
    assert(lo+w<=a->w);
    if (isC(a)) return cst(a->c>>lo,w);
    if (a->op==Op::Extract) return extract(a->a,a->c+lo,w);
    if (a->op==Op::Concat) {
      unsigned lw=a->b->w;
      if (lo+w<=lw) return extract(a->b,lo,w);
      if (lo>=lw) return extract(a->a,lo-lw,w);
      if (isC(a->b)) return concat(extract(a->a,0,lo+w-lw),extract(a->b,lo,lw-lo));
    }
    if (a->op==Op::ZExt) {
      unsigned iw=a->a->w;
      if (lo>=iw) return cst(0,w);
      if (lo+w<=iw) return extract(a->a,lo,w);
      return zext(extract(a->a,lo,iw-lo),w);
    }
    if (a->op==Op::SExt) { unsigned iw=a->a->w; if (lo+w<=iw) return extract(a->a,lo,w); if (lo==0) return sext(a->a,w); }
    if (a->op==Op::Ite && ck(a)) return ite(a->a,extract(a->b,lo,w),extract(a->d,lo,w));
    if (a->op==Op::Ite && (isC(a->b)||isC(a->d)||a->b->op==Op::Concat||a->b->op==Op::ZExt)) return ite(a->a,extract(a->b,lo,w),extract(a->d,lo,w));
    if (lo==0 && (a->op==Op::Add||a->op==Op::Sub||a->op==Op::Mul)) return bin(a->op,extract(a->a,0,w),extract(a->b,0,w));
    if (a->op==Op::And||a->op==Op::Or||a->op==Op::Xor) return bin(a->op,extract(a->a,lo,w),extract(a->b,lo,w));
    if (a->op==Op::LShr && isC(a->b) && a->b->c+lo+w<=a->w) return extract(a->a,a->b->c+lo,w);
    if (a->op==Op::Shl && isC(a->b)) { uint64_t s=a->b->c; if (lo>=s && s<a->w) return extract(a->a,lo-s,w); if (lo+w<=s) return cst(0,w); }
    return raw(Op::Extract,w,lo,a);
  }
  E concat(E hi,E lo){
    unsigned w=hi->w+lo->w;
    if (isC(hi)&&isC(lo)&&w<=64) return cst((hi->c<<lo->w)|lo->c,w);
    if (isC(hi,0)) return zext(lo,w);
    if (hi->op==Op::Extract&&lo->op==Op::Extract&&hi->a==lo->a&&hi->c==lo->c+lo->w) return extract(hi->a,lo->c,w);
    if (hi->op==Op::Extract&&hi->c>=lo->w&&(hi->a->op==Op::Add||hi->a->op==Op::Sub||hi->a->op==Op::Mul)&&extract(hi->a,hi->c-lo->w,lo->w)==lo) return extract(hi->a,hi->c-lo->w,w);
    if (hi->op==Op::Ite&&lo->op==Op::Ite&&hi->a==lo->a) return ite(hi->a,concat(hi->b,lo->b),concat(hi->d,lo->d));
    if (hi->op==Op::ZExt&&lo->op==Op::Extract) { // zext(extract(x,k..)) ++ extract(x,..k)
      E in=hi->a;
      if (in->op==Op::Extract&&in->a==lo->a&&in->c==lo->c+lo->w) return zext(extract(lo->a,lo->c,in->w+lo->w),w);
    }
    // (hi ++ (b ++ c)) keep right-nested merge: try merging hi with lo's top
    if (lo->op==Op::Concat) {
      E top=concat_try(hi,lo->a);
      if (top) return concat(top,lo->b);
    }
    return raw(Op::Concat,w,0,hi,lo);
  }
  E concat_try(E hi,E lo){
    if (isC(hi)&&isC(lo)&&hi->w+lo->w<=64) return cst((hi->c<<lo->w)|lo->c,hi->w+lo->w);
    if (hi->op==Op::Extract&&lo->op==Op::Extract&&hi->a==lo->a&&hi->c==lo->c+lo->w) return extract(hi->a,lo->c,hi->w+lo->w);
    return nullptr;
  }
  E bin(Op op,E a,E b){
    unsigned w=a->w;
    switch(op){ case Op::Eq: return eq(a,b); case Op::Ult: return ult(a,b); case Op::Ule: return ule(a,b);
      case Op::Slt: return slt(a,b); case Op::Sle: return sle(a,b); default: break; }
    if (isC(a)&&isC(b)) return cst(fold(op,w,a->c,b->c),w);
    switch(op){
    case Op::Add: if(isC(a))std::swap(a,b); if(isC(b,0))return a;
      if(isC(b)&&a->op==Op::Add&&isC(a->b)) return bin(Op::Add,a->a,cst(a->b->c+b->c,w));
      if(isC(b)&&w>1&&w<=64&&a->op==Op::ZExt&&a->a->w==1) return ite(a->a,cst(b->c+1,w),b);
      if(isC(b)&&a->op==Op::Ite&&isC(a->b)&&isC(a->d)) return ite(a->a,bin(op,a->b,b),bin(op,a->d,b));
      if(isC(b)&&w<=64&&a->op==Op::Concat&&isC(a->b)){ unsigned k=a->b->w; uint64_t cl=(b->c&maskw(k))+a->b->c; return concat(bin(Op::Add,a->a,cst((b->c>>k)+(cl>>k),a->a->w)),cst(cl,k)); }
      if(a->op==Op::Sub&&a->b==b) return a->a;
      if(b->op==Op::Sub&&b->b==a) return b->a;
      break;
    case Op::Sub: if(a==b)return cst(0,w);
      if(isC(a)&&w>1&&w<=64&&b->op==Op::ZExt&&b->a->w==1) return ite(b->a,cst(a->c-1,w),a);
      if(w<=64&&b->op==Op::ZExt&&b->a->w<w&&a->w>1&&b->a->op==Op::Extract&&extract(a,0,b->a->w)==b->a){ unsigned k=b->a->w; return concat(extract(a,k,w-k),cst(0,k)); } // x - x mod 2^k
      if(w>1&&a->op==Op::ZExt&&b->op==Op::ZExt&&a->a->w==1&&b->a->w==1){ E z=cst(0,w),o=cst(1,w),m=cst(maskw(w),w); return ite(a->a,ite(b->a,z,o),ite(b->a,m,z)); } if(isC(b)) return bin(Op::Add,a,cst(0-b->c,w));
      if(b->op==Op::Add&&isC(b->b)) { if(b->a==a) return cst(0-b->b->c,w); if(a->op==Op::Add&&isC(a->b)&&a->a==b->a) return cst(a->b->c-b->b->c,w); }
      if(b->op==Op::Ite){ E x=bin(op,a,b->b); if(isC(x)||x==a) return ite(b->a,x,bin(op,a,b->d)); }
      if(a->op==Op::Add&&a->a==b) return a->b; if(a->op==Op::Add&&a->b==b) return a->a;
      break;
    case Op::Mul: if(isC(a))std::swap(a,b); if(isC(b,0))return b; if(isC(b,1))return a;
      if(isC(b)&&(b->c&(b->c-1))==0) return bin(Op::Shl,a,cst(__builtin_ctzll(b->c),w));
      break;
    case Op::And: if(isC(a))std::swap(a,b); if(a==b)return a; if(isC(b,0))return b; if(isC(b)&&b->c==maskw(w))return a;
      if(isC(b)&&(b->c&(b->c+1))==0){ unsigned k=__builtin_popcountll(b->c); return zext(extract(a,0,k),w);} 
      if(w==1&&not1(a)==b) return cst(0,1);
      break;
    case Op::Or: if(isC(a))std::swap(a,b); if(a==b)return a; if(isC(b,0))return a; if(isC(b)&&b->c==maskw(w))return b;
      // or of disjoint: zext(x) | (y << k)
      if(b->op==Op::Shl&&isC(b->b)&&a->op==Op::ZExt&&a->a->w<=b->b->c&&b->b->c<w){ unsigned k=b->b->c; return concat(extract(b->a,0,w-k), zext(a->a,k)); }
      if(a->op==Op::Shl&&isC(a->b)&&b->op==Op::ZExt&&b->a->w<=a->b->c&&a->b->c<w){ unsigned k=a->b->c; return concat(extract(a->a,0,w-k), zext(b->a,k)); }
      if(w==1&&not1(a)==b) return cst(1,1);
      break;
    case Op::Xor: if(isC(a))std::swap(a,b); if(a==b)return cst(0,w); if(isC(b,0))return a;
      if(w==1&&isC(b,1)) return not1(a);
      if(isC(b)&&a->op==Op::Xor&&isC(a->b)) return bin(Op::Xor,a->a,cst(a->b->c^b->c,w));
      break;
    case Op::Shl: if(isC(b,0))return a; if(isC(b)&&b->c>=w)return cst(0,w); break;
    case Op::LShr: if(isC(b,0))return a; if(isC(b)&&b->c>=w)return cst(0,w);
      if(isC(b)) return zext(extract(a,b->c,w-b->c),w);
      break;
    case Op::AShr: if(isC(b,0))return a; if(isC(b)&&b->c<w) return sext(extract(a,b->c,w-b->c),w); break;
    case Op::UDiv: if(isC(b,1))return a; if(isC(b)&&b->c&&a->hi/b->c-a->lo/b->c<=6){ uint64_t c=b->c,k=a->hi/c; E r=cst(k,w); while(k>a->lo/c){ r=ite(ult(a,cst(k*c,w)),cst(k-1,w),r); k--; } return r; }
      if(isC(b)&&b->c&&(b->c&(b->c-1))==0) return bin(Op::LShr,a,cst(__builtin_ctzll(b->c),w));
      if (isC(b)&&a->op==Op::ZExt&&b->c<=maskw(a->a->w)) return zext(bin(op,a->a,cst(b->c,a->a->w)),w);
      break;
    case Op::URem: if(isC(b,1))return cst(0,w); if(isC(b)&&b->c&&a->hi/b->c-a->lo/b->c<=6){ uint64_t c=b->c,k=a->hi/c; E r=bin(Op::Add,a,cst(0-k*c,w)); while(k>a->lo/c){ r=ite(ult(a,cst(k*c,w)),bin(Op::Add,a,cst(0-(k-1)*c,w)),r); k--; } return r; }
      if(isC(b)&&b->c&&(b->c&(b->c-1))==0) return bin(Op::And,a,cst(b->c-1,w));
      if (isC(b)&&a->op==Op::ZExt&&b->c<=maskw(a->a->w)) return zext(bin(op,a->a,cst(b->c,a->a->w)),w);
      break;
    default: break;
    }
    if ((op==Op::Add||op==Op::Mul||op==Op::And||op==Op::Or||op==Op::Xor)&&!isC(b)&&a->id>b->id) std::swap(a,b);
    return raw(op,w,0,a,b);
  }

  // evaluation under model (values by variable index; missing = 0).  Wide
  // (>64) values are only needed through extracts; evaluate those via concat
  // walk.
  struct EvalCtx { std::vector<uint64_t> val; std::vector<uint32_t> stamp; uint32_t cur=0; } ec;
  const std::vector<uint64_t>* emodel=nullptr;
  uint64_t evalBegin(E e,const std::vector<uint64_t>&m){
    ec.cur++; if (ec.val.size()<all.size()+16){ ec.val.resize(all.size()*2+64); ec.stamp.resize(all.size()*2+64,0);} emodel=&m;
    return ev(e);
  }
  uint64_t evWide(E e,unsigned lo,unsigned w){ // extract of wide
    if (e->w<=64) return (ev(e)>>lo)&maskw(w);
    switch(e->op){
    case Op::Concat: { unsigned lw=e->b->w;
      if (lo+w<=lw) return evWide(e->b,lo,w);
      if (lo>=lw) return evWide(e->a,lo-lw,w);
      uint64_t l=evWide(e->b,lo,lw-lo), h=evWide(e->a,0,w-(lw-lo)); return (h<<(lw-lo))|l; }
    case Op::ZExt: { unsigned iw=e->a->w; if (lo>=iw) return 0; if (lo+w<=iw) return evWide(e->a,lo,w); return evWide(e->a,lo,iw-lo);}
    case Op::Ite: return ev(e->a)? evWide(e->b,lo,w):evWide(e->d,lo,w);
    case Op::Extract: return evWide(e->a,e->c+lo,w);
    default: { fprintf(stderr,"evWide: unsupported wide op %d\n",(int)e->op); abort(); }
    }
  }
  uint64_t ev(E e){
    if (e->op==Op::Const) return e->c;
    if (ec.stamp[e->id]==ec.cur) return ec.val[e->id];
    uint64_t r=0;
    switch(e->op){
    case Op::Var: r=(e->c<emodel->size()?(*emodel)[e->c]:0)&maskw(e->w); break;
    case Op::Concat: r=((ev(e->a)<<e->b->w)|ev(e->b))&maskw(e->w); break;
    case Op::Extract: r=e->a->w>64? evWide(e->a,e->c,e->w) : (ev(e->a)>>e->c)&maskw(e->w); break;
    case Op::ZExt: r=ev(e->a); break;
    case Op::SExt: r=(uint64_t)sextw(ev(e->a),e->a->w)&maskw(e->w); break;
    case Op::Slt: r=sextw(ev(e->a),e->a->w)<sextw(ev(e->b),e->b->w); break;
    case Op::Sle: r=sextw(ev(e->a),e->a->w)<=sextw(ev(e->b),e->b->w); break;
    case Op::Ite: r=ev(e->a)?ev(e->b):ev(e->d); break;
    default: { uint64_t x=ev(e->a),y=ev(e->b); r=fold(e->op,e->op==Op::Eq||e->op==Op::Ult||e->op==Op::Ule?e->a->w:e->w,x,y);} break;
    }
    ec.stamp[e->id]=ec.cur; ec.val[e->id]=r; return r;
  }
};

// Unsigned interval analysis used to discharge easy infeasible branches before
// the solver is asked (sound: intervals over-approximate).
struct Ranges {
  typedef std::pair<uint64_t,uint64_t> R;
  std::unordered_map<uint32_t,R> var; std::unordered_map<uint32_t,R> memo;
  bool contradiction=false;
  static R full(unsigned w){ return R(0,maskw(w)); }
  void narrow(E e,uint64_t lo,uint64_t hi){
    if (e->op==Op::ZExt) { narrow(e->a,lo,std::min(hi,maskw(e->a->w))); return; }
    if (e->op!=Op::Var) return;
    auto it=var.find((uint32_t)e->c); R r= it==var.end()?full(e->w):it->second;
    r.first=std::max(r.first,lo); r.second=std::min(r.second,hi);
    if (r.first>r.second) { contradiction=true; return; }
    var[(uint32_t)e->c]=r;
  }
  void learn(E e){
    switch(e->op){
    case Op::And: if(e->w==1){ learn(e->a); learn(e->b);} break;
    case Op::Ule: if(e->b->op==Op::Const) narrow(e->a,0,e->b->c); if(e->a->op==Op::Const) narrow(e->b,e->a->c,maskw(e->b->w)); break;
    case Op::Ult: if(e->b->op==Op::Const&&e->b->c) narrow(e->a,0,e->b->c-1); if(e->a->op==Op::Const&&e->a->c<maskw(e->b->w)) narrow(e->b,e->a->c+1,maskw(e->b->w)); break;
    case Op::Eq: if(e->b->op==Op::Const&&e->a->w>1) narrow(e->a,e->b->c,e->b->c); break;
    default: break;
    }
  }
  R get(E e){
    if (e->op==Op::Const) return R(e->c,e->c);
    if (e->w>64) return R(0,~0ull);
    if (e->op==Op::Var){ auto it=var.find((uint32_t)e->c); return it==var.end()?full(e->w):it->second; }
    auto it=memo.find(e->id); if(it!=memo.end()) return it->second;
    R r=calc(e); memo[e->id]=r; return r;
  }
  R calc(E e){ return rangeCalc(e,[this](E x){ return get(x); }); }
};

struct Z3Low {
  Z3_context ctx; ExprMgr &em;
  std::vector<Z3_ast> bv, bo; std::vector<Z3_ast> varast;
  Z3Low(ExprMgr&m):em(m){
    Z3_config cfg=Z3_mk_config(); ctx=Z3_mk_context(cfg); Z3_del_config(cfg);
  }
  // unsigned division by a constant: quotient and remainder as definitional
  // constants with q*c <= x, r == x - q*c, r < c, q <= max/c (exact over bit-vectors)
  struct DivDef { Z3_ast q, r, side; };
  std::unordered_map<uint64_t, std::vector<std::pair<E,std::pair<uint64_t,DivDef>>>> divs;
  std::vector<int8_t> hasdiv; std::vector<uint32_t> dstamp; uint32_t dcur=0;
  DivDef& divOf(E x,uint64_t c){
    auto &v=divs[(uint64_t)x->id];
    for (auto &p: v) if (p.first==x && p.second.first==c) return p.second.second;
    unsigned w=x->w; Z3_sort s=Z3_mk_bv_sort(ctx,w); DivDef d;
    Z3_ast xx=toBV(x);
    d.q=Z3_mk_fresh_const(ctx,"q",s); Z3_inc_ref(ctx,d.q);
    d.r=Z3_mk_fresh_const(ctx,"r",s); Z3_inc_ref(ctx,d.r);
    Z3_ast cc=Z3_mk_unsigned_int64(ctx,c,s);
    Z3_ast qc=Z3_mk_bvmul(ctx,d.q,cc);
    Z3_ast t[4]={ Z3_mk_bvule(ctx,qc,xx), Z3_mk_eq(ctx,d.r,Z3_mk_bvsub(ctx,xx,qc)), Z3_mk_bvult(ctx,d.r,cc), Z3_mk_bvule(ctx,d.q,Z3_mk_unsigned_int64(ctx,maskw(w)/c,s)) };
    d.side=Z3_mk_and(ctx,4,t); Z3_inc_ref(ctx,d.side);
    v.push_back({x,{c,d}}); return v.back().second.second;
  }
  bool hasDiv(E e){
    if (hasdiv.size()<=e->id) hasdiv.resize(em.all.size()+64,-1);
    if (hasdiv[e->id]>=0) return hasdiv[e->id];
    bool r=(e->op==Op::UDiv||e->op==Op::URem);
    if(!r&&e->a) r=hasDiv(e->a); if(!r&&e->b) r=hasDiv(e->b); if(!r&&e->d) r=hasDiv(e->d);
    hasdiv[e->id]=r; return r;
  }
  void sides(E e,std::vector<Z3_ast>&out){
    if (!hasDiv(e)) return;
    if (dstamp.size()<=e->id) dstamp.resize(em.all.size()+64,0);
    if (dstamp[e->id]==dcur) return; dstamp[e->id]=dcur;
    if ((e->op==Op::UDiv||e->op==Op::URem)&&ExprMgr::isC(e->b)&&e->b->c) out.push_back(divOf(e->a,e->b->c).side);
    if(e->a) sides(e->a,out); if(e->b) sides(e->b,out); if(e->d) sides(e->d,out);
  }
  Z3_ast varOf(uint32_t i){
    while(varast.size()<=i) {
      auto &vi=em.varinfo[varast.size()]; char nm[32]; snprintf(nm,sizeof nm,"v%zu",varast.size());
      Z3_ast a=Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,nm),Z3_mk_bv_sort(ctx,vi.w)); Z3_inc_ref(ctx,a); varast.push_back(a);
    }
    return varast[i];
  }
  Z3_ast keep(std::vector<Z3_ast>&t,E e,Z3_ast a){ if(t.size()<=e->id) t.resize(em.all.size()+64,nullptr); t[e->id]=a; return a; }
  Z3_ast toBV(E e){
    if (e->id<bv.size()&&bv[e->id]) return bv[e->id];
    Z3_ast r;
    if (e->op==Op::Const) r=Z3_mk_unsigned_int64(ctx,e->c,Z3_mk_bv_sort(ctx,e->w));
    else if (e->op==Op::Var) r=varOf(e->c);
    else if (e->w==1 && e->op!=Op::Extract) r=Z3_mk_ite(ctx,toBool(e),Z3_mk_unsigned_int64(ctx,1,Z3_mk_bv_sort(ctx,1)),Z3_mk_unsigned_int64(ctx,0,Z3_mk_bv_sort(ctx,1)));
    else switch(e->op){
      case Op::Add: r=Z3_mk_bvadd(ctx,toBV(e->a),toBV(e->b)); break;
      case Op::Sub: r=Z3_mk_bvsub(ctx,toBV(e->a),toBV(e->b)); break;
      case Op::Mul: r=Z3_mk_bvmul(ctx,toBV(e->a),toBV(e->b)); break;
      case Op::UDiv: r=ExprMgr::isC(e->b)&&e->b->c?divOf(e->a,e->b->c).q:Z3_mk_bvudiv(ctx,toBV(e->a),toBV(e->b)); break;
      case Op::SDiv: r=Z3_mk_bvsdiv(ctx,toBV(e->a),toBV(e->b)); break;
      case Op::URem: r=ExprMgr::isC(e->b)&&e->b->c?divOf(e->a,e->b->c).r:Z3_mk_bvurem(ctx,toBV(e->a),toBV(e->b)); break;
      case Op::SRem: r=Z3_mk_bvsrem(ctx,toBV(e->a),toBV(e->b)); break;
      case Op::And: r=Z3_mk_bvand(ctx,toBV(e->a),toBV(e->b)); break;
      case Op::Or: r=Z3_mk_bvor(ctx,toBV(e->a),toBV(e->b)); break;
      case Op::Xor: r=Z3_mk_bvxor(ctx,toBV(e->a),toBV(e->b)); break;
      case Op::Shl: r=Z3_mk_bvshl(ctx,toBV(e->a),toBV(e->b)); break;
      case Op::LShr: r=Z3_mk_bvlshr(ctx,toBV(e->a),toBV(e->b)); break;
      case Op::AShr: r=Z3_mk_bvashr(ctx,toBV(e->a),toBV(e->b)); break;
      case Op::Concat: r=Z3_mk_concat(ctx,toBV(e->a),toBV(e->b)); break;
      case Op::Extract: r=Z3_mk_extract(ctx,e->c+e->w-1,e->c,toBV(e->a)); break;
      case Op::ZExt: r=Z3_mk_zero_ext(ctx,e->w-e->a->w,toBV(e->a)); break;
      case Op::SExt: r=Z3_mk_sign_ext(ctx,e->w-e->a->w,toBV(e->a)); break;
      case Op::Ite: r=Z3_mk_ite(ctx,toBool(e->a),toBV(e->b),toBV(e->d)); break;
      default: abort();
    }
    Z3_inc_ref(ctx,r);
    return keep(bv,e,r);
  }
  Z3_ast toBool(E e){
    if (e->id<bo.size()&&bo[e->id]) return bo[e->id];
    Z3_ast r; Z3_ast t[2];
    switch(e->op){
      case Op::Const: r=e->c?Z3_mk_true(ctx):Z3_mk_false(ctx); break;
      case Op::Eq: r=e->a->w==1?Z3_mk_iff(ctx,toBool(e->a),toBool(e->b)):Z3_mk_eq(ctx,toBV(e->a),toBV(e->b)); break;
      case Op::Ult: r=Z3_mk_bvult(ctx,toBV(e->a),toBV(e->b)); break;
      case Op::Ule: r=Z3_mk_bvule(ctx,toBV(e->a),toBV(e->b)); break;
      case Op::Slt: r=Z3_mk_bvslt(ctx,toBV(e->a),toBV(e->b)); break;
      case Op::Sle: r=Z3_mk_bvsle(ctx,toBV(e->a),toBV(e->b)); break;
      case Op::And: t[0]=toBool(e->a);t[1]=toBool(e->b); r=Z3_mk_and(ctx,2,t); break;
      case Op::Or: t[0]=toBool(e->a);t[1]=toBool(e->b); r=Z3_mk_or(ctx,2,t); break;
      case Op::Xor: case Op::Add: case Op::Sub: r= ExprMgr::isC(e->b,1)?Z3_mk_not(ctx,toBool(e->a)):Z3_mk_xor(ctx,toBool(e->a),toBool(e->b)); break;
      case Op::Mul: t[0]=toBool(e->a);t[1]=toBool(e->b); r=Z3_mk_and(ctx,2,t); break;
      case Op::Ite: r=Z3_mk_ite(ctx,toBool(e->a),toBool(e->b),toBool(e->d)); break;
      case Op::Extract: case Op::Var: r=Z3_mk_eq(ctx,toBV(e),Z3_mk_unsigned_int64(ctx,1,Z3_mk_bv_sort(ctx,1))); break;
      default: fprintf(stderr,"toBool op %d\n",(int)e->op); abort();
    }
    Z3_inc_ref(ctx,r);
    return keep(bo,e,r);
  }
};
