// A02: every history (to a depth) of operations on arrays that may share storage,
// each run on the real Array2 / Array and on a reference model of cells.
#include "vf.hpp"
#include <cassert>
#include <new>
static long g_live = 0; // live array allocations
void* operator new[](size_t n){ ++g_live; void* p=malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
void operator delete[](void* p) noexcept { if(p){ --g_live; free(p);} }
void operator delete[](void* p, size_t) noexcept { if(p){ --g_live; free(p);} }
#include "subscript.hpp"
#include "array_.hpp"
using namespace brille;
typedef std::vector<ind_t> V;
typedef std::shared_ptr<std::vector<int>> Store;

struct M { Store st; long shift{0}; V sh, sd; bool mut{false};
  size_t numel() const { if (sh.empty()) return 0; size_t n=1; for (auto x: sh) n*=x; return n; }
  int& at(const V& s){ long k=shift; for(size_t i=0;i<s.size();++i) k+=long(s[i])*sd[i]; return st->at(k); }
};
template<class F> void each(const V& sh, F f){ if (sh.empty()) return; for (auto x: sh) if(!x) return; V i(sh.size(),0);
  while(true){ f(i); int d=int(sh.size())-1; while(d>=0 && ++i[d]>=sh[d]) i[d--]=0; if(d<0) return; } }
static V row_stride(const V& sh){ V s(sh.size(),1); for (size_t i=sh.size(); i-->1;) s[i-1]=s[i]*sh[i]; return s; }
static V col_stride(const V& sh){ V s(sh.size(),1); for (size_t i=1;i<sh.size();++i) s[i]=s[i-1]*sh[i-1]; return s; }

template<class A> struct Tr;
template<> struct Tr<Array2<int>>{ typedef Array2<int>::shape_t S; static constexpr bool two=true; typedef Array2<double> D; typedef Array2<bool> B;
  static S mk(const V& v){ return S{{v[0],v[1]}}; } static V un(const S& s){ return V{s[0],s[1]}; } };
template<> struct Tr<Array<int>>{ typedef brille::shape_t S; static constexpr bool two=false; typedef Array<double> D; typedef Array<bool> B;
  static S mk(const V& v){ return v; } static V un(const S& s){ return s; } };

static int g_ext[2][64];
static int g_ctr;

template<class A> struct World {
  typedef Tr<A> T; typedef typename T::S S;
  static const int NS=2;
  std::vector<A> real; M mod[NS]; std::string err, what;
  bool freshly[NS]{};   // the op gave slot a new allocation whose (compact) layout the library chooses
  World(){ for (int i=0;i<NS;++i){ real.push_back(A()); sync(i); mod[i].st=std::make_shared<std::vector<int>>(); mod[i].mut=false; } }
  void sync(int i){ mod[i].sh=T::un(real[i].shape()); mod[i].sd=T::un(real[i].stride()); mod[i].shift=0; }
  // model: slot d now holds an independent array with these values (row-major)
  void indep(int d, const V& sh, const std::vector<int>& vals){
    M m; m.sh=sh; m.mut=true; m.st=std::make_shared<std::vector<int>>(vals.size()); m.sd=T::un(real[d].stride());
    size_t n=vals.size();
    if (T::un(real[d].shape())!=sh){ err="shape"; m.sd=row_stride(sh); }
    else if (n) { // the layout must fit the allocation one-to-one
      std::vector<char> used(n,0); bool ok=true;
      each(sh,[&](const V& s){ size_t k=0; for(size_t i=0;i<s.size();++i) k+=size_t(s[i])*m.sd[i]; if(k>=n||used[k]) ok=false; else used[k]=1; });
      if (!ok){ err="layout"; m.sd=row_stride(sh); }
      if (real[d].raw_shift()!=0 && real[d].raw_size() < real[d].raw_shift()+n) err="storage";
    }
    size_t q=0; each(sh,[&](const V& s){ m.at(s)=vals[q++]; });
    mod[d]=m;
  }
  std::vector<int> vals(M& m){ std::vector<int> v; each(m.sh,[&](const V& s){ v.push_back(m.at(s)); }); return v; }
  M view(const M& m, const V& start, const V& sh){ M o(m); o.sh=sh; for(size_t i=0;i<start.size();++i) o.shift+=long(start[i])*m.sd[i]; o.mut=false; return o; }
  bool check(){
    if (!err.empty()){ what=err; return false; }
    for (int k=0;k<NS;++k){
      A& a=real[k]; M& m=mod[k];
      if (T::un(a.shape())!=m.sh){ what="shape of slot "+std::to_string(k)+" is "+vf::vec(T::un(a.shape()))+" expected "+vf::vec(m.sh); return false; }
      if (a.ismutable()!=m.mut){ what="mutability of slot "+std::to_string(k); return false; }
      if (a.numel()!=m.numel()){ what="numel"; return false; }
      bool ok=true; const A& ca=a; size_t lin=0;
      each(m.sh,[&](const V& s){ auto t=T::mk(s); int e=m.at(s); if (ca[t]!=e || ca.val(t)!=e || ca[ind_t(lin)]!=e) { if(ok) what="slot "+std::to_string(k)+" at "+vf::vec(s)+" is "+std::to_string(ca[t])+"/"+std::to_string(ca[ind_t(lin)])+" expected "+std::to_string(e); ok=false; } ++lin; });
      if (!ok) return false;
      auto flat=a.to_std(); auto ev=vals(m);
      if (flat!=ev){ what="to_std of slot "+std::to_string(k)+": "+vf::vec(flat)+" expected "+vf::vec(ev); return false; }
    }
    return true;
  }
};

template<class A> using Op = std::pair<std::string, std::function<bool(World<A>&)>>; // false: not applicable here

template<class A> std::vector<Op<A>> make_ops(bool core){
  typedef World<A> W; typedef Tr<A> T;
  std::vector<Op<A>> ops;
  auto add=[&](bool c, std::string n, std::function<bool(W&)> f){ if (!core || c) ops.push_back({n,f}); };
  for (int d=0; d<2; ++d) for (int s=0; s<2; ++s){
    std::string p=std::string("AB").substr(d,1)+"="+std::string("AB").substr(s,1);
    add(d!=s, p, [=](W& w){ if(d==s && 0) return false; A t(w.real[s]); w.real[d]=t; M m=w.mod[s]; w.mod[d]=m; return true; });
    add(false, p+".view()", [=](W& w){ w.real[d]=w.real[s].view(); M m=w.mod[s]; m.mut=false; w.mod[d]=m; return true; });
    for (int which=0; which<2; ++which) add(which==1, p+(which?".view(last)":".view(0)"), [=](W& w){ ind_t n=w.mod[s].sh[0]; if(!w.mod[s].numel()) return false; ind_t i=which?n-1:0;
      w.real[d]=w.real[s].view(i); V st(w.mod[s].sh.size(),0), sh=w.mod[s].sh; st[0]=i; sh[0]=1; M m=w.view(w.mod[s],st,sh); w.mod[d]=m; return true; });
    for (int which=0; which<3; ++which) add(which==1 && d!=s, p+(which==0?".view(0,1)":which==1?".view(1,n)":".view(1,1)"), [=](W& w){ ind_t n=w.mod[s].sh[0]; if(n<2||!w.mod[s].numel()||(which==2&&!T::two)) return false; ind_t i=which==0?0:1, j=which==1?n:1;
      A r=w.real[s].view(i,j); V st(w.mod[s].sh.size(),0), sh=w.mod[s].sh; st[0]=i; sh[0]=j-i; M m;
      if (i==j){ w.real[d]=r; if constexpr (T::two){ w.indep(d,sh,{}); w.mod[d].mut=r.ismutable(); return true; } }
      w.real[d]=r; m=w.view(w.mod[s],st,sh); w.mod[d]=m; return true; });
    for (int which=0; which<3; ++which) add(which==1 && d!=s, p+".viewsub"+std::to_string(which), [=](W& w){ size_t nd=w.mod[s].sh.size(); V st(nd,0), sh=w.mod[s].sh; if(!w.mod[s].numel()) return false;
      for(size_t k=0;k<nd;++k) if ((which==0&&k==0)||(which==1&&k==nd-1)||which==2) st[k]=1;
      for(size_t k=0;k<nd;++k) if(st[k]<sh[k]) sh[k]-=st[k]; else if (st[k]) return false;
      if constexpr (!T::two) if (nd<2 && which==1) return false;
      A r=w.real[s].view(T::mk(st)); w.real[d]=r; M m=w.view(w.mod[s],st,sh); w.mod[d]=m; return true; });
    for (int which=0; which<6; ++which) add(which==0 && d!=s, p+".extract"+std::to_string(which), [=](W& w){ V sh=w.mod[s].sh; ind_t n=sh[0]; if (n<2) return false;
      std::vector<ind_t> idx; A r;
      switch(which){
        case 0: idx={1}; r=w.real[s].extract(ind_t(1)); break;
        case 1: idx={1,0,1}; r=w.real[s].extract(std::vector<ind_t>{1,0,1}); break;
        case 2: idx={n-1,0}; r=w.real[s].extract(std::array<ind_t,2>{{n-1,0}}); break;
        case 3: { idx={1,0}; if constexpr (T::two) r=w.real[s].extract(Array2<int>::from_std(std::vector<int>{1,0})); else r=w.real[s].extract(Array<int>::from_std(std::vector<int>{1,0})); break; }
        case 4: idx={1}; r=w.real[s].extract(std::vector<bool>{false,true}); break;
        case 5: { idx={0}; bool v[2]={true,false}; typename T::B b(v,2,false); r=w.real[s].extract(b); break; }
      }
      std::vector<int> vv; V rs(sh); rs[0]=1; M m=w.mod[s]; for (auto i: idx) each(rs,[&](const V& q){ V z(q); z[0]=i; vv.push_back(m.at(z)); });
      V osh(sh); osh[0]=ind_t(idx.size()); w.real[d]=r; w.indep(d,osh,vv); return true; });
    add(false, p+".extract-refuses", [=](W& w){ ind_t n=w.mod[s].sh[0]; bool t=vf::throws([&]{ A r=w.real[s].extract(std::vector<ind_t>{n}); }) && vf::throws([&]{ A r=w.real[s].view(n); }) && vf::throws([&]{ A r=w.real[s].view(0,n+1); }); if(!t) w.err="index out of range accepted"; return d==s; });
    add(false, p+".cast", [=](W& w){ auto v=w.vals(w.mod[s]); V sh=w.mod[s].sh; typename T::D t(w.real[s]); A u(t); w.real[d]=u; w.indep(d,sh,v); return true; });
    add(d!=s, p+".castassign", [=](W& w){ auto v=w.vals(w.mod[s]); V sh=w.mod[s].sh; typename T::D t(w.real[s]); w.real[d]=t; w.indep(d,sh,v); return true; });
    add(false, p+".contig", [=](W& w){ auto v=w.vals(w.mod[s]); V sh=w.mod[s].sh; A c=w.real[s].contiguous_copy(); if(!c.is_contiguous()) w.err="contiguous_copy is not contiguous"; A u=c.decouple(); w.real[d]=u; w.indep(d,sh,v); return true; });
    add(false, p+".rowcontig", [=](W& w){ auto v=w.vals(w.mod[s]); V sh=w.mod[s].sh; A c=w.real[s].contiguous_row_ordered_copy(); if(v.size() && (!c.is_contiguous()||!c.is_row_ordered())) w.err="contiguous_row_ordered_copy is not";
      size_t k=0; for (int x: v) { if (v.size() && c.data(ind_t(0))[k]!=x) w.err="contiguous_row_ordered_copy is not in row order in memory"; ++k; }
      A u=c.decouple(); w.real[d]=u; w.indep(d,sh,v); return true; });
    if constexpr (T::two) add(false, p+".viaArray", [=](W& w){ auto v=w.vals(w.mod[s]); V sh=w.mod[s].sh; if (v.empty()) return false; Array<int> t(w.real[s], brille::shape_t{1,sh[0],sh[1]}); 
        size_t k=0; bool ok=true; each(V{1,sh[0],sh[1]},[&](const V& q){ V z(q); if (t[z]!=v[k++]) ok=false; }); if(!ok) w.err="Array made from Array2 holds other values";
        Array2<int> b(t); w.real[d]=b.decouple(); w.indep(d,V{1,sh[0]*sh[1]},v); if (w.real[d].ismutable()!=true) w.err="mutable"; return true; });
    else {
      add(false, p+".viaArray2", [=](W& w){ auto v=w.vals(w.mod[s]); V sh=w.mod[s].sh; if (v.empty()||sh.size()<2) return false; Array2<int> t(w.real[s]); ind_t m=ind_t(v.size())/sh[0];
        size_t k=0; bool ok=t.size(0)==sh[0]&&t.size(1)==m; if(ok) for(ind_t i=0;i<sh[0];++i) for(ind_t j=0;j<m;++j) if (t.val(i,j)!=v[k++]) ok=false; if(!ok) w.err="Array2 made from Array holds other values";
        Array<int> b(t, sh); w.real[d]=b.decouple(); w.indep(d,sh,v); return true; });
      for (int which=0; which<2; ++which) add(which==1 && d!=s, p+".slice"+std::to_string(which), [=](W& w){ V sh=w.mod[s].sh; if(sh[0]<2||sh.size()<2) return false; ind_t i=which?sh[0]-1:0; A r=w.real[s].slice(i); M m=w.mod[s]; m.shift+=long(i)*m.sd[0]; m.sh.erase(m.sh.begin()); m.sd.erase(m.sd.begin()); w.real[d]=r; w.mod[d]=m; return true; });
      add(false, p+".squeeze", [=](W& w){ M m=w.mod[s]; if(!m.numel()) return false; V a,b; for(size_t i=0;i<m.sh.size();++i) if(m.sh[i]>1){ a.push_back(m.sh[i]); b.push_back(m.sd[i]); } if(a.empty()){a={1};b={1};} m.sh=a;m.sd=b; A r=w.real[s].squeeze(); w.real[d]=r; w.mod[d]=m; return true; });
      add(false, p+".multiextract", [=](W& w){ V sh=w.mod[s].sh; if(sh[0]<2||sh.size()>2) return false; std::vector<std::array<ind_t,2>> ix{{{0,1}},{{1,1}}}; A r=w.real[s].extract(ix); std::vector<int> vv; V rs(sh); rs[0]=1; M m=w.mod[s];
        for(auto& x: ix) for(auto i: x) each(rs,[&](const V& q){ V z(q); z[0]=i; vv.push_back(m.at(z)); }); V osh{2,2}; for(size_t k=1;k<sh.size();++k) osh.push_back(sh[k]); w.real[d]=r; w.indep(d,osh,vv); return true; });
    }
    if (d!=s){
      add(false, p.substr(0,1)+".setrow("+p.substr(2)+")", [=](W& w){ M& a=w.mod[d]; M& b=w.mod[s]; if(!a.numel()||!b.numel()||a.sh.size()!=b.sh.size()||a.st==b.st) return false; for(size_t k=1;k<a.sh.size();++k) if(a.sh[k]!=b.sh[k]) return false;
        ind_t i=a.sh[0]-1; w.real[d].set(i,w.real[s]); V rs(b.sh); rs[0]=1; each(rs,[&](const V& q){ V z(q); z[0]=i; a.at(z)=b.at(q); }); return true; });
      add(false, p.substr(0,1)+"+="+p.substr(2), [=](W& w){ M& a=w.mod[d]; M& b=w.mod[s]; if(a.sh.size()!=b.sh.size()||!a.numel()||!b.numel()||a.st==b.st) return false; bool fit=true; for(size_t k=0;k<a.sh.size();++k) if(a.sh[k]!=b.sh[k]&&b.sh[k]!=1) fit=false;
        bool th=vf::throws([&]{ w.real[d]+=w.real[s]; }); if (!fit||!a.mut){ if(!th) w.err="+= should refuse"; return true; } if(th){ w.err="+= refused"; return true; }
        each(a.sh,[&](const V& q){ V z(q); for(size_t k=0;k<z.size();++k) if(b.sh[k]==1) z[k]=0; a.at(q)+=b.at(z); }); return true; });
      for (ind_t dim=0; dim<(T::two?2u:2u); ++dim) add(dim==0, p.substr(0,1)+".append("+std::to_string(dim)+","+p.substr(2)+")", [=](W& w){ M a=w.mod[d], b=w.mod[s]; if(a.sh.size()!=b.sh.size()||dim>=a.sh.size()) return false; if(a.numel()*b.numel()>36) return false;
        bool fit=true; for(size_t k=0;k<a.sh.size();++k) if(k!=dim&&a.sh[k]!=b.sh[k]) fit=false;
        bool th=vf::throws([&]{ w.real[d].append(dim,w.real[s]); });
        if(!fit){ if(!th) w.err="append of other shape accepted"; return true; }
        if(th){ w.err="append refused"; return true; }
        V o(a.sh); o[dim]+=b.sh[dim]; std::vector<int> vv; each(o,[&](const V& q){ V z(q); if(q[dim]<a.sh[dim]) vv.push_back(a.at(z)); else { z[dim]-=a.sh[dim]; vv.push_back(b.at(z)); } }); w.indep(d,o,vv); return true; });
    }
  }
  for (int d=0; d<2; ++d){
    std::string p=std::string("AB").substr(d,1);
    add(true, p+".decouple", [=](W& w){ auto v=w.vals(w.mod[d]); V sh=w.mod[d].sh; bool shared=w.mod[0].st==w.mod[1].st; if(v.empty()) return false; A t=w.real[d].decouple(); w.real[d]=t; (void)shared; w.indep(d,sh,v); w.mod[d].shift=0; 
       if (w.real[d].raw_shift()) { // sole owner of its storage keeps it
          M& m=w.mod[d]; m.shift=w.real[d].raw_shift(); auto st=std::make_shared<std::vector<int>>(w.real[d].raw_size()+1); m.st=st; m.sd=T::un(w.real[d].stride()); size_t q=0; each(sh,[&](const V& s){ m.at(s)=v[q++]; }); w.err=""; }
       else if (!w.err.empty() && w.err=="layout" && !shared) { M& m=w.mod[d]; w.err=""; m.sd=T::un(w.real[d].stride()); m.st=std::make_shared<std::vector<int>>(w.real[d].raw_size()+1); size_t q=0; each(sh,[&](const V& s){ m.at(s)=v[q++]; }); }
       return true; });
    add(true, p+"=()", [=](W& w){ w.real[d]=A(); w.sync(d); w.mod[d].st=std::make_shared<std::vector<int>>(); w.mod[d].mut=w.real[d].ismutable(); if(w.real[d].numel()) w.err="default array has elements"; return true; });
    add(true, p+"[last]=", [=](W& w){ M& m=w.mod[d]; if(!m.numel()) return false; V s; for(auto x: m.sh) s.push_back(x-1); int v=++g_ctr; auto t=T::mk(s); w.real[d][t]=v; m.at(s)=v; return true; });
    add(false, p+".val(0)=", [=](W& w){ M& m=w.mod[d]; if(!m.numel()) return false; V s(m.sh.size(),0); int v=++g_ctr; w.real[d].val(T::mk(s))=v; m.at(s)=v; return true; });
    add(false, p+".lin=", [=](W& w){ M& m=w.mod[d]; if(m.numel()<2) return false; int v=++g_ctr; w.real[d][ind_t(1)]=v; size_t k=0; each(m.sh,[&](const V& s){ if(k++==1) m.at(s)=v; }); return true; });
    add(false, p+".set(sub)", [=](W& w){ M& m=w.mod[d]; if(!m.numel()) return false; V s(m.sh.size(),0); s[0]=m.sh[0]-1; int v=++g_ctr; if (w.real[d].set(T::mk(s),v)!=v) w.err="set returned another value"; m.at(s)=v; return true; });
    add(true, p+".set(0,vector)", [=](W& w){ M& m=w.mod[d]; if(!m.numel()) return false; V rs(m.sh); rs[0]=1; std::vector<int> v; each(rs,[&](const V& s){ int x=++g_ctr; v.push_back(x); m.at(s)=x; }); w.real[d].set(0,v); if(!vf::throws([&]{ v.push_back(0); w.real[d].set(0,v); })) w.err="set accepted a row that is too long"; return true; });
    add(false, p+".set(last,array)", [=](W& w){ M& m=w.mod[d]; if(!m.numel()||m.numel()/m.sh[0]!=2) return false; std::array<int,2> v{{++g_ctr,++g_ctr}}; w.real[d].set(m.sh[0]-1,v); V rs(m.sh); rs[0]=1; int k=0; each(rs,[&](const V& q){ V z(q); z[0]=m.sh[0]-1; m.at(z)=v[k++]; }); return true; });
    add(false, p+".swap(0,last)", [=](W& w){ M& m=w.mod[d]; if(m.numel()==0||m.sh[0]<2) return false; ind_t l=m.sh[0]-1; if (m.sh.size()==1) return false; w.real[d].swap(0,l); V rs(m.sh); rs[0]=1; each(rs,[&](const V& q){ V z(q); z[0]=l; V y(q); std::swap(m.at(y),m.at(z)); }); return true; });
    add(false, p+".swapcol", [=](W& w){ M& m=w.mod[d]; if(m.sh.size()!=2||!m.numel()||m.sh[1]<2) return false; ind_t i=m.sh[0]-1, c=m.sh[1]-1; w.real[d].swap(i,0,c); std::swap(m.at(V{i,0}),m.at(V{i,c})); return true; });
    add(false, p+".permute", [=](W& w){ M& m=w.mod[d]; ind_t n=m.sh[0]; if(!m.numel()||n<2||m.sh.size()<2) return false; std::vector<ind_t> pm; for(ind_t i=0;i<n;++i) pm.push_back((i+1)%n); auto keep=w.vals(m); size_t rowlen=keep.size()/n; auto pc=pm; w.real[d].permute(pc);
       size_t k=0; each(m.sh,[&](const V& q){ size_t r=k/rowlen, c=k%rowlen; m.at(q)=keep[pm[r]*rowlen+c]; ++k; }); return true; });
    add(true, p+"+=10", [=](W& w){ M& m=w.mod[d]; bool th=vf::throws([&]{ w.real[d]+=10; }); if(th==m.mut){ w.err=m.mut?"+= refused on a mutable array":"+= accepted on an immutable view"; return true; } if(m.mut) each(m.sh,[&](const V& q){ m.at(q)+=10; }); return true; });
    add(false, p+".make_mutable", [=](W& w){ w.real[d].make_mutable(); w.mod[d].mut=true; return true; });
    add(false, p+".make_immutable", [=](W& w){ w.real[d].make_immutable(); w.mod[d].mut=false; return true; });
    for (int which=0; which<5; ++which) add(which<2, p+".resize"+std::to_string(which), [=](W& w){ M a=w.mod[d]; if (a.numel()==0 && a.sh.size()<2 && !T::two) return false; V o(a.sh); int init=0; size_t last=o.size()-1; if (which==4 && last==0) return false;
       switch(which){ case 0: o[0]+=1; break; case 1: if(!o[0]) return false; o[0]-=1; break; case 2: o[0]+=1; o[last]+=1; init=-7; break; case 3: for(auto& x: o){ if(x<2) return false; --x; } break; case 4: if(o[0]<2) return false; o[0]-=1; o[last]+=1; break; }
       size_t tot=1; for(auto x: o) tot*=x; if(tot>40) return false;
       bool th=vf::throws([&]{ if(which<2) w.real[d].resize(o[0]); else w.real[d].resize(T::mk(o),init); });
       if(which==4){ if(!th) w.err="mixed resize accepted"; return true; }
       if(th){ w.err="resize refused"; return true; }
       std::vector<int> vv; each(o,[&](const V& q){ V z(q); bool in=true; for(size_t k=0;k<z.size();++k) if(z[k]>=a.sh[k]) in=false; vv.push_back(in? a.at(z): init); }); w.indep(d,o,vv); return true; });
    for (int which=0; which<2; ++which) add(false, p+".reshape"+std::to_string(which), [=](W& w){ M& a=w.mod[d]; size_t n=a.numel(); if(!n) return false; V o(a.sh.size(),1);
       if(which==0) o=V(a.sh.rbegin(),a.sh.rend()); else { o[o.size()-1]=ind_t(n); }
       bool compact=w.real[d].is_contiguous(); V sd=T::un(w.real[d].stride()); bool col=sd.front()<sd.back();
       bool th=vf::throws([&]{ w.real[d].reshape(T::mk(o)); }); if(th==compact){ w.err= compact? "reshape refused":"reshape of a strided array accepted"; return true; } if(th) return true;
       // the storage order is kept: the model follows the reported layout
       a.sh=o; a.sd= col? col_stride(o): row_stride(o); return true; });
  }
  return ops;
}

template<class A> void init_world(World<A>& w, const std::string& cfg){
  typedef Tr<A> T;
  auto fill=[&](int d, V sh, bool col, bool ext){ size_t n=1; for(auto x: sh) n*=x; V sd= col? col_stride(sh): row_stride(sh); int* buf;
    if (ext) buf=g_ext[d]; else buf=new int[n?n:1]; for(size_t i=0;i<n;++i) buf[i]=100*(d+1)+int(i);
    A a(buf, ind_t(n), !ext, T::mk(sh), T::mk(sd)); w.real[d]=a; M m; m.sh=sh; m.sd=sd; m.mut=true; m.st=std::make_shared<std::vector<int>>(buf,buf+n); w.mod[d]=m; };
  bool two=T::two;
  auto sh=[&](ind_t a, ind_t b){ return two? V{a,b} : V{a,2,b}; };
  if (cfg=="row") { fill(0,sh(3,2),false,false); fill(1,sh(2,2),false,false); }
  else if (cfg=="col") { fill(0,sh(3,2),true,false); fill(1,sh(2,3),true,false); }
  else if (cfg=="ext") { fill(0,sh(2,3),false,true); fill(1,sh(3,2),true,true); }
  else if (cfg=="thin") { fill(0,sh(3,1),false,false); fill(1,sh(1,3),false,false); }
  else if (cfg=="shared") { fill(0,sh(3,3),false,false); A t(w.real[0]); w.real[1]=t; w.mod[1]=w.mod[0]; }
  else if (cfg=="one") { fill(0,sh(2,2),true,false); }
}

template<class A> void histories(const std::string& nm, const std::string& cfg, int depth, bool core){
  auto ops=make_ops<A>(core); int n=int(ops.size());
  // one case per first operation
  for (int f=0; f<n; ++f) vf::run(vf::fmt("%s-%s-%s-d%d-%s", nm.c_str(), cfg.c_str(), core?"core":"full", depth, ops[f].first.c_str()), [&]{
    std::vector<int> seq(depth,0); seq[0]=f;
    std::function<void(int)> rec=[&](int len){
      // run seq[0..len)
      long base=g_live; bool app=true; std::string what; bool good=true;
      { g_ctr=1000; World<A> w; init_world(w,cfg); 
        for (int k=0;k<len && app;++k){ bool r; r=ops[seq[k]].second(w); if(!r) app=false; vf::trans(); if (!w.err.empty()) break; }
        if (app){ good=w.check(); what=w.what; vf::state(); 
          if (len==depth||1) { uint64_t h=0; for(int k=0;k<2;++k){ auto v=w.vals(w.mod[k]); h=vf::fnv(v.data(),v.size()*4,h+k+w.mod[k].sh[0]); } vf::outcome(h); } }
      }
      if (!app) return;
      vf::trace();
      if (good && g_live!=base){ good=false; what=vf::fmt("%ld array allocation(s) not released", g_live-base); }
      vf::ctx().checks++;
      if (!good){ std::string s; for(int k=0;k<len;++k) s+=(k?"; ":"")+ops[seq[k]].first; vf::fail(what.substr(0,60), s+" => "+what); return; }
      if (len<depth) for (int k=0;k<n;++k){ seq[len]=k; rec(len+1); }
    };
    rec(1);
  });
}

void vf_explore(){
  bool T=vf::thorough();
  for (std::string c: {"row","col","ext","thin","shared","one"}){
    bool q3 = false;
    histories<Array2<int>>("Array2", c, T||q3?3:2, false);
    histories<Array2<int>>("Array2", c, T?5:c=="row"?4:3, true);
    histories<Array<int>>("Array", c, T?3:2, false);
    histories<Array<int>>("Array", c, T?4:3, true);
  }
}
