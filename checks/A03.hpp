// A03: element-by-element results of array arithmetic, comparison and reduction, for every memory layout.
#include "vf.hpp"
#include <cassert>
#include <numeric>
#include <algorithm>
#include "subscript.hpp"
#include "array_.hpp"
#include "array_functions.hpp"
using namespace brille;
typedef std::vector<ind_t> V;
template<class F> void each(const V& sh, F f){ for (auto x: sh) if(!x) return; V i(sh.size(),0);
  while(true){ f(i); int d=int(sh.size())-1; while(d>=0 && ++i[d]>=sh[d]) i[d--]=0; if(d<0) return; } }
static size_t prod(const V& s){ size_t n=1; for (auto x: s) n*=x; return n; }
//! dense row-ordered reference
template<class T> struct D { V sh; std::vector<T> v;
  size_t lin(const V& s) const { size_t k=0; for(size_t i=0;i<sh.size();++i) k=k*sh[i]+s[i]; return k; }
  T at(const V& s) const { return v[lin(s)]; }
  D<T> row(size_t i) const { D<T> o; o.sh=sh; o.sh[0]=1; size_t w=v.size()/sh[0]; o.v.assign(v.begin()+i*w, v.begin()+(i+1)*w); return o; } };

template<class A> struct Tr;
template<class T> struct Tr<Array2<T>>{ typedef T E; typedef typename Array2<T>::shape_t S; static constexpr bool two=true; static S mk(const V& v){ return S{{v[0],v[1]}}; } static V un(const S& s){ return V{s[0],s[1]}; } };
template<class T> struct Tr<Array<T>>{ typedef T E; typedef brille::shape_t S; static constexpr bool two=false; static S mk(const V& v){ return v; } static V un(const S& s){ return s; } };

static V row_stride(const V& sh){ V s(sh.size(),1); for (size_t i=sh.size(); i-->1;) s[i-1]=s[i]*sh[i]; return s; }
static V col_stride(const V& sh){ V s(sh.size(),1); for (size_t i=1;i<sh.size();++i) s[i]=s[i-1]*sh[i-1]; return s; }
static const char* LN[]={"row","col","rowoff","colview","inner-row","inner-col","external"};
//! an operand in one of the memory layouts, with the whole storage it lives in
template<class A> struct Op { typedef typename Tr<A>::E T; A a; std::vector<T> ext; T* base{nullptr}; std::vector<T> snap; D<T> d; int kind{0};
  bool mut() const { return kind<2 || kind==6; }
  Op(int k, const D<T>& r): d(r), kind(k) { const V& sh=r.sh; V big=sh, off(sh.size(),0);
    if (k==2){ big[0]+=2; off[0]=1; }
    if (k==3){ for(size_t i=1;i<big.size();++i){ big[i]+=1; off[i]=1; } }
    if (k==4||k==5) for(size_t i=0;i<big.size();++i){ big[i]+=1; off[i]=1; }
    V st = (k==1||k==5)? col_stride(big): row_stride(big);
    size_t n=prod(big);
    if (k==6){ ext.assign(n,T(77)); base=ext.data(); } else { base=new T[n?n:1](); for(size_t i=0;i<n;++i) base[i]=T(77); }
    each(sh,[&](const V& s){ size_t q=0; for(size_t i=0;i<s.size();++i) q+=size_t(s[i]+off[i])*st[i]; base[q]=r.at(s); });
    A w(base, ind_t(n), k!=6, Tr<A>::mk(big), Tr<A>::mk(st));
    if (k==2) a=w.view(1, 1+sh[0]); else if (k>=3&&k<=5) a=w.view(Tr<A>::mk(off)); else a=w;
    snap.assign(base,base+n); }
  bool intact() const { return std::equal(snap.begin(),snap.end(),base); } };
static bool lay_ok(int k, const V& sh){ return prod(sh)>0 || k==0; }

struct Lazy { std::function<std::string()> f; template<class F> void operator=(F g){ f=g; } operator std::string() const { return f?f():""; } };
static Lazy g_lazy;
#define g_ctx std::string(g_lazy)
template<class T> std::string show(const D<T>& d){ return vf::vec(d.sh)+vf::vec(d.v); }
template<class R, class T> bool eqv(const R& r, const T& t){ return r==t; }
//! does the array show exactly these elements?
template<class A, class T> void want(const char* what, const A& r, const D<T>& e){
  vf::ctx().checks++;
  std::string m; V sh=Tr<A>::un(r.shape());
  if (sh!=e.sh) m="shape "+vf::vec(sh);
  else { std::vector<T> got, g2; each(sh,[&](const V& s){ auto z=Tr<A>::mk(s); got.push_back(T(r[z])); }); if (got!=e.v) m=vf::vec(got); else { for (size_t i=0;i<e.v.size();++i) g2.push_back(T(r[ind_t(i)])); if (g2!=e.v) m="by linear index "+vf::vec(g2); } }
  if (!m.empty()) vf::fail(what, g_ctx+" gave "+m+" expected "+show(e)); }
template<class X, class Y> void same(const char* what, const X& x, const Y& y){ vf::ctx().checks++; if(!(x==y)) vf::fail(what, g_ctx+" gave "+vf::str(x)+" expected "+vf::str(y)); }
template<class X, class Y> void samev(const char* what, const X& x, const Y& y){ vf::ctx().checks++; if(x.size()!=y.size() || !std::equal(x.begin(),x.end(),y.begin())) vf::fail(what, g_ctx+" gave "+vf::vec(x)+" expected "+vf::vec(y)); }
template<class T, class F> auto mapd(const D<T>& d, F f){ typedef decltype(f(T())) R; D<R> o; o.sh=d.sh; for (auto x: d.v) o.v.push_back(f(x)); return o; }
static bool cmpd(cmp c, double a, double b){ switch(c){ case cmp::lt: return a<b; case cmp::gt: return a>b; case cmp::le: return a<=b; case cmp::ge: return a>=b; case cmp::eq: return a==b; case cmp::neq: return a!=b; case cmp::nle: return !(a<=b); case cmp::nge: return !(a>=b); default: return false; } }
static const cmp CM[]={cmp::lt,cmp::gt,cmp::le,cmp::ge,cmp::eq,cmp::neq,cmp::nle,cmp::nge};
//! vector comparison: the negated forms hold when any element does, the others when all do
template<class X,class Y> bool vcmp(cmp c, const X& a, const Y& b){ bool any=(c==cmp::neq||c==cmp::nle||c==cmp::nge); for(size_t i=0;i<a.size();++i){ bool q=cmpd(c,a[i],b[i]); if(any&&q) return true; if(!any&&!q) return false; } return !any; }
template<class T> std::vector<T> rowv(const D<T>& d, size_t i){ return d.row(i).v; }

template<class A> void unary(Op<A>& o){ typedef typename Tr<A>::E T; const A& a=o.a; const D<T>& d=o.d; const auto& v=d.v; ind_t n=ind_t(v.size());
  vf::trans(60);
  for (ind_t lim: {ind_t(0),ind_t(1),ind_t(2),ind_t(n),ind_t(n+3)}) { ind_t m=(lim>0&&lim<n)?lim:n;
    auto b=v.begin(), e=v.begin()+m; auto tr=[](T x){return x!=T(0);};
    same("all(n)", a.all(lim), std::all_of(b,e,tr)); same("any(n)", a.any(lim), std::any_of(b,e,tr));
    same("count(n)", a.count(lim), ind_t(std::count_if(b,e,tr))); same("first(n)", a.first(lim), ind_t(std::find_if(b,e,tr)-b));
    ind_t l=m; for(ind_t i=m;i--;) if(v[i]!=T(0)){l=i;break;} same("last(n)", a.last(lim), l);
    for (T x: {T(0),T(2)}) { same("all(val,n)", a.all(x,lim), std::all_of(b,e,[&](T y){return y==x;})); same("any(val,n)", a.any(x,lim), std::find(b,e,x)!=e);
      same("count(val,n)", a.count(x,lim), ind_t(std::count(b,e,x))); same("first(val,n)", a.first(x,lim), ind_t(std::find(b,e,x)-b));
      l=m; for(ind_t i=m;i--;) if(v[i]==x){l=i;break;} same("last(val,n)", a.last(x,lim), l); } }
  for (cmp c: CM) for (T x: {T(0),T(2)}) { auto f=[&](T y){return cmpd(c,double(y),double(x));};
    std::vector<ind_t> fi; for(ind_t i=0;i<n;++i) if(f(v[i])) fi.push_back(i);
    want("is(cmp,val)", a.is(c,x), mapd(d,f)); samev("find(cmp,val)", a.find(c,x), fi);
    same("all(cmp,val)", a.all(c,x), fi.size()==n); same("any(cmp,val)", a.any(c,x), fi.size()>0); same("count(cmp,val)", a.count(c,x), ind_t(fi.size()));
    same("first(cmp,val)", a.first(c,x), fi.empty()?n:fi.front()); same("last(cmp,val)", a.last(c,x), fi.empty()?n:fi.back()); }
  for (T x: {T(0),T(2)}){ bool ge=std::all_of(v.begin(),v.end(),[&](T y){return y>=x;}), le=std::all_of(v.begin(),v.end(),[&](T y){return y<=x;}); same("all(le_ge)", a.all(cmp::le_ge,x), ge||le); }
  want("round", a.round(), mapd(d,[](T x){return int(std::round(x));})); want("floor", a.floor(), mapd(d,[](T x){return int(std::floor(x));})); want("ceil", a.ceil(), mapd(d,[](T x){return int(std::ceil(x));}));
  want("negate", -a, mapd(d,[](T x){return T(-x);}));
  T s0{0}, p1{1}; for (auto x: v){ s0+=x; p1*=x; }
  for (ind_t dim=0; dim<d.sh.size(); ++dim) { D<T> S,P,Mi,Ma; S.sh=d.sh; S.sh[dim]=1; P.sh=Mi.sh=Ma.sh=S.sh;
    each(S.sh,[&](const V& q){ T s{0},p{1},mi{0},ma{0}; V z(q); for(ind_t i=0;i<d.sh[dim];++i){ z[dim]=i; T x=d.at(z); s+=x; p*=x; if(!i||x<mi) mi=x; if(!i||x>ma) ma=x; } S.v.push_back(s);P.v.push_back(p);Mi.v.push_back(mi);Ma.v.push_back(ma); });
    want("sum(dim)", a.sum(dim), S); want("prod(dim)", a.prod(dim), P); if (n){ want("min(dim)", a.min(dim), Mi); want("max(dim)", a.max(dim), Ma); } }
  samev("to_std", a.to_std(), v);
  { std::vector<T> it; for (auto x: a.valItr()) it.push_back(x); samev("valItr", it, v); }
  if (n) { std::vector<bool> iu; std::vector<ind_t> ui; D<T> U; U.sh=d.sh; U.sh[0]=0;
    for (size_t i=0;i<d.sh[0];++i){ size_t k=i; for(size_t j=0;j<i;++j) if(rowv(d,i)==rowv(d,j)){k=j;break;} iu.push_back(k==i); ui.push_back(ind_t(k)); if(k==i){ U.sh[0]++; auto r=rowv(d,i); U.v.insert(U.v.end(),r.begin(),r.end()); } }
    if (Tr<A>::two || d.sh.size()==2) { samev("is_unique", a.is_unique(), iu); samev("unique_idx", a.unique_idx(), ui); want("unique", a.unique(), U);
      for (ind_t i=0;i<d.sh[0];++i) for (ind_t j=0;j<d.sh[0];++j){ T q{0}; auto x=rowv(d,i), y=rowv(d,j); for(size_t k=0;k<x.size();++k) q+=x[k]*y[k]; same("dot(i,j)", a.dot(i,j), q); if(i==j) same("norm(i)", a.norm(i), T(std::sqrt(q))); } } }
  for (ind_t i=0;i<d.sh[0];++i) for (ind_t j=0;j<d.sh[0];++j) if (n) { auto x=rowv(d,i), y=rowv(d,j);
    for (T val: {T(0),T(1),T(2)}) { auto t=[&](auto f){ for(size_t k=0;k<x.size();++k) if(x[k]!=f(y[k])) return false; return true; };
      same("match(plus)", a.match(i,j,ops::plus,val), t([&](T z){return T(z+val);})); same("match(minus)", a.match(i,j,ops::minus,val), t([&](T z){return T(z-val);}));
      same("match(times)", a.match(i,j,ops::times,val), t([&](T z){return T(z*val);})); if (val!=T(0)) same("match(rdiv)", a.match(i,j,ops::rdiv,val), t([&](T z){return T(z/val);}));
      if (std::find(y.begin(),y.end(),T(0))==y.end()) same("match(ldiv)", a.match(i,j,ops::ldiv,val), t([&](T z){return T(val/z);})); }
    if (d.sh.size()==2 && d.sh[1]==2) for (auto rot: {std::array<int,4>{0,-1,1,0}, std::array<int,4>{0,1,1,0}, std::array<int,4>{1,1,0,1}}) for (int ord: {0,1,2,-1,-3}) {
      std::vector<T> t=y; auto ap=[&]{ std::vector<T> u{T(rot[0]*t[0]+rot[1]*t[1]), T(rot[2]*t[0]+rot[3]*t[1])}; t=u; }; bool e=false;
      if (ord>=0){ for(int k=0;k<ord;++k) ap(); e=(t==x); } else { for(int k=0;k<=-ord;++k){ if(t==x) e=true; ap(); } }
      same("match(rot)", a.match(i,j,rot,ord), e); } }
  vf::ctx().checks++; if (!o.intact()) vf::fail("operand-changed", g_ctx);
}
template<class A> void inplace(int kind, const D<typename Tr<A>::E>& d){ typedef typename Tr<A>::E T;
  for (int op=0; op<4; ++op) for (T x: {T(-1),T(2)}) { Op<A> o(kind,d); bool th=vf::throws([&]{ switch(op){case 0:o.a+=x;break;case 1:o.a-=x;break;case 2:o.a*=x;break;default:o.a/=x;} }); vf::trans();
    same("immutable refused", th, !o.mut()); D<T> e=d; if(o.mut()) for(auto& y: e.v) switch(op){case 0:y+=x;break;case 1:y-=x;break;case 2:y*=x;break;default:y/=x;} want("scalar in place", o.a, e); } }
template<class A> void two_inplace(int ka, const D<typename Tr<A>::E>& d, int kb, const D<typename Tr<A>::E>& r){ typedef typename Tr<A>::E T;
  bool zero=std::find(r.v.begin(),r.v.end(),T(0))!=r.v.end(); bool ok=true; for(size_t i=0;i<d.sh.size();++i) if(!(r.sh[i]==d.sh[i]||r.sh[i]==1)) ok=false;
  for (int op=0; op<4; ++op) { if(op==3&&zero) continue; Op<A> o(ka,d), b(kb,r); bool th=vf::throws([&]{ switch(op){case 0:o.a+=b.a;break;case 1:o.a-=b.a;break;case 2:o.a*=b.a;break;default:o.a/=b.a;} }); vf::trans();
    same("refused in place", th, !(ok&&o.mut())); D<T> e=d; if(ok&&o.mut()) each(d.sh,[&](const V& s){ V q(s); for(size_t i=0;i<q.size();++i) if(r.sh[i]==1) q[i]=0; T y=r.at(q); T& x=e.v[e.lin(s)]; switch(op){case 0:x+=y;break;case 1:x-=y;break;case 2:x*=y;break;default:x/=y;} });
    want("array in place", o.a, e); vf::ctx().checks++; if(!b.intact()) vf::fail("operand-changed", g_ctx); } }
template<class T, class R> bool bshape(const D<T>& a, const D<R>& b, V& o){ o=a.sh; for(size_t i=0;i<o.size();++i){ if(a.sh[i]==b.sh[i]) continue; if(a.sh[i]==1) o[i]=b.sh[i]; else if(b.sh[i]!=1) return false; } return true; }
template<class T> T bat(const D<T>& a, V s){ for(size_t i=0;i<s.size();++i) if(a.sh[i]==1) s[i]=0; return a.at(s); }

template<class T, class R> void binary(Op<Array2<T>>& x, Op<Array2<R>>& y){ typedef std::common_type_t<T,R> S; const auto& a=x.a; const auto& b=y.a; const D<T>& p=x.d; const D<R>& q=y.d; V osh; bool ok=bshape(p,q,osh);
  bool zero=std::find(q.v.begin(),q.v.end(),R(0))!=q.v.end();
  auto ex=[&](auto f){ D<S> e; e.sh=osh; each(osh,[&](const V& s){ e.v.push_back(f(S(bat(p,s)),S(bat(q,s)))); }); return e; };
  vf::trans(20);
  if (ok){ want("a+b", a+b, ex([](S u,S w){return S(u+w);})); want("a-b", a-b, ex([](S u,S w){return S(u-w);})); want("a*b", a*b, ex([](S u,S w){return S(u*w);})); if(!zero) want("a/b", a/b, ex([](S u,S w){return S(u/w);})); }
  else { same("a+b refused", vf::throws([&]{ auto z=a+b; }), true); same("a*b refused", vf::throws([&]{ auto z=a*b; }), true); }
  bool full=(p.sh==q.sh), bc=full||(q.sh[0]==1&&q.sh[1]==p.sh[1]);
  size_t n0=p.sh[0];
  for (cmp c: CM) {
    if (!bc){ same("is(cmp,array) refused", vf::throws([&]{ auto z=a.is(c,b); }), true); continue; }
    D<bool> e; e.sh=p.sh; each(p.sh,[&](const V& s){ e.v.push_back(cmpd(c,double(p.at(s)),double(bat(q,s)))); }); want("is(cmp,array)", a.is(c,b), e);
    std::vector<ind_t> rows; D<bool> ri; ri.sh={ind_t(n0),1}; for(size_t i=0;i<n0;++i){ bool t=vcmp(c,rowv(p,i),rowv(q,full?i:0)); ri.v.push_back(t); if(t) rows.push_back(ind_t(i)); }
    { auto r=a.row_is(c,b); std::vector<bool> g; for(size_t i=0;i<n0;++i) g.push_back(r[ind_t(i)]); samev("row_is(cmp,array)", g, ri.v); }
    samev("find(cmp,array)", a.find(c,b), rows); same("count(cmp,array)", a.count(c,b), ind_t(rows.size())); same("first(cmp,array)", a.first(c,b), rows.empty()?ind_t(n0):rows.front()); same("last(cmp,array)", a.last(c,b), rows.empty()?ind_t(n0):rows.back());
    if (!full||n0==1){ auto rv=rowv(q,0); samev("row_is(cmp,vector)", a.row_is(c,rv), ri.v); }
    if (full){ samev("each_is", a.each_is(c,q.v), e.v); } }
  if (bc){ bool e=true; each(p.sh,[&](const V& s){ if(double(p.at(s))!=double(bat(q,s))) e=false; }); same("is(array)", a.is(b), e); same("==", a==b, e); }
  { bool e=p.sh==q.sh && std::equal(p.v.begin(),p.v.end(),q.v.begin(),[](T u,R w){return double(u)==double(w);});  if constexpr(std::is_same_v<T,R>) same("!=", a!=b, !e); }
  { bool ip=full; if(full) for(size_t i=0;i<n0;++i){ int k=0,l=0; for(size_t j=0;j<n0;++j){ k+=vcmp(cmp::eq,rowv(p,j),rowv(p,i)); l+=vcmp(cmp::eq,rowv(q,j),rowv(p,i)); } if(k!=l) ip=false; }
    same("is_permutation", a.is_permutation(b), ip);
    if (ip){ auto pv=a.permutation_vector(b); bool good=pv.size()==n0; std::vector<char> used(n0,0); if(good) for(size_t i=0;i<n0;++i){ if(pv[i]>=n0||used[pv[i]]||!vcmp(cmp::eq,rowv(p,i),rowv(q,pv[i]))) {good=false;break;} used[pv[i]]=1; } same("permutation_vector", good, true); } }
  for (ind_t dim=0; dim<2; ++dim){ bool cok=p.sh[1-dim]==q.sh[1-dim]; if(!cok){ same("cat refused", vf::throws([&]{ auto z=cat(dim,a,b); }), true); continue; }
    D<S> e; e.sh=p.sh; e.sh[dim]+=q.sh[dim]; each(e.sh,[&](const V& s){ V z(s); if(z[dim]<p.sh[dim]) e.v.push_back(S(p.at(z))); else { z[dim]-=p.sh[dim]; e.v.push_back(S(q.at(z))); } }); want("cat", cat(dim,a,b), e); }
  if (full) { // products of rows need compact row-ordered operands
    auto cp=[](int k){ return k==0||k==2||k==6; }; if (cp(x.kind)&&cp(y.kind)){ D<S> e; e.sh={ind_t(n0),1}; for(size_t i=0;i<n0;++i){ S s{0}; for(ind_t j=0;j<p.sh[1];++j) s+=S(p.at({ind_t(i),j}))*S(q.at({ind_t(i),j})); e.v.push_back(s);} want("dot(a,b)", dot(a,b), e); } }
  vf::ctx().checks++; if (!x.intact()||!y.intact()) vf::fail("operand-changed", g_ctx);
}
template<class T> void scalars(Op<Array2<T>>& o){ const auto& a=o.a; const D<T>& d=o.d; vf::trans(12);
  auto go=[&](auto x){ typedef std::common_type_t<T,decltype(x)> S; S y=S(x);
    want("a+s", a+x, mapd(d,[&](T u){return S(S(u)+y);})); want("a-s", a-x, mapd(d,[&](T u){return S(S(u)-y);})); want("a*s", a*x, mapd(d,[&](T u){return S(S(u)*y);})); want("a/s", a/x, mapd(d,[&](T u){return S(S(u)/y);}));
    want("s+a", x+a, mapd(d,[&](T u){return S(y+S(u));})); want("s-a", x-a, mapd(d,[&](T u){return S(y-S(u));})); want("s*a", x*a, mapd(d,[&](T u){return S(y*S(u));})); };
  go(3); go(-2); go(2.5);
  if (d.sh[1]==2){ std::array<T,2> z{{T(-1),T(2)}}; auto f=[&](auto g){ D<T> e=d; each(d.sh,[&](const V& s){ e.v[e.lin(s)]=T(g(d.at(s),z[s[1]])); }); return e; };
    want("a+array", a+z, f([](T u,T w){return u+w;})); want("a-array", a-z, f([](T u,T w){return u-w;})); want("a*array", a*z, f([](T u,T w){return u*w;})); want("a/array", a/z, f([](T u,T w){return u/w;})); }
  want("abs", brille::abs(a), mapd(d,[](T u){return T(u<0?-u:u);})); want("member abs", a.abs(), mapd(d,[](T u){return T(u<0?-u:u);}));
  { Op<Array2<T>> c(o.kind,d); want("power", c.a^T(2), mapd(d,[](T u){return T(u*u);})); vf::ctx().checks++; if(!c.intact()) vf::fail("operand-changed", g_ctx+" ^"); }
  if ((o.kind==0||o.kind==2||o.kind==6) && d.v.size()) { D<double> e; e.sh={d.sh[0],1}; for(size_t i=0;i<d.sh[0];++i){ double s=0; for (auto u: rowv(d,i)) s+=double(u)*double(u); e.v.push_back(std::sqrt(s)); } if constexpr(std::is_same_v<T,double>) want("norm(a)", norm(a), e); }
  vf::ctx().checks++; if(!o.intact()) vf::fail("operand-changed", g_ctx+" scalar");
}
//! every content of a shape over an alphabet
template<class T, class F> void fills(const V& sh, const std::vector<T>& al, F f){ vf::power(int(al.size()), int(prod(sh)), [&](const std::vector<int>& i){ D<T> d; d.sh=sh; for(int k: i) d.v.push_back(al[k]); f(d); }); }
static std::string sn(const V& s){ std::string o; for(auto x: s) o+=(o.empty()?"":"x")+std::to_string(x); return o; }

template<class A> void all_unary(const std::string& nm, const V& sh, const std::vector<typename Tr<A>::E>& al){ typedef typename Tr<A>::E T;
  for (int k=0;k<7;++k) if (lay_ok(k,sh)) vf::run(nm+"-unary-"+sn(sh)+"-"+LN[k], [&]{
    auto one=[&](const D<T>& d){ g_lazy=[&,k]{ return nm+" "+LN[k]+" "+show(d); }; Op<A> o(k,d); vf::state(); vf::trace(); vf::outcome(vf::fnv(d.v.data(),d.v.size()*sizeof(T),k)); unary<A>(o); inplace<A>(k,d); if constexpr(Tr<A>::two) scalars<T>(o); };
    if (prod(sh)==0){ D<T> d; d.sh=sh; one(d); } else fills<T>(sh,al,one);  vf::sample(vf::ctx().cur); }); }
template<class T, class R> void all_binary(const std::string& nm, const V& sa, const V& sb, const std::vector<T>& al, const std::vector<R>& bl){
  for (int k=0;k<7;++k) vf::run(nm+"-binary-"+sn(sa)+"-"+sn(sb)+"-"+LN[k], [&]{ for (int m=0;m<7;++m)
    fills<T>(sa,al,[&](const D<T>& p){ Op<Array2<T>> x(k,p); fills<R>(sb,bl,[&](const D<R>& q){ g_lazy=[&,k,m]{ return nm+" "+LN[k]+" "+show(p)+" with "+LN[m]+" "+show(q); }; Op<Array2<R>> y(m,q); vf::state(); vf::trace(); binary<T,R>(x,y);
      if constexpr(std::is_same_v<T,R>) if (x.mut()) two_inplace<Array2<T>>(k,p,m,q); }); });  vf::sample(vf::ctx().cur); }); }
template<class A> void nd_inplace(const std::string& nm, const V& sa, const V& sb, const std::vector<typename Tr<A>::E>& al){ typedef typename Tr<A>::E T;
  for (int k: {0,1,2,6}) vf::run(nm+"-inplace-"+sn(sa)+"-"+sn(sb)+"-"+LN[k], [&]{ for (int m=0;m<7;++m) { D<T> p; p.sh=sa; for(size_t i=0;i<prod(sa);++i) p.v.push_back(T(int(i*i%11)-4));
    fills<T>(sb,al,[&](const D<T>& q){ g_lazy=[&,k,m]{ return nm+" "+LN[k]+" "+show(p)+" with "+LN[m]+" "+show(q); }; vf::state(); vf::trace(); two_inplace<A>(k,p,m,q); }); } }); }

