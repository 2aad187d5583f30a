// N01: approximate comparison over a grid of values around every decision boundary, all type mixtures
#include "vf.hpp"
#include <cassert>
#include <memory>
#include <complex>
#include <limits>
#include "math.hpp"
#include "comparisons.hpp"
using namespace brille;
typedef long double L;
static bool close(L d, L l){ return fabsl(d-l) <= 1e-4L*l; } // too near the boundary for the type to decide
template<class T> const char* tn();
#define TN(t) template<> const char* tn<t>(){ return #t; }
TN(double) TN(float) TN(int) TN(long) TN(unsigned) TN(size_t) TN(short)
template<class T> constexpr bool FP = std::is_floating_point_v<T>;
//! the tolerance the relation is documented to use
template<class T> L relof(T t, int tol){ L r=L(std::numeric_limits<T>::epsilon())*L(tol)*10000; return t>r? L(t): r; }
template<class T> L absof(T t){ L r= sizeof(T)==4? L(5.0f/1e15f): L(5.0/1e15); return t>r? L(t): r; }
template<class T,class R> int expect(T a, R b, T tt, R rt, int tol){ // 1 equal, 0 not, -1 undecidable here
  if constexpr(!FP<T> && !FP<R>) return (L)a==(L)b;
  else { L rel, ab, tiny; if constexpr(FP<T>) { rel=relof<T>(tt,tol); ab=absof<T>(tt); tiny=std::numeric_limits<T>::min(); } else { rel=relof<R>(rt,tol); ab=absof<R>(rt); tiny=std::numeric_limits<R>::min(); }
    typedef decltype(a-b) C; L x=L(C(a)), y=L(C(b)); L d=fabsl(L(C(x-y))), l=ab+rel*fabsl(x+y); (void)tiny; if (close(d,l)) return -1; return d<=l; } }
template<class T> std::vector<T> grid(){ std::vector<T> g;
  if constexpr(FP<T>){ for (L m: {0.0L,1e-300L,1e-40L,1e-38L,1e-30L,1e-16L,1e-15L,2.4e-15L,4e-15L,6e-15L,1e-14L,1e-12L,1e-9L,1e-6L,1e-3L,0.5L,0.9999L,1.0L,1.0001L,3.0L,120.0L,90.0L,1e4L,2147483647.0L,4294967295.0L,1e15L,1e30L,1e37L,1e100L,1e300L}) { T x=T(m); if (!std::isfinite(x)) continue; g.push_back(x); if (x!=0) g.push_back(-x); } g.push_back(std::numeric_limits<T>::denorm_min()); g.push_back(std::numeric_limits<T>::min()); }
  else { for (long m: {0l,1l,2l,3l,4l,5l,7l,100l,127l,128l,255l,256l,1000l,32767l,9999l,10000l,16777216l,16777217l,1000000l,2147483646l}) { if (m<=(long)std::numeric_limits<T>::max()) { g.push_back(T(m)); if (std::is_signed_v<T> && m) g.push_back(T(-m)); } } }
  return g; }
template<class T, class R> struct Tl { T t; R r; int tol; };
template<class T,class R> std::vector<Tl<T,R>> tolset(){ std::vector<Tl<T,R>> v{{T(0),R(0),1},{T(0),R(0),5},{T(0),R(0),0},{T(0),R(0),1000}};
  auto one=[](auto x, double d){ typedef decltype(x) X; return FP<X>? X(d): X(d>0?1:0); };
  for (double d: {1e-15,1e-12,1e-3,0.25}) { v.push_back({one(T(),d),R(0),1}); v.push_back({T(0),one(R(),d),1}); v.push_back({one(T(),d),one(R(),d),2}); } return v; }
template<class T,class R> bool ok_pair(T a, R b){ // representable in both, no overflow on the way
  if constexpr(!FP<T>&&!FP<R>) return (L)a==(L)(R)a && (L)b==(L)(T)b; else { typedef decltype(a-b) C; return fabsl(L(a))<L(std::numeric_limits<C>::max())/4 && fabsl(L(b))<L(std::numeric_limits<C>::max())/4; } }
template<class T,class R> std::string ctx(T a,R b,const Tl<T,R>& t){ return vf::fmt("%s %.21Lg with %s %.21Lg tolerances %Lg %Lg x%d", tn<T>(),(L)a,tn<R>(),(L)b,(L)t.t,(L)t.r,t.tol); }
static const cmp CM[]={cmp::lt,cmp::gt,cmp::le,cmp::ge,cmp::eq,cmp::neq,cmp::nle,cmp::nge};
static bool rel(cmp c, bool eq, bool lt){ switch(c){ case cmp::lt: case cmp::nge: return !eq&&lt; case cmp::gt: case cmp::nle: return !eq&&!lt; case cmp::le: return eq||lt; case cmp::ge: return eq||!lt; case cmp::eq: return eq; default: return !eq; } }
static bool anyform(cmp c){ return c==cmp::neq||c==cmp::nle||c==cmp::nge; }

template<class T,class R> void scalars(){
  auto ts=tolset<T,R>(); 
  for (size_t ti=0; ti<ts.size(); ++ti) vf::run(vf::fmt("scalar-%s-%s-%zu", tn<T>(), tn<R>(), ti), [&]{ auto t=ts[ti];
    std::vector<Comparer<T,R>> C; for (cmp c: CM) { auto p=std::make_unique<Comparer<T,R>>(c,t.t,t.r,t.tol); C.push_back(*p); } // copies; the originals are gone
    auto test=[&](T a, R b){ if (!ok_pair(a,b)) return; int e=expect<T,R>(a,b,t.t,t.r,t.tol); if (e<0){ vf::tally("too near the boundary"); return; } vf::state(); vf::trans(10); vf::trace(); vf::outcome(vf::fmt("%d%d",e,a<b));
      auto bad=[&](const char* w){ vf::fail(w, ctx<T,R>(a,b,t)+(e?" expected equal":" expected different")); }; vf::ctx().checks+=12;
      if (approx_float::scalar(a,b,t.t,t.r,t.tol)!=bool(e)) bad("scalar");
      if constexpr(std::is_same_v<T,R> || !FP<T> || !FP<R>) if (!(FP<T>&&FP<R>&&L(t.t)!=L(t.r)) && approx_float::scalar(b,a,t.r,t.t,t.tol)!=bool(e)) bad("scalar, arguments exchanged");
      if (t.tol==1 && t.t==T(0) && t.r==R(0) && approx_float::scalar(a,b)!=bool(e)) bad("scalar, default tolerances");
      bool lt=(L)a<(L)b; int n=0; for (int k=0;k<8;++k){ bool g=C[k](a,b); if (g!=rel(CM[k],e,lt)) bad(("Comparer "+to_string(CM[k])).c_str()); if (k==0||k==1||k==4) n+=g; } if (n!=1) bad("not exactly one of less, equal, greater"); };
    for (T a: grid<T>()) { for (R b: grid<R>()) test(a,b);
      // both sides of the decision boundary for this value
      if constexpr(FP<T>||FP<R>) { L rl,ab; if constexpr(FP<T>){ rl=relof<T>(t.t,t.tol); ab=absof<T>(t.t); } else { rl=relof<R>(t.r,t.tol); ab=absof<R>(t.r); }
        for (L f: {0.25L,0.5L,0.9L,0.98L,1.02L,1.1L,2.0L,10.0L}) for (int s: {-1,1}) { L w=ab+rl*2*fabsl((L)a); L y=(L)a+s*f*w; if (rl<0.1L) { if constexpr(FP<R>) test(a,R(y)); } else for (L g: {1.5L,1.6L,1.7L,3.0L}) if constexpr(FP<R>) test(a,R((L)a*g)); } }
      if constexpr(std::is_same_v<T,R>) { vf::ctx().checks++; if (ok_pair(a,a) && !approx_float::scalar(a,a,t.t,t.r,t.tol)) vf::fail("not equal to itself", ctx<T,R>(a,a,t)); } }
    vf::sample(vf::fmt("%s/%s", tn<T>(),tn<R>())); }); }

template<class T,class R> void vectors(){
  // every pair of contents where each element pair is one of: same, within tolerance, above, below
  std::vector<std::pair<T,R>> el{{T(3),R(3)},{T(3),R(4)},{T(4),R(3)}};
  if constexpr(FP<R>&&FP<T>&&!(sizeof(T)==8&&sizeof(R)==4)) el.push_back({T(3),R(3)*(1+std::max<R>(std::numeric_limits<R>::epsilon(),R(std::numeric_limits<T>::epsilon()))*R(100))});
  for (int n=0;n<=4;++n) vf::run(vf::fmt("vector-%s-%s-%d",tn<T>(),tn<R>(),n), [&]{ std::vector<Comparer<T,R>> C; for (cmp c: CM) C.emplace_back(c);
    std::vector<Comparer<T,R>> C2(C); for(auto& c: C2){ Comparer<T,R> k(cmp::lt); k=c; c=k; }
    for (size_t code=0, tot=1; code<(tot=[&]{size_t z=1; for(int i=0;i<n;++i) z*=el.size(); return z;}()); ++code){ size_t q=code; std::vector<int> ix; for(int i=0;i<n;++i){ ix.push_back(int(q%el.size())); q/=el.size(); }
      vf::state(); vf::trace(); vf::trans(40);
      for (int sa: {1,2,3}) for (int sb: {1,2}) { std::vector<T> a(n*sa+1,T(50)); std::vector<R> b(n*sb+1,R(60)); bool alleq=true; for(int i=0;i<n;++i){ a[i*sa]=el[ix[i]].first; b[i*sb]=el[ix[i]].second; if(ix[i]==1||ix[i]==2) alleq=false; }
        for (int k=0;k<8;++k){ bool any=anyform(CM[k]), e=!any; for(int i=0;i<n;++i){ bool eq=!(ix[i]==1||ix[i]==2), r=rel(CM[k],eq,ix[i]==1||(ix[i]==3)); if(any&&r) e=true; if(!any&&!r) e=false; }
          VF_CHECK(C[k](n,a.data(),sa,b.data(),sb)==e, "Comparer vector "+to_string(CM[k]), vf::vec(ix)); VF_CHECK(C2[k](n,a.data(),sa,b.data(),sb)==e, "copied Comparer vector "+to_string(CM[k]), vf::vec(ix)); if(sa==1&&sb==1) VF_CHECK(C[k](n,a.data(),b.data())==e, "Comparer contiguous vector "+to_string(CM[k]), vf::vec(ix)); }
        if (sa==1&&sb==1){ VF_CHECK((approx_float::vector(n,a.data(),b.data())==alleq), "vector", vf::vec(ix)); VF_CHECK((approx_float::array(size_t(n),size_t(1),a.data(),b.data())==alleq), "array", vf::vec(ix));
          std::vector<T> va(a.begin(),a.begin()+n); std::vector<R> vb(b.begin(),b.begin()+n); VF_CHECK(approx_float::equal(va,vb)==alleq, "equal(vector)", vf::vec(ix)); vb.push_back(R(1)); VF_CHECK(!approx_float::equal(va,vb), "equal(vectors of different size)", vf::vec(ix));
          if (n==3){ VF_CHECK((approx_float::vector(a.data(),b.data())==alleq), "vector of 3", vf::vec(ix)); std::array<T,3> x{{a[0],a[1],a[2]}}; std::array<R,3> y{{b[0],b[1],b[2]}}; VF_CHECK(approx_float::equal(x,y)==alleq, "equal(array)", vf::vec(ix)); }
          if (n==4){ VF_CHECK((approx_float::matrix(size_t(2),a.data(),b.data())==alleq), "matrix", vf::vec(ix)); VF_CHECK((approx_float::array(size_t(2),size_t(2),a.data(),b.data())==alleq), "array 2x2", vf::vec(ix)); VF_CHECK((approx_float::matrix<T,R,2>(a.data(),b.data())==alleq), "matrix<2>", vf::vec(ix)); } }
      } } });
  vf::run(vf::fmt("matrix3-%s-%s",tn<T>(),tn<R>()), [&]{ for (int m=0;m<512;++m){ std::vector<T> a(9); std::vector<R> b(9); for(int i=0;i<9;++i){ a[i]=T(i+1); b[i]=R(i+1+((m>>i)&1)); } vf::state(); vf::trans(3); VF_CHECK((approx_float::matrix(size_t(3),a.data(),b.data())==(m==0)),"matrix 3x3",vf::fmt("%x",m)); VF_CHECK((approx_float::matrix(a.data(),b.data())==(m==0)),"matrix<3>",vf::fmt("%x",m)); VF_CHECK((approx_float::array<T,R,3,3>(a.data(),b.data())==(m==0)),"array<3,3>",vf::fmt("%x",m)); } }); }
template<class T> void binops(){ vf::run(std::string("binary-operator-")+tn<T>(), [&]{ ops O[]={ops::plus,ops::minus,ops::times,ops::rdiv,ops::ldiv}; for (ops o: O) { auto p=std::make_unique<RawBinaryOperator<T>>(o); RawBinaryOperator<T> q(*p); p.reset();
  auto e=[&](T a,T b){ switch(o){ case ops::plus: return T(a+b); case ops::minus: return T(a-b); case ops::times: return T(a*b); case ops::rdiv: return T(a/b); default: return T(b/a); } };
  for (T a: {T(1),T(2),T(7),T(12)}) for (T b: {T(1),T(2),T(3),T(5)}) { vf::state(); vf::trans(3); VF_CHECK(q(a,b)==e(a,b),"operator",""); T x[4]={a,b,a,b}, y[6]={b,a,a,b,a,a}, z[6]={}; q(2,z,x,y); VF_CHECK(z[0]==e(a,b)&&z[1]==e(b,a)&&z[2]==T(0),"operator on vectors",""); T w[6]={}; q(2,w,3,x,2,y,3); VF_CHECK(w[0]==e(a,b)&&w[3]==e(a,b)&&w[1]==T(0)&&w[2]==T(0),"operator on strided vectors",""); } } }); }

template<class T,class R> void both(){ scalars<T,R>(); vectors<T,R>(); }
void vf_explore(){
  both<double,double>(); both<float,float>(); both<double,float>(); both<float,double>();
  both<int,int>(); both<int,double>(); both<double,int>(); both<unsigned,double>(); both<double,unsigned>(); both<int,float>(); both<float,int>();
  both<int,unsigned>(); both<unsigned,int>(); both<unsigned,unsigned>(); both<long,long>(); both<long,int>(); both<int,size_t>(); both<size_t,size_t>(); both<size_t,double>(); both<short,short>(); both<short,long>(); both<double,long>();
  binops<int>(); binops<double>(); binops<float>();
}
