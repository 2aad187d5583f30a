// M03: permuting, un-permuting, recognising and finding permutations
#include "vf.hpp"
#include <cassert>
#include <numeric>
#include <algorithm>
#include <complex>
#include <memory>
#include <tuple>
#include "array_.hpp"
#include "utilities.hpp"
#include "permutation.hpp"
#include "pointsymmetry.hpp"
using namespace brille;
namespace U = brille::utils;
static std::vector<std::vector<int>> perms(int n){ std::vector<int> p(n); std::iota(p.begin(),p.end(),0); std::vector<std::vector<int>> r; do r.push_back(p); while(std::next_permutation(p.begin(),p.end())); return r; }
struct MoveOnly { std::unique_ptr<int> p; MoveOnly(): p(){} explicit MoveOnly(int i): p(new int(i)){} MoveOnly(MoveOnly&&)=default; MoveOnly& operator=(MoveOnly&&)=default; MoveOnly& operator=(int)=delete; };
struct Thing { int v; Thing(int x=0): v(x){} bool operator==(const Thing& o) const { return v==o.v; } };
template<class T> T make(int i){ return T(i); }
template<> std::string make<std::string>(int i){ return std::string(size_t(3+13*i),char('a'+i)); }
template<> std::complex<double> make<std::complex<double>>(int i){ return {i+0.5,-2.*i}; }
template<> double make<double>(int i){ return i*1.25-0.3; }
template<class T, class I> void lists(const char* nm, const std::vector<int>& p, const std::vector<int>& content){
  int n=int(p.size()); std::vector<T> x; for(int c: content) x.push_back(make<T>(c)); std::vector<T> y(x); std::vector<I> q(p.begin(),p.end()); std::string id=std::string(nm)+" "+vf::vec(p)+vf::vec(content); vf::trans(4); vf::state(); vf::trace();
  apply_permutation(y.begin(),y.end(),q.begin()); bool ok=true, id2=true; for(int i=0;i<n;++i){ ok&=y[i]==x[p[i]]; id2&=q[i]==I(i); } VF_CHECK(ok,"apply_permutation",id); VF_CHECK(id2,"apply_permutation leaves the index list sorted",id);
  q.assign(p.begin(),p.end()); apply_inverse_permutation(y.begin(),y.end(),q.begin()); VF_CHECK(y==x,"inverse restores",id); for(int i=0;i<n;++i) VF_CHECK(q[i]==I(i),"apply_inverse_permutation leaves the index list sorted",id);
  y=x; q.assign(p.begin(),p.end()); apply_inverse_permutation(y.begin(),y.end(),q.begin()); ok=true; for(int i=0;i<n;++i) ok&=y[p[i]]==x[i]; VF_CHECK(ok,"apply_inverse_permutation",id); 
  q.assign(p.begin(),p.end()); apply_permutation(y.begin(),y.end(),q.begin()); VF_CHECK(y==x,"apply undoes the inverse",id); }
template<class I> void moveonly(const std::vector<int>& p){ int n=int(p.size()); std::vector<MoveOnly> y; for(int i=0;i<n;++i) y.emplace_back(i); std::vector<I> q(p.begin(),p.end()); vf::trans(2); apply_permutation(y.begin(),y.end(),q.begin()); bool ok=true; for(int i=0;i<n;++i) ok&=y[i].p && *y[i].p==p[i]; VF_CHECK(ok,"apply_permutation of objects that only move",vf::vec(p)); if(!ok) return; q.assign(p.begin(),p.end()); apply_inverse_permutation(y.begin(),y.end(),q.begin()); for(int i=0;i<n;++i) ok&=y[i].p && *y[i].p==i; VF_CHECK(ok,"inverse restores objects that only move",vf::vec(p)); }

// an array holding the content in one of several layouts
template<class T> Array2<T> layout(int which, unsigned r, unsigned c, const std::vector<T>& v, Array2<T>& keep){
  if (which==0){ Array2<T> a(r,c); for(unsigned i=0;i<r;++i) for(unsigned j=0;j<c;++j) a.val(i,j)=v[i*c+j]; return a; }
  if (which==1){ keep=Array2<T>(r+2,c,T(9)); for(unsigned i=0;i<r;++i) for(unsigned j=0;j<c;++j) keep.val(i+1,j)=v[i*c+j]; return keep.view(1,r+1); }
  std::array<unsigned,2> sh{{r,c}}, st{{1u,r}}; Array2<T> a(new T[r*c](),r*c,true,sh,st,true); for(unsigned i=0;i<r;++i) for(unsigned j=0;j<c;++j) a.val(i,j)=v[i*c+j]; return a; }
template<class T, class R> void pairs(const char* nm, unsigned r, unsigned c, const std::vector<T>& al, double wobble){ int b=int(al.size()), len=int(r*c); int lead=std::min(len,2);
  vf::power(b,lead,[&](const std::vector<int>& h){ std::string id=vf::fmt("find-%s-%ux%u",nm,r,c); for(int x: h) id+="-"+std::to_string(x); vf::run(id,[&]{ vf::power(b,len-lead,[&](const std::vector<int>& t){ std::vector<int> xi(h); xi.insert(xi.end(),t.begin(),t.end()); std::vector<T> xv; for(int i: xi) xv.push_back(al[i]); int k=0; 
    vf::power(b,len,[&](const std::vector<int>& yi){ int la=k%3, lb=(k/3)%3; ++k; std::vector<R> yv; for(size_t i=0;i<yi.size();++i) yv.push_back(R(al[yi[i]]+ (i%2?wobble:-wobble))); Array2<T> ka; Array2<R> kb; auto A=layout(la,r,c,xv,ka); auto B=layout(lb,r,c,yv,kb);
      std::vector<std::vector<int>> ra(r), rb(r); for(unsigned i=0;i<r;++i) for(unsigned j=0;j<c;++j){ ra[i].push_back(xi[i*c+j]); rb[i].push_back(yi[i*c+j]); } auto sa=ra, sb=rb; std::sort(sa.begin(),sa.end()); std::sort(sb.begin(),sb.end()); bool e=sa==sb; vf::state(); vf::outcome(uint64_t(e)+2*vf::fnv(xi.data(),xi.size()*4)); vf::trans(2); vf::trace();
      T Tt=wobble>0?T(1e-9):T(0); R Rt=wobble>0?R(1e-9):R(0); bool g= wobble>0? A.is_permutation(B,Tt,Rt): A.is_permutation(B); VF_CHECK(g==e,e?"rearranged rows are recognised":"rows that are not a rearrangement are refused",vf::fmt("layouts %d %d ",la,lb)+vf::vec(xi)+vf::vec(yi));
      if(e){ auto p= wobble>0? A.permutation_vector(B,Tt,Rt): A.permutation_vector(B); bool ok=p.size()==r; unsigned m=0; for(unsigned i=0;ok&&i<r;++i){ ok=p[i]<r; if(ok){ m|=1u<<p[i]; ok=ra[i]==rb[p[i]]; } } VF_CHECK(ok&&m==(1u<<r)-1,"found permutation maps one list onto the other",vf::vec(xi)+vf::vec(yi)+vf::vec(p)); }
      else { std::vector<unsigned> p; bool th=vf::throws([&]{ auto q= wobble>0? A.permutation_vector(B,Tt,Rt): A.permutation_vector(B); p.assign(q.begin(),q.end()); }); VF_CHECK(th,"no permutation is found between lists that are not rearrangements",vf::vec(xi)+vf::vec(yi)+vf::vec(p)); }
    }); }); }); }); }
template<class T> void rows(const char* nm, unsigned c){ for(int r=1;r<=(vf::thorough()?6:5);++r) for(auto& p: perms(r)) vf::run(vf::fmt("rows-%s-%u-",nm,c)+vf::vec(p),[&]{ for(int la=0;la<3;++la){ std::vector<T> v; for(unsigned i=0;i<unsigned(r)*c;++i) v.push_back(T(i*3+1)); Array2<T> keep; auto A=layout(la,unsigned(r),c,v,keep); vf::state(); vf::trans(2); vf::trace();
    { std::vector<unsigned> q(p.begin(),p.end()); A.permute(q); bool ok=true; for(int i=0;i<r;++i) for(unsigned j=0;j<c;++j) ok&=A.val(unsigned(i),j)==v[p[i]*c+j]; VF_CHECK(ok,"Array2 permute",vf::vec(p)+vf::fmt(" layout %d",la)); ok=true; for(int i=0;i<r;++i) ok&=q[i]==unsigned(p[i]); VF_CHECK(ok,"Array2 permute leaves the permutation",vf::vec(p)); }
    std::vector<unsigned> inv(r); for(int i=0;i<r;++i) inv[p[i]]=i; A.permute(inv); bool ok=true; for(int i=0;i<r;++i) for(unsigned j=0;j<c;++j) ok&=A.val(unsigned(i),j)==v[i*c+j]; VF_CHECK(ok,"permuting by the inverse restores",vf::vec(p)+vf::fmt(" layout %d",la)); 
    if(la==1){ for(unsigned j=0;j<c;++j) ok&=keep.val(0,j)==T(9)&&keep.val(r+1,j)==T(9); VF_CHECK(ok,"rows outside a view are untouched",vf::vec(p)); } }
    // N dimensional
    Array<T> a(std::vector<unsigned>{unsigned(r),c,2u},T(0)); for(unsigned i=0;i<unsigned(r);++i) for(unsigned j=0;j<c;++j) for(unsigned k=0;k<2;++k) a.val(std::vector<unsigned>{i,j,k})=T(100*i+10*j+k); std::vector<unsigned> q(p.begin(),p.end()); a.permute(q); bool ok=true; for(unsigned i=0;i<unsigned(r);++i) for(unsigned j=0;j<c;++j) for(unsigned k=0;k<2;++k) ok&=a.val(std::vector<unsigned>{i,j,k})==T(100*p[i]+10*j+k); VF_CHECK(ok,"Array permute",vf::vec(p)); }); }
static void symmetries(){ typedef std::array<int,9> M; for(int n=1;n<=5;++n) for(auto& p: perms(n)) vf::run("symmetry-"+vf::vec(p),[&]{ std::vector<M> ms; for(int i=0;i<n;++i) ms.push_back(M{{i+1,0,0,0,1,i,0,0,1}}); PointSymmetry s(ms); ms=s.getall(); std::vector<size_t> q(p.begin(),p.end()); s.permute(q); vf::state(); vf::trans(2); bool ok=s.size()==size_t(n); for(int i=0;ok&&i<n;++i) ok=s.get(i)==ms[p[i]]; VF_CHECK(ok,"PointSymmetry permute",vf::vec(p)); for(int i=0;i<n;++i) q[p[i]]=i; s.permute(q); ok=true; for(int i=0;i<n;++i) ok&=s.get(i)==ms[i]; VF_CHECK(ok,"PointSymmetry permute by the inverse restores",vf::vec(p)); });
  vf::run("symmetry-refused",[&]{ for(int n=1;n<=3;++n) vf::power(n+1,n,[&](const std::vector<int>& v){ std::vector<int> s(v); std::sort(s.begin(),s.end()); bool valid=true; for(int i=0;i<n;++i) valid&=s[i]==i; if(valid) return; std::vector<M> ms; for(int i=0;i<n;++i) ms.push_back(M{{i+1,0,0,0,1,i,0,0,1}}); PointSymmetry y(ms); ms=y.getall(); std::vector<size_t> q(v.begin(),v.end()); vf::state(); vf::trans(); VF_CHECK(vf::throws([&]{ y.permute(q); }),"PointSymmetry refuses what is not a permutation",vf::vec(v)); bool same=true; for(int i=0;i<n;++i) same&=y.get(i)==ms[i]; VF_CHECK(same,"a refused permutation changes nothing",vf::vec(v)); }); }); }
static void helpers(){ 
  for(int n=1;n<=4;++n) vf::run(vf::fmt("cyclic-%d",n),[&]{ vf::power(3,n,[&](const std::vector<int>& a){ for(int m=1;m<=4;++m) vf::power(3,m,[&](const std::vector<int>& b){ vf::state(); vf::trans(); bool e=false; if(n==m) for(int k=0;k<n;++k){ bool q=true; for(int i=0;i<n;++i) q&=a[(i+k)%n]==b[i]; e|=q; } VF_CHECK(is_positive_permutation(a,b)==e,"cyclic rearrangement",vf::vec(a)+vf::vec(b)); }); }); });
  vf::run("distinct",[&]{ for(int n=1;n<=5;++n) vf::power(3,n,[&](const std::vector<int>& a){ vf::state(); vf::trans(3); std::vector<int> e; for(int x: a) if(std::find(e.begin(),e.end(),x)==e.end()) e.push_back(x); VF_CHECK(brille::unique(a)==e,"unique",vf::vec(a)); std::vector<int> r(a.rbegin(),a.rend()); VF_CHECK(brille::reverse(a)==r,"reverse",vf::vec(a)); auto re=brille::reverse_each(std::vector<std::vector<int>>{a,r,{}}); VF_CHECK(re.size()==3&&re[0]==r&&re[1]==a&&re[2].empty(),"reverse_each",vf::vec(a)); for(int v=0;v<4;++v){ auto b=a; bool had=std::find(a.begin(),a.end(),v)!=a.end(); bool added=U::add_if_missing(b,v); auto x=a; if(!had) x.push_back(v); VF_CHECK(added==!had&&b==x,"add_if_missing",vf::vec(a)); } }); });
  // insert a value between two neighbours of a ring
  vf::run("between",[&]{ for(int n=2;n<=4;++n) for(auto& p: perms(n)) for(int i=0;i<n;++i) for(int j=0;j<n;++j) for(int v=0;v<n+2;++v) for(int pre=0;pre<=n;++pre){ if(pre<n && pre!=p[i]) continue; if (pre==n && i) continue; int a= pre==n? 99: p[i]; int b=p[j]; auto x=p; vf::state(); vf::trans(); bool had=v<n; bool valid= pre<n && j==(i+1)%n; bool th=false, r=false; th=vf::throws([&]{ r=U::add_between_if_missing(x,a,b,v); }); if(had) VF_CHECK(!th&&!r&&x==p,"value already present",vf::vec(p)); else if(!valid) VF_CHECK(th&&x==p,"insertion between values that are not neighbours is refused",vf::vec(p)); else { auto e=p; e.insert(e.begin()+i+1,v); VF_CHECK(!th&&r&&x==e,"insertion between neighbours",vf::vec(p)+vf::vec(x)); } } });
  // inverting lists of lists: who appears where
  for(int nl=1;nl<=3;++nl) vf::run(vf::fmt("invert-%d",nl),[&]{ vf::power(15,nl,[&](const std::vector<int>& sets){ std::vector<std::vector<unsigned>> l; unsigned all=0; for(int s: sets){ std::vector<unsigned> x; for(unsigned k=0;k<4;++k) if((s+1)>>k&1) x.push_back(k); if(s%3==1) std::reverse(x.begin(),x.end()); all|=unsigned(s+1); l.push_back(x); } vf::state(); vf::trans(2); unsigned mx=0; for(unsigned k=0;k<4;++k) if(all>>k&1) mx=k; bool full= all==(2u<<mx)-1; auto [ok,m]=U::all_present(l); VF_CHECK(ok==full && m==(full?mx:m),"all_present",vf::vec(sets)); if(!full) return; auto inv=U::invert_lists(l); bool good=inv.size()==mx+1; for(unsigned k=0;good&&k<=mx;++k){ std::vector<unsigned> e; for(size_t i=0;i<l.size();++i) if(std::find(l[i].begin(),l[i].end(),k)!=l[i].end()) e.push_back(unsigned(i)); good=inv[k]==e; } VF_CHECK(good,"invert_lists",vf::vec(sets)); if(good){ auto back=U::invert_lists(inv); auto srt=l; for(auto& x: srt) std::sort(x.begin(),x.end()); VF_CHECK(back==srt,"inverting twice restores",vf::vec(sets)); } auto cv=U::convert_lists_type<int>(l); bool c=cv.size()==l.size(); for(size_t i=0;c&&i<l.size();++i) c=std::equal(cv[i].begin(),cv[i].end(),l[i].begin(),l[i].end(),[](int a, unsigned b){ return a==int(b); }); VF_CHECK(c,"convert_lists_type",vf::vec(sets)); }); });
  vf::run("unordered",[&]{ for(int n=1;n<=3;++n) vf::power(3,n,[&](const std::vector<int>& a){ for(int m=1;m<=3;++m) vf::power(3,m,[&](const std::vector<int>& b){ std::vector<int> c{2,2,1}; auto sa=a,sb=b,sc=c; std::sort(sa.begin(),sa.end()); std::sort(sb.begin(),sb.end()); std::sort(sc.begin(),sc.end()); vf::state(); vf::trans(); VF_CHECK(U::unordered_list_in_lists(a,{b,c})==(sa==sb||sa==sc),"unordered_list_in_lists",vf::vec(a)+vf::vec(b)); }); }); });
  vf::run("bounds",[&]{ vf::power(4,4,[&](const std::vector<int>& v){ std::array<unsigned,2> s{{unsigned(v[0]),unsigned(v[1])}}, h{{unsigned(v[2]),unsigned(v[3])}}; bool e=v[0]<v[2]&&v[1]<v[3]; vf::state(); vf::trans(3); VF_CHECK(U::subscript_ok(s,h)==e,"subscript_ok",vf::vec(v)); std::vector<unsigned> sv(s.begin(),s.end()), hv(h.begin(),h.end()); VF_CHECK(U::subscript_ok(sv,hv)==e,"subscript_ok",vf::vec(v)); sv.pop_back(); VF_CHECK(!U::subscript_ok(sv,hv),"subscript_ok of another length",vf::vec(v)); }); });
}
void vf_explore(){ bool T=vf::thorough();
  for(int n=0;n<=(T?8:6);++n) for(auto& p: perms(n)){ if(n>6 && p[0]) continue; vf::run("list-"+vf::vec(p),[&]{ std::vector<int> c(n); std::iota(c.begin(),c.end(),0); lists<int,int>("int/int",p,c); lists<double,size_t>("double/size_t",p,c); lists<std::string,unsigned>("string/unsigned",p,c); lists<std::complex<double>,long>("complex/long",p,c); lists<Thing,short>("Thing/short",p,c); moveonly<int>(p); moveonly<size_t>(p); if(n<=4) vf::power(2,n,[&](const std::vector<int>& d){ lists<int,unsigned>("int/unsigned",p,d); lists<std::string,int>("string/int",p,d); }); }); }
  rows<int>("int",1); rows<double>("double",2); rows<int>("int",3); symmetries(); helpers();
  for(unsigned r=1;r<=3;++r) for(unsigned c=1;c<=2;++c) pairs<int,int>("int",r,c,{0,1},0); pairs<int,int>("int3",3,1,{0,1,2},0); pairs<int,int>("int3",4,1,{0,1,2},0); pairs<double,double>("double",3,2,{0.,1.},0); pairs<double,double>("double",2,2,{-1.,0.25,1.},0); pairs<double,double>("wobble",3,2,{0.5,1.},1e-12); pairs<double,double>("wobble3",3,1,{-1.,0.5,1.},1e-11); pairs<int,double>("int/double",3,1,{0,1,2},0); pairs<double,int>("double/int",3,1,{0,1,2},0); pairs<int,int>("neg",2,3,{0,-1},0); if(T){ pairs<int,int>("int3",3,2,{0,1,2},0); pairs<double,double>("double4",4,2,{0.,1.},0); }
}
