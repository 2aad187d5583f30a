// M01: assignment solvers against the optimum over every permutation
#include "vf.hpp"
#include <cassert>
#include <numeric>
#include <algorithm>
#include <complex>
#include <tuple>
#include "array_.hpp"
#include "utilities.hpp"
#include "permutation.hpp"
using namespace brille;
static const std::vector<std::vector<int>>& perms(int n){ static std::vector<std::vector<std::vector<int>>> all(8); auto& p=all[n]; if(p.empty()){ std::vector<int> v(n); std::iota(v.begin(),v.end(),0); do p.push_back(v); while(std::next_permutation(v.begin(),v.end())); } return p; }
static std::string show(const double* c, int n){ return vf::vec(std::vector<double>(c,c+n*n)); }
template<class I> bool is_perm(const I* r, int n){ unsigned m=0; for(int i=0;i<n;++i){ long v=long(r[i]); if(v<0||v>=n) return false; m|=1u<<v; } return m==(1u<<n)-1; }
struct Opt{ double best, second, scale; };
static Opt optimum(const double* c, int n){ Opt o{1e308*10,0,0}; for(auto& p: perms(n)){ double s=0; for(int i=0;i<n;++i) s+=c[i*n+p[i]]; if(s<o.best) o.best=s; } for(int i=0;i<n*n;++i) o.scale+=std::abs(c[i]); return o; }
#define BAD(w,m) vf::fail((w),(m))

// eps: what the type rounds to, relative to the sum of all costs
template<class T> void hungarian(const double* c, int n, const Opt& o, double eps, const char* nm){
  std::vector<T> k(n*n); for(int i=0;i<n*n;++i) k[i]=T(c[i]);
  vf::trans(3); vf::ctx().checks+=3;
  auto judge=[&](bool ok, const size_t* a, const char* how){ if(!ok){ BAD(std::string("Munkres finished ")+nm+how,show(c,n)); return; } if(!is_perm(a,n)){ BAD(std::string("Munkres assignment is one-to-one ")+nm+how,show(c,n)); return; } double s=0; for(int i=0;i<n;++i) s+=c[i*n+a[i]]; if(s>o.best+eps*o.scale) BAD(std::string("Munkres cost is least ")+nm+how,show(c,n)+vf::fmt(" gave %.17g, least %.17g",s,o.best)); };
  size_t a[8]; std::fill(a,a+8,99u);
  { assignment::Munkres<T> m(n,k); bool ok=m.get_assignment(a); judge(ok,a,""); }
  { assignment::Munkres<T> m(n); std::copy(k.begin(),k.end(),m.get_cost().begin()); std::fill(a,a+8,99u); bool ok=m.get_assignment(a); judge(ok,a," (filled later)");
    std::copy(k.begin(),k.end(),m.get_cost().begin()); ok=m.run_assignment(); if(ok) ok=m.get_assignment(a); judge(ok,a," (run again)"); }
}
template<class I, class T> void jv(const double* c, int n, const Opt& o, double eps, const char* nm){
  std::vector<T> k(n*n); for(int i=0;i<n*n;++i) k[i]=T(c[i]);
  std::vector<T> u(n),v(n); std::vector<I> r(n,I(77)), q(n,I(77)); vf::trans(3); vf::ctx().checks+=5;
  T got=assignment::lapjv(I(n),k.data(),false,r.data(),q.data(),u.data(),v.data());
  auto judge=[&](const I* a, const char* how){ if(!is_perm(a,n)){ BAD(std::string("JV assignment is one-to-one ")+nm+how,show(c,n)); return 0.; } double s=0; for(int i=0;i<n;++i) s+=c[i*n+a[i]]; 
    if(s>o.best+eps*o.scale+ n*1e-4*o.scale) BAD(std::string("JV cost is least ")+nm+how,show(c,n)+vf::fmt(" gave %.17g, least %.17g",s,o.best)); return s; };
  double s=judge(r.data(),""); if (is_perm(r.data(),n)) { for(int i=0;i<n;++i) if(long(q[r[i]])!=i) BAD(std::string("JV rows and columns are inverse ")+nm,show(c,n)); if(std::abs(double(got)-s)>1e-6*o.scale) BAD(std::string("JV returned cost ")+nm,show(c,n)); }
  std::vector<I> r2,q2; std::vector<T> kc(k); jv_permutation_fill(kc,r2,q2); if (int(r2.size())!=n||int(q2.size())!=n) BAD("jv_permutation_fill size",show(c,n)); else { judge(r2.data()," (jv_permutation_fill)"); for(int i=0;i<n;++i) if(!(long(r2[i])>=0 && long(r2[i])<n) || long(q2[r2[i]])!=i) BAD("jv_permutation_fill rows and columns are inverse",show(c,n)); }
  std::vector<I> r3(n+3); jv_permutation_fill(kc,r3); if(int(r3.size())!=n) BAD("jv_permutation_fill size",show(c,n)); else judge(r3.data()," (jv_permutation_fill, rows only)"); 
}
template<class I, class T> void stable(const double* c, int n, const char* nm){
  std::vector<T> k(n*n); for(int i=0;i<n*n;++i) k[i]=T(c[i]); std::vector<I> r(n,I(77)), q(n,I(77)); vf::trans(); vf::ctx().checks+=3;
  int ret=assignment::smp(I(n),k.data(),r.data(),q.data(),false); (void)ret;
  if(!is_perm(r.data(),n)){ BAD(std::string("stable matching is one-to-one ")+nm,show(c,n)); return; }
  for(int i=0;i<n;++i) if(long(q[r[i]])!=i){ BAD(std::string("stable matching rows and columns are inverse ")+nm,show(c,n)); return; }
  for(int i=0;i<n;++i) for(int j=0;j<n;++j) if(c[i*n+j]<c[i*n+r[i]] && c[i*n+j]<c[q[j]*n+j]) BAD(std::string("matching is stable ")+nm,show(c,n)+vf::fmt(" row %d and column %d prefer each other",i,j));
}
static void matrix(const double* c, int n, int level){
  vf::state(); vf::trace(); Opt o=optimum(c,n); vf::outcome(uint64_t(o.best*1024)+n*7777777);
  hungarian<double>(c,n,o,1e-13,"double"); jv<int,double>(c,n,o,1e-13,"double"); stable<size_t,double>(c,n,"double");
  if(level>0){ hungarian<float>(c,n,o,1e-5,"float"); jv<int,float>(c,n,o,1e-5,"float"); jv<long long,double>(c,n,o,1e-13,"double/long"); stable<int,float>(c,n,"float"); }
  if(level<0 || level>1) jv<int,int>(c,n,o,0,"int"); if(level>1){ hungarian<int>(c,n,o,0,"int"); stable<unsigned,int>(c,n,"int"); }
}
static void all(const char* nm, int n, const std::vector<double>& al, int level, int lead){ // every n x n matrix over the alphabet
  int b=int(al.size()); vf::power(b,lead,[&](const std::vector<int>& h){ std::string id=vf::fmt("%s-%d",nm,n); for(int x:h) id+="-"+std::to_string(x); vf::run(id,[&]{ double c[49]; for(int i=0;i<lead;++i) c[i]=al[h[i]]; vf::power(b,n*n-lead,[&](const std::vector<int>& t){ for(size_t i=0;i<t.size();++i) c[lead+i]=al[t[i]]; matrix(c,n,level); }); }); }); }
// every matrix whose rows are all orderings of distinct costs: all preference profiles
static void profiles(const char* nm, int n, const std::vector<double>& al, int level){ auto& p=perms(n); int b=int(p.size());
  vf::power(b,2,[&](const std::vector<int>& h){ vf::run(vf::fmt("%s-%d-%d-%d",nm,n,h[0],h[1]),[&]{ double c[49]; vf::power(b,n-2,[&](const std::vector<int>& t){ for(int i=0;i<n;++i) for(int j=0;j<n;++j) c[i*n+j]=al[p[i<2?h[i]:t[i-2]][j]]; matrix(c,n,level); }); }); }); }
// every matrix whose rows are taken from nb patterns; larger problems, where several augmenting paths follow each other
static void patterns(const char* nm, int n, int nb, int mod, int level){ vf::power(nb,2,[&](const std::vector<int>& h){ vf::run(vf::fmt("%s-%d-%d-%d",nm,n,h[0],h[1]),[&]{ auto pat=[&](int k, int j){ return double((k*k*3+(k+2)*j*j+j*(k%3+1)+k/2)%mod+(j==k%n?0:1)); }; double c[64]; vf::power(nb,n-2,[&](const std::vector<int>& t){ for(int i=0;i<n;++i) for(int j=0;j<n;++j) c[i*n+j]=pat(i<2?h[i]:t[i-2],j); matrix(c,n,level); }); }); }); }
// the permutations stored from data at two points, composed with the neighbour's permutation
template<class T> void data(const char* nm, const std::vector<T>& al, const std::array<unsigned,3>& nel, int nobj, int fn, int maxv){
  unsigned span=nel[0]+nel[1]+nel[2]; int tot=int(span)*nobj*2; double full=std::pow(double(al.size()),tot); (void)full; (void)maxv;
  typedef typename CostTraits<T>::type R;
  int lead=std::min(tot,2);
  vf::power(int(al.size()),lead,[&](const std::vector<int>& h){ vf::run(vf::fmt("data-%s-%d-%d-%d",nm,fn,h[0],h[1]),[&]{ std::vector<T> x(tot); for(int i=0;i<lead;++i) x[i]=al[h[i]];
    vf::power(int(al.size()),tot-lead,[&](const std::vector<int>& t){ for(size_t i=0;i<t.size();++i) x[lead+i]=al[t[i]]; vf::state(); vf::trace(); vf::trans(4);
      const T* a=x.data(); const T* b=x.data()+span*nobj; std::vector<double> c(nobj*nobj); double ws=1.5, wv=2, wm=0.5; bool unorm=false;
      for(int i=0;i<nobj;++i) for(int j=0;j<nobj;++j){ const T *p=a+i*span, *q=b+j*span; double s=0,v=0,m=0; for(unsigned k=0;k<nel[0];++k) s+=std::abs(p[k]-q[k]); p+=nel[0]; q+=nel[0];
        if(nel[1]){ double na=0,nb=0,d2=0; std::complex<double> hh=0; double re=0; for(unsigned k=0;k<nel[1];++k){ na+=std::norm(p[k]); nb+=std::norm(q[k]); d2+=std::norm(p[k]-q[k]); std::complex<double> z=std::conj(std::complex<double>(p[k]))*std::complex<double>(q[k]); hh+=z; re+=z.real(); }
          bool cx=!std::is_same<T,R>::value; double h=cx?std::abs(hh):re; auto cs=[&](double w){ return (na>0&&nb>0)?w/std::sqrt(na*nb):(na>0||nb>0)?0.:1.; };
          if(fn==0) v=std::abs(std::sin(std::acos(std::max(-1.,std::min(1.,cs(h)))))); if(fn==1) v=std::sqrt(d2); if(fn==2){ v=1-(cx?h*h:h); if(v<0) unorm=true; } if(fn==3) v=std::acos(std::max(-1.,std::min(1.,cs(re)))); }
        p+=nel[1]; q+=nel[1]; for(unsigned k=0;k<nel[2];++k) m+=std::norm(p[k]-q[k]); m=std::sqrt(m); c[i*nobj+j]=ws*s+wv*v+wm*m; }
      if(unorm) return; Opt o=optimum(c.data(),nobj);
      for(auto& base: perms(nobj)) for(int which=0;which<4;++which){ bArray<size_t> store(2u,unsigned(nobj),size_t(0)); for(int i=0;i<nobj;++i) store.val(1,i)=base[i]; 
        bool ok=true; std::array<unsigned,3> ne(nel), none{{0,0,0}}; 
        if(which==0) ok=munkres_permutation(a,b,ne,R(ws),R(wv),R(wm),span,nobj,store,0,1,fn); else if(which==1) ok=jv_permutation(a,b,ne,R(ws),R(wv),R(wm),span,nobj,store,0,1,fn);
        else if (which==2) ok=jv_permutation(a,a,b,b,none,ne,R(ws),R(wv),R(wm),size_t(0),size_t(span),nobj,store,0,1,fn); else ok=sm_permutation(a,b,ne,R(ws),R(wv),R(wm),span,nobj,store,0,1,fn);
        std::string w=which==3?"sm_permutation":which==0?"munkres_permutation":which==1?"jv_permutation":"jv_permutation of two arrays"; std::string m=vf::str(a[0])+"...";
        if(!ok){ BAD(w+" reports failure",m); continue; } size_t r[8],as[8]; for(int i=0;i<nobj;++i) r[i]=store.val(0,i); if(!is_perm(r,nobj)){ BAD(w+" stored a permutation",m+vf::vec(c)); continue; }
        for(int i=0;i<nobj;++i) as[r[i]]=base[i]; if(which==3){ for(int i=0;i<nobj;++i) for(int j=0;j<nobj;++j){ int jr=0; while(int(as[jr])!=j) ++jr; if(c[i*nobj+j]<c[i*nobj+as[i]]-1e-7 && c[i*nobj+j]<c[jr*nobj+j]-1e-7) BAD(w+" is stable",m+vf::vec(c)); } continue; } double s=0; for(int i=0;i<nobj;++i) s+=c[i*nobj+as[i]]; if(s>o.best+(nobj*1e-4+1e-6)*o.scale) BAD(w+" composes the least-cost assignment with the neighbour's permutation",m+vf::vec(c)+vf::fmt(" %g %g",s,o.best)); }
    }); }); }); }

void vf_explore(){ bool T=vf::thorough();
  all("int",1,{0,1,2,-3},2,1); all("int",2,{0,1,2,3,7},2,2); all("int",3,{0,1,2},2,3); all("int",3,T?std::vector<double>{0,1,2,5,8}:std::vector<double>{0,1,3,5},-1,3); all("bin",4,{0,1},2,4);
  all("real",2,{0.,.1,.2,.3,1e-10,1e5},1,2); all("real",3,{.1,.2,.30000000000000004},1,3); all("tiny",3,{1e-300,2e-300,5e-300},0,3); all("huge",3,{1e300,2e300,5e299},0,3); all("mixed",3,{0,1e-6,1},1,3); all("close",3,{1,1+1e-15,1+3e-16},0,3);
  all("neg",2,{-2,-1,0,1},2,2); all("neg",3,{-2,0,1},2,3); all("neg",3,{-5,-4,-2},2,3);
  profiles("profile",3,{1,2,3},2); profiles("profile",3,{0.5,0.6,7.25},1); profiles("profile",4,{1,2,3,4},-1); profiles("profile",4,{-9,-4,-2,-1},0); profiles("profile",4,{0,1,3,7},-1); profiles("profile",4,{0.1,0.35,0.4,2},T?1:0);
  if(T){ all("tern",4,{0,1,2},0,5); all("bin",5,{0,1},0,8); all("neg",4,{-1,1},2,4); profiles("profile",4,{-3,-1,0,2},0); }
  else { all("neg",4,{-1,1},0,4); // the last two rows from a few
    vf::power(3,4,[&](const std::vector<int>& h){ vf::run(vf::fmt("tern-%d%d%d%d",h[0],h[1],h[2],h[3]),[&]{ double c[25]; for(int i=0;i<4;++i) c[i]=h[i]; vf::power(3,8,[&](const std::vector<int>& t){ for(int i=0;i<8;++i) c[4+i]=t[i]; for(int k=0;k<4;++k) c[12+k]=(t[k]+h[k]+k)%3; matrix(c,4,-1); }); }); }); }
  patterns("patterns7",5,T?16:10,7,-1); patterns("patterns3",5,T?16:10,3,-1); patterns("patterns11",6,T?9:6,11,-1); patterns("patterns5",6,T?9:6,5,-1);
  typedef std::complex<double> C; std::vector<C> ca{C(0,0),C(1,0),C(0,1)}; std::vector<C> cb{C(1,0),C(0.6,0.8),C(0,-1)};
  data<double>("s1",{0,1,2.5,-1},{{1,0,0}},2,0,0); data<double>("s1x3",{0,1,2.5},{{1,0,0}},3,0,0); for(int f=0;f<4;++f){ data<double>("v2",{0,1,-1},{{0,2,0}},2,f,0); data<C>("cv1",cb,{{0,1,0}},2,f,0); data<C>("cv1z",ca,{{0,1,0}},3,f,0); data<C>("mix",T?cb:std::vector<C>{cb[0],cb[1]},{{1,1,0}},2,f,0); }
  data<double>("m4",{0,1},{{0,0,4}},2,0,0); data<C>("cs",ca,{{2,0,0}},2,0,0); data<double>("smm",{0.,1.},{{1,0,1}},3,0,0);
}
