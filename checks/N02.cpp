// N02: small-matrix, vector, angle and integer helpers against exact arithmetic
#include "vf.hpp"
#include <cassert>
#include <numeric>
#include <complex>
#include <algorithm>
#include "math.hpp"
#include "utilities.hpp"
#include "linear_algebra.hpp"
using namespace brille;
namespace U = brille::utils;
namespace LA = brille::linear_algebra;
typedef long double L;
template<class T> std::string sv(const T* p, int n){ std::vector<double> v; for(int i=0;i<n;++i) v.push_back(double(p[i])); return vf::vec(v); }
static bool near(L a, L b, L s=1){ return fabsl(a-b) <= 1e-12L*std::max<L>(s,1); }
static long detn(const long* m, int n){ if(n==1) return m[0]; long d=0; for(int c=0;c<n;++c){ long q[9]; int k=0; for(int i=1;i<n;++i) for(int j=0;j<n;++j) if(j!=c) q[k++]=m[i*n+j]; d+=((c%2)?-1:1)*m[c]*detn(q,n-1);} return d; }
static void adjn(const long* m, int n, long* a){ for(int i=0;i<n;++i) for(int j=0;j<n;++j){ long q[9]={1}; int k=0; for(int r=0;r<n;++r) for(int c=0;c<n;++c) if(r!=i&&c!=j) q[k++]=m[r*n+c]; long d= n==1?1:detn(q,n-1); a[j*n+i]=((i+j)%2?-d:d);} }

template<int N> void matrix(const long* m){
  int mi[N*N]; double md[N*N]; float mf[N*N]; for(int i=0;i<N*N;++i){ mi[i]=int(m[i]); md[i]=double(m[i]); mf[i]=float(m[i]); }
  long d=detn(m,N), adj[N*N]; adjn(m,N,adj);
  std::string id=sv(m,N*N);
  vf::state(); vf::trans(14); vf::trace(); vf::outcome(uint64_t(d+1000));
  VF_CHECK(U::matrix_determinant(mi,N)==d,"determinant",id); VF_CHECK(U::matrix_determinant(md,N)==double(d),"determinant",id); VF_CHECK(U::matrix_determinant(mf,N)==float(d),"determinant",id);
  { int a[N*N]; U::matrix_adjoint(a,mi,N); bool ok=true; for(int i=0;i<N*N;++i) ok&=a[i]==adj[i]; VF_CHECK(ok,"adjoint",id+" gave "+sv(a,N*N)); }
  if (d==1||d==-1){ int v[N*N]; bool r=U::matrix_inverse(v,mi,0,N); bool ok=r; for(int i=0;i<N*N;++i) ok&=v[i]==adj[i]*d; VF_CHECK(ok,"integer inverse",id+" gave "+sv(v,N*N)); }
  if (d==0){ int v[N*N]; VF_CHECK(!U::matrix_inverse(v,mi,0,N),"singular matrix inverted",id); }
  for (double tol: {0.,0.5,1.5,4.5}) { double v[N*N]; std::fill(v,v+N*N,7.); bool r=U::matrix_inverse(v,md,tol,N); VF_CHECK(r==(std::abs(double(d))>tol),"inverse reports singularity",id); if(r){ bool ok=true; for(int i=0;i<N*N;++i) ok&=near(v[i],L(adj[i])/d); VF_CHECK(ok,"inverse",id+" gave "+sv(v,N*N)); }
    double w[N*N]; VF_CHECK(U::matrix_determinant_and_inverse(w,md,tol,N)==double(d),"determinant and inverse",id); }
  if (d){ std::array<double,N*N> a; std::copy(md,md+N*N,a.begin()); auto v=LA::mat_inverse(a); bool ok=true; for(int i=0;i<N*N;++i) ok&=near(v[i],L(adj[i])/d); VF_CHECK(ok,"mat_inverse",id); auto e=LA::mul_mat_mat(a,v); auto f=LA::mul_mat_mat(v,a); for(int i=0;i<N*N;++i) ok&=near(e[i],i%(N+1)==0)&&near(f[i],i%(N+1)==0); VF_CHECK(ok,"inverse times matrix",id); }
  { std::array<double,N*N> a; std::copy(md,md+N*N,a.begin()); auto [ok,det,lu]=LA::LU_decomposition(a); (void)lu; if (d) VF_CHECK(ok&&near(det,d),"LU determinant",id+" gave "+vf::str(det)); else VF_CHECK(near(det,0),"LU determinant",id+" gave "+vf::str(det)); }
  { int t[N*N], u[N*N]; U::matrix_transpose<int,N>(t,mi); bool ok=true; for(int i=0;i<N;++i) for(int j=0;j<N;++j) ok&=t[j*N+i]==mi[i*N+j]; VF_CHECK(ok,"transpose",id);
    int w[N*N+8]; std::fill(w,w+N*N+8,99); std::copy(mi,mi+N*N,w); U::matrix_transpose<int,N>(w); ok=true; for(int i=0;i<N;++i) for(int j=0;j<N;++j) ok&=w[j*N+i]==mi[i*N+j]; for(int i=0;i<8;++i) ok&=w[N*N+i]==99; VF_CHECK(ok,"transpose in place",id);
    U::matrix_metric<int,N>(u,mi); ok=true; for(int i=0;i<N;++i) for(int j=0;j<N;++j){ int s=0; for(int k=0;k<N;++k) s+=mi[k*N+i]*mi[k*N+j]; ok&=u[i*N+j]==s; } VF_CHECK(ok,"metric",id); 
    int tr=0; for(int i=0;i<N;++i) tr+=mi[i*(N+1)]; VF_CHECK((U::trace<int,N>(mi)==tr),"trace",id);
    int cp[N*N]; U::copy_matrix<int,N>(cp,mi); VF_CHECK((std::equal(cp,cp+N*N,mi)),"copy",id); double cd[N*N]; U::cast_matrix<double,int,N>(cd,mi); VF_CHECK((std::equal(cd,cd+N*N,md)),"cast",id); for(int i=0;i<N*N;++i) cd[i]+= (i%2?1e-9:-1e-9); int ci[N*N]; U::cast_matrix<int,double,N>(ci,cd); VF_CHECK((std::equal(ci,ci+N*N,mi)),"cast to integer rounds",id);
    VF_CHECK((U::is_int_matrix<double,double,N>(cd,1e-8)),"is_int_matrix",id); VF_CHECK((!U::is_int_matrix<double,double,N>(cd,1e-10)),"is_int_matrix",id); VF_CHECK((U::equal_matrix<double,N>(cd,md,1e-8)&&!U::equal_matrix<double,N>(cd,md,1e-10)),"equal_matrix",id); }
  { std::vector<double> x(md,md+N*N); if (N==3){ std::array<double,9> a; std::copy(md,md+9,a.begin()); auto t=transpose(a); bool ok=true; for(int i=0;i<3;++i) for(int j=0;j<3;++j) ok&=t[j*3+i]==md[i*3+j]; VF_CHECK(ok,"transpose of an array",id); } }
}
template<int N> void product(const long* a, const long* b){ long c[N*N]; for(int i=0;i<N;++i) for(int j=0;j<N;++j){ c[i*N+j]=0; for(int k=0;k<N;++k) c[i*N+j]+=a[i*N+k]*b[k*N+j]; }
  vf::state(); vf::trans(8); vf::trace(); int ai[N*N],bi[N*N],r[N*N]; double ad[N*N],bd[N*N],rd[N*N]; for(int i=0;i<N*N;++i){ ai[i]=int(a[i]); bi[i]=int(b[i]); ad[i]=a[i]; bd[i]=b[i]; } 
  auto ok=[&](auto* p){ for(int i=0;i<N*N;++i) if(p[i]!=c[i]) return false; return true; }; auto id=[&]{ return sv(a,N*N)+"*"+sv(b,N*N); };
#define OK(e,w) do{ vf::ctx().checks++; if(!(e)) vf::fail(w,id()); }while(0)
  U::multiply_matrix_matrix<int,int,int,N>(r,ai,bi); OK(ok(r),"matrix*matrix"); U::multiply_matrix_matrix<double,int,double,N>(rd,ai,bd); OK(ok(rd),"matrix*matrix mixed"); U::mul_mat_mat(rd,N,ad,bd); OK(ok(rd),"mul_mat_mat");
  std::array<int,N*N> A,B; std::copy(ai,ai+N*N,A.begin()); std::copy(bi,bi+N*N,B.begin()); auto C=LA::mul_mat_mat(A,B); OK(ok(C.data()),"mul_mat_mat of arrays");
  OK(U::matrix_determinant(r,N)==U::matrix_determinant(ai,N)*U::matrix_determinant(bi,N),"determinants multiply");
  U::add_matrix<int,int,int,N>(r,ai,bi); bool s=true; for(int i=0;i<N*N;++i) s&=r[i]==a[i]+b[i]; OK(s,"add"); U::subtract_matrix<int,int,int,N>(r,ai,bi); s=true; for(int i=0;i<N*N;++i) s&=r[i]==a[i]-b[i]; OK(s,"subtract");
  long db=detn(b,N); double M[N*N]; bool sm=U::similar_matrix<double,N>(M,ad,bd,0.); OK(sm==(db!=0),"similar_matrix reports"); if(sm){ long adj[N*N],q[N*N]; adjn(b,N,adj); for(int i=0;i<N;++i) for(int j=0;j<N;++j){ q[i*N+j]=0; for(int k=0;k<N;++k) q[i*N+j]+=adj[i*N+k]*c[0]*0+adj[i*N+k]*[&]{ long z=0; for(int l=0;l<N;++l) z+=a[k*N+l]*b[l*N+j]; return z; }(); } s=true; for(int i=0;i<N*N;++i) s&=near(M[i],L(q[i])/db); OK(s,"similar matrix B^-1 A B"); }
  // first column of b as a vector
  int v[N],o[N]; for(int i=0;i<N;++i) v[i]=bi[i*N]; U::multiply_matrix_vector<int,int,int,N>(o,ai,v); s=true; for(int i=0;i<N;++i) s&=o[i]==c[i*N]; OK(s,"matrix*vector"); U::mul_mat_vec(o,N,ai,v); for(int i=0;i<N;++i) s&=o[i]==c[i*N]; OK(s,"mul_mat_vec"); std::copy(v,v+N,o); U::mul_mat_vec_inplace(size_t(N),ai,o); for(int i=0;i<N;++i) s&=o[i]==c[i*N]; OK(s,"mul_mat_vec_inplace");
  std::array<int,N> V; std::copy(v,v+N,V.begin()); auto w=LA::mul_mat_vec(A,V); for(int i=0;i<N;++i) s&=w[i]==c[i*N]; OK(s,"mul_mat_vec of arrays");
  int rv[N]; for(int i=0;i<N;++i) rv[i]=ai[i]; U::multiply_vector_matrix<int,int,int,N>(o,rv,bi); for(int i=0;i<N;++i) s&=o[i]==c[i]; OK(s,"vector*matrix"); U::mul_vec_mat(o,N,rv,bi); for(int i=0;i<N;++i) s&=o[i]==c[i]; OK(s,"mul_vec_mat");
  if constexpr(N==3){ std::array<int,3> RV{{rv[0],rv[1],rv[2]}}; auto z=LA::mul_vec_mat(RV,B); for(int i=0;i<3;++i) s&=z[i]==c[i]; OK(s,"mul_vec_mat of arrays"); }
#undef OK
}
typedef std::complex<double> C;
template<class F> void cases(const char* nm, int base, int len, int parts, F f){ // parts cases by leading digits
  int lead=0, tot=1; while(tot*base<=parts && lead<len){ tot*=base; ++lead; }
  vf::power(base,lead,[&](const std::vector<int>& h){ std::string id=nm; for(int x:h) id+="-"+std::to_string(x); vf::run(id,[&]{ vf::power(base,len-lead,[&](const std::vector<int>& t){ std::vector<int> a(h); a.insert(a.end(),t.begin(),t.end()); f(a); }); }); }); }
static void put(const std::vector<int>& a, int off, long* m){ for(size_t i=0;i<a.size();++i) m[i]=a[i]+off; }

void vectors3(){ cases("vectors3",5,6,25,[&](const std::vector<int>& i){ int a[3],b[3]; double x[3],y[3]; float fa[3],fb[3]; for(int k=0;k<3;++k){ a[k]=i[k]-2; b[k]=i[k+3]-2; x[k]=a[k]*0.5; y[k]=b[k]*1.5; fa[k]=float(x[k]); fb[k]=float(y[k]); }
  vf::state(); vf::trans(10); vf::trace(); std::string id=sv(a,3)+sv(b,3); int c[3]; long e[3]={a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]};
  U::vector_cross(c,a,b); VF_CHECK(c[0]==e[0]&&c[1]==e[1]&&c[2]==e[2],"cross",id); double cd[3]; U::vector_cross<double,int,double,3>(cd,a,y); VF_CHECK(cd[0]==e[0]*1.5&&cd[1]==e[1]*1.5&&cd[2]==e[2]*1.5,"cross of mixed types",id);
  int d=a[0]*b[0]+a[1]*b[1]+a[2]*b[2], na=a[0]*a[0]+a[1]*a[1]+a[2]*a[2], nb=b[0]*b[0]+b[1]*b[1]+b[2]*b[2];
  VF_CHECK((U::vector_dot<int,3>(a,b)==d),"dot",id); VF_CHECK((U::vector_dot<double>(size_t(3),a,y)==d*1.5),"dot of mixed types",id); VF_CHECK((U::vector_norm_squared<int,3>(a)==na),"norm squared",id); VF_CHECK((U::vector_product(3u,x,y)==d*0.75),"vector product",id); VF_CHECK((U::hermitian_product(3u,x,y)==d*0.75),"hermitian product",id);
  L ds=0; for(int k=0;k<3;++k) ds+=(L(x[k])-y[k])*(L(x[k])-y[k]); VF_CHECK(near(U::vector_distance(3,x,y),sqrtl(ds)),"distance",id);
  std::array<double,3> X{{x[0],x[1],x[2]}}; std::array<double,3> Y{{y[0],y[1],y[2]}}; VF_CHECK(LA::dot(X,Y)==d*0.75,"dot of arrays",id); VF_CHECK(near(LA::norm(X),0.5L*sqrtl(na)),"norm of an array",id); if(na){ auto h=LA::hat(X); bool ok=true; for(int k=0;k<3;++k) ok&=near(h[k],a[k]/sqrtl(na)); VF_CHECK(ok,"unit vector",id); }
  std::vector<double> vx(x,x+3), vy(y,y+3); VF_CHECK(LA::dot(vx,vy)==d*0.75,"dot of vectors",id); VF_CHECK(near(LA::norm(vx),0.5L*sqrtl(na)),"norm of a vector",id);
  L ang= (na&&nb)? acosl(std::max<L>(-1,std::min<L>(1,d/sqrtl(L(na)*nb)))) : (na||nb)? acosl(0): 0; double g=U::vector_angle(3,x,y); VF_CHECK(fabsl(g-ang)<1e-7L,"angle",id+" gave "+vf::str(g)); VF_CHECK(fabsl(U::hermitian_angle(3,x,y)-ang)<1e-7L,"hermitian angle of real vectors",id); float gf=U::vector_angle(3,fa,fb); VF_CHECK(fabsl(gf-ang)<2e-3L,"angle (float)",id+" gave "+vf::str(gf)); }); }
void complexes(){ static const C al[]={C(0,0),C(1,0),C(0,1),C(-1,0),C(1,-2),C(.5,.5)}; cases("complex",6,4,36,[&](const std::vector<int>& i){ C a[2]={al[i[0]],al[i[1]]}, b[2]={al[i[2]],al[i[3]]}; vf::state(); vf::trans(12); vf::trace(); std::string id=vf::vec(i);
  auto mul=[](C x,C y){ return C(x.real()*y.real()-x.imag()*y.imag(), x.real()*y.imag()+x.imag()*y.real()); }; auto cj=[](C x){ return C(x.real(),-x.imag()); }; auto nr=[](C x,C y){ return std::abs(x-y)<1e-12; };
  C h=mul(cj(a[0]),b[0])+mul(cj(a[1]),b[1]); double na=0,nb=0,re=0,ds=0; for(int k=0;k<2;++k){ na+=std::norm(a[k]); nb+=std::norm(b[k]); re+=mul(cj(a[k]),b[k]).real(); ds+=std::norm(a[k]-b[k]); }
  VF_CHECK(nr(U::hermitian_product(2u,a,b),h),"hermitian product",id); VF_CHECK(near(U::vector_product(2u,a,b),std::norm(h)),"vector product",id); double rb[2]={b[0].real(),b[1].real()}, ra[2]={a[0].real(),a[1].real()};
  VF_CHECK(nr(U::hermitian_product(2u,a,rb),cj(a[0])*rb[0]+cj(a[1])*rb[1]),"hermitian product, real second",id); VF_CHECK(nr(U::hermitian_product(2u,ra,b),b[0]*ra[0]+b[1]*ra[1]),"hermitian product, real first",id); VF_CHECK(near(U::vector_product(2u,a,rb),std::norm(cj(a[0])*rb[0]+cj(a[1])*rb[1])),"vector product, real second",id);
  VF_CHECK(near(U::vector_product(2u,ra,b),std::norm(b[0]*ra[0]+b[1]*ra[1])),"vector product, real first",id);
  VF_CHECK(near(U::vector_distance(2u,a,b),std::sqrt(ds)),"distance",id); VF_CHECK(near(U::squared_distance(a[0],b[0]),std::norm(a[0]-b[0])),"squared distance",id); VF_CHECK(near(U::magnitude(a[0]),std::abs(a[0])),"magnitude",id);
  auto ac=[&](double c){ return (na>0&&nb>0)? acosl(std::max<L>(-1,std::min<L>(1,c/sqrtl(L(na)*nb)))) : (na>0||nb>0)? acosl(0):0.L; };
  VF_CHECK(fabsl(U::vector_angle(2u,a,b)-ac(re))<1e-7L,"angle",id); VF_CHECK(fabsl(U::euclidean_angle(2u,a,b)-ac(re))<1e-7L,"euclidean angle",id); VF_CHECK(fabsl(U::hermitian_angle(2u,a,b)-ac(std::abs(h)))<1e-7L,"hermitian angle",id);
  C p=U::antiphase(2u,a,b); VF_CHECK(near(std::abs(p),1),"antiphase has unit size",id); if(std::abs(h)>1e-9){ C q=mul(p,h); VF_CHECK(near(q.imag(),0)&&near(q.real(),std::abs(h)),"antiphase makes the product real and positive",id); C z=U::antiphase(h); VF_CHECK(nr(z,p),"antiphase of the product",id); }
  C out[2]; U::inplace_antiphase(2u,a,b,out); VF_CHECK(nr(out[0],mul(p,b[0]))&&nr(out[1],mul(p,b[1])),"inplace antiphase",id);
  // matrix products with complex elements, 2x2 from the four values
  C m[4]={a[0],a[1],b[0],b[1]}, n[4]={b[1],a[0],a[1],b[0]}, r[4]; double rr[4]={1,2,-1,.5}; auto chk=[&](auto* x, auto* y, const char* w){ bool ok=true; for(int s=0;s<2;++s) for(int t=0;t<2;++t){ C e=mul(C(x[s*2]),C(y[t]))+mul(C(x[s*2+1]),C(y[2+t])); ok&=nr(e,r[s*2+t]); } VF_CHECK(ok,w,id); };
  U::mul_mat_mat(r,2u,m,n); chk(m,n,"complex matrix product"); U::mul_mat_mat(r,2u,rr,n); chk(rr,n,"real*complex matrix product"); U::mul_mat_mat(r,2u,m,rr); chk(m,rr,"complex*real matrix product");
  C f[4]; U::complex_conj_matrix_transpose<double,2>(f,m); VF_CHECK(f[0]==cj(m[0])&&f[1]==cj(m[2])&&f[2]==cj(m[1])&&f[3]==cj(m[3]),"conjugate transpose",id); VF_CHECK(near(U::frobenius_distance(2u,m,n),std::sqrt(std::norm(m[0]-n[0])+std::norm(m[1]-n[1])+std::norm(m[2]-n[2])+std::norm(m[3]-n[3]))),"frobenius distance",id); }); }
void rectangular(){ for(int n=1;n<=3;++n) for(int l=1;l<=3;++l) for(int m=1;m<=3;++m) vf::run(vf::fmt("rect-%d-%d-%d",n,l,m),[&]{ std::vector<int> A(n*l),B(l*m); std::iota(A.begin(),A.end(),-3); std::iota(B.begin(),B.end(),2); std::vector<long> c(n*m+2,99); vf::state(); vf::trans(); U::mul_arrays(c.data(),n,l,m,A.data(),B.data()); bool ok=c[n*m]==99; for(int i=0;i<n;++i) for(int j=0;j<m;++j){ long e=0; for(int k=0;k<l;++k) e+=long(A[i*l+k])*B[k*m+j]; ok&=e==c[i*m+j]; } VF_CHECK(ok,"rectangular product",""); });
  vf::run("rect-fixed",[&]{ int A[6]={1,2,3,4,5,6},B[6]={7,8,9,10,11,12},c[4],t[6]; vf::state(); vf::trans(2); U::multiply_arrays<int,int,int,2,3,2>(c,A,B); VF_CHECK(c[0]==58&&c[1]==64&&c[2]==139&&c[3]==154,"multiply_arrays",""); U::array_transpose<int,2,3>(t,A); VF_CHECK(t[0]==1&&t[1]==4&&t[2]==2&&t[3]==5&&t[4]==3&&t[5]==6,"array_transpose",sv(t,6)); }); }
void integers(){ for(unsigned hi=0;hi<8;++hi) vf::run(vf::fmt("gcd-%u",hi),[&]{ for(unsigned a=hi;a<256;a+=8) for(unsigned b=0;b<256;++b){ unsigned g=a,h=b; while(h){ unsigned t=g%h; g=h; h=t; } vf::state(); vf::trans(3); VF_CHECK(U::gcd(a,b)==g,"gcd",vf::fmt("%u %u",a,b)); VF_CHECK(U::gcd((unsigned char)a,(unsigned char)b)==(unsigned char)g,"gcd of bytes",vf::fmt("%u %u",a,b)); VF_CHECK(U::gcd((unsigned long long)a<<40,(unsigned long long)b<<40)==(unsigned long long)g<<40,"gcd",vf::fmt("%u %u <<40",a,b)); } });
  for(unsigned n=0;n<=300;++n) vf::run(vf::fmt("binomial-%u",n),[&]{ std::vector<unsigned __int128> row{1}; unsigned __int128 cap=(unsigned __int128)1<<100; for(unsigned i=1;i<=n;++i){ row.push_back(0); for(unsigned k=i;k>0;--k){ row[k]+=row[k-1]; if(row[k]>cap) row[k]=cap; } }
    for(unsigned k=0;k<=n;++k) if(row[k]<((unsigned __int128)1<<64)){ vf::state(); vf::trans(2); unsigned long long e=(unsigned long long)row[k]; auto g=U::binomial_coefficient(n,k); VF_CHECK(g==e,"binomial coefficient",vf::fmt("C(%u,%u) gave %llu expected %llu",n,k,(unsigned long long)g,e)); auto g2=U::binomial_coefficient(size_t(n),(unsigned short)k); VF_CHECK(g2==e,"binomial coefficient (size_t, short)",vf::fmt("C(%u,%u)",n,k)); } VF_CHECK(vf::throws([&]{ U::binomial_coefficient(n,n+1); }),"impossible choice refused",""); });
  for (unsigned n: {1000u,5000u,60000u,2000000u}) vf::run(vf::fmt("binomial-big-%u",n),[&]{ unsigned __int128 c=1; for(unsigned k=1;k<=4;++k){ c=c*(n-k+1)/k; if(c<((unsigned __int128)1<<64)){ VF_CHECK(U::binomial_coefficient(n,k)==(unsigned long long)c,"binomial coefficient",vf::fmt("C(%u,%u)",n,k)); VF_CHECK(U::binomial_coefficient(n,n-k)==(unsigned long long)c,"binomial coefficient",vf::fmt("C(%u,%u)",n,n-k)); } } }); }
template<class T> void trig(const char* nm, L tol){ for(int part=0;part<8;++part) vf::run(std::string("trig-")+nm+"-"+std::to_string(part),[&]{ L rad=acosl(-1.L)/180; for(int h=-2880+part;h<=2880;h+=8) for(T off: {T(0),T(0.001),T(-0.001)}) { T d=T(h)/4+off; L c=cosl(L(d)*rad), s=sinl(L(d)*rad); vf::state(); vf::trans(3); std::string id=vf::str(d);
  auto ok=[&](T x, L e){ return fabsl(L(x)-e)<=tol; }; VF_CHECK(ok(math::cosd(d),c),"cosd",id+" gave "+vf::str(math::cosd(d))); VF_CHECK(ok(math::sind(d),s),"sind",id+" gave "+vf::str(math::sind(d))); auto [x,y]=math::cos_and_sin_d(d); VF_CHECK(ok(x,c)&&ok(y,s),"cos_and_sin_d",id); T r=math::degree_to_radian(d); VF_CHECK(fabsl(r-L(d)*rad)<=tol*20,"degree_to_radian",id); auto [u,v]=math::cos_and_sin(r); VF_CHECK(fabsl(u-cosl(r))<=tol&&fabsl(v-sinl(r))<=tol,"cos_and_sin",id);
  if (off==T(0)&&h%360==0) VF_CHECK((h/360)%2? math::cosd(d)==T(0): math::sind(d)==T(0),"exact zero at a right angle",id); T m=U::mod1(d); VF_CHECK(m>=T(-1e-6)&&m<T(1)&&fabsl((L(d)-m)-roundl(L(d)-m))<1e-4L,"mod1",id+" gave "+vf::str(m)); } }); 
  for (L a: {math::long_pi,math::long_half_pi,math::long_two_thirds_pi,math::long_one_thirds_pi}) vf::run(std::string("trig-special-")+nm+vf::str((double)a),[&]{ auto [c,s]=math::cos_and_sin(T(a)); VF_CHECK(fabsl(c-cosl(a))<=tol&&fabsl(s-sinl(a))<=tol,"special angle",""); }); }

void vf_explore(){ bool t=vf::thorough();
  cases("m1",7,1,7,[&](const std::vector<int>& i){ long m[1]; put(i,-3,m); matrix<1>(m); });
  cases("m2",5,4,25,[&](const std::vector<int>& i){ long m[4]; put(i,-2,m); matrix<2>(m); });
  cases("m3",3,9,81,[&](const std::vector<int>& i){ long m[9]; put(i,-1,m); matrix<3>(m); });
  cases("m4",2,16,64,[&](const std::vector<int>& i){ if(!t) { int o=0; for(int k=0;k<4;++k) o+=i[k]; if(o!=2) return; } long m[16]; put(i,0,m); for(int k=0;k<4;++k) if(m[k*5]) m[k*5]=k==1?2:-1; matrix<4>(m); });
  cases("p2",5,8,125,[&](const std::vector<int>& i){ long a[4],b[4]; for(int k=0;k<4;++k){ a[k]=i[k]-2; b[k]=i[k+4]-2; } if(!t && (a[3]==-2||a[3]==1||b[0]==2||b[0]==-1)) return; product<2>(a,b); });
  { std::vector<std::vector<int>> sub; vf::power(3,9,[&](const std::vector<int>& i){ int h=0; for(int k=0;k<9;++k) h=(h*5+i[k]*(k+2))%211; if(h==0) sub.push_back(i); }); sub.push_back({0,1,1,1,0,1,1,1,0}); sub.push_back({2,1,1,1,2,1,1,1,2});
    cases("p3",3,9,81,[&](const std::vector<int>& i){ long a[9],b[9]; put(i,-1,a); int n=0; for (auto& s: sub){ if(!t && (n++%5)!=(i[0]+2*i[4]+i[8])%5) continue; put(s,-1,b); product<3>(a,b); } }); }
  vectors3(); complexes(); rectangular(); integers(); trig<double>("double",1e-14L); trig<float>("float",2e-6L);
}
