// S01: symmetry operations against exact integer arithmetic
#include "S01.hpp"
#include "symmetry.hpp"
#include "pointsymmetry.hpp"
#include "pointgroup.hpp"
using namespace brille;
typedef Motion<int,double> Mo;
using ex::Op; using ex::Mat; using ex::Vec;
static Mo mk(const Op& o, Vec extra={0,0,0}){ return Mo(o.W,{o.t[0]/24.+extra[0],o.t[1]/24.+extra[1],o.t[2]/24.+extra[2]}); }
static bool same_t(const Vector<double>& w, const Vec& t){ for(int i=0;i<3;++i){ double d=w[i]-t[i]/24.; d-=std::round(d); if(!(std::abs(d)<1e-9)) return false; } return true; }
static bool same(const Mo& m, const Op& o){ return m.getr()==o.W && same_t(m.gett(),o.t); }
static bool in_cell(const Mo& m){ for(double x: m.gett()) if(!(x>=0 && x<=1)) return false; return true; }
static std::string sh(const Mo& m){ return "{"+vf::vec(m.getr())+"|"+vf::vec(m.gett())+"}"; }

static std::vector<Vec> trans(){ std::vector<Vec> v; for(int a: {0,12}) for(int b: {0,12}) for(int c: {0,12}) v.push_back({a,b,c}); for(Vec x: {Vec{6,6,6},Vec{18,6,0},Vec{0,6,18},Vec{8,16,16},Vec{16,8,8},Vec{0,0,8},Vec{0,0,20},Vec{0,0,4},Vec{3,0,21},Vec{1,2,23}}) v.push_back(x); return v; }
static const std::vector<Vec> pts{{0,0,0},{1,0,0},{0,1,0},{0,0,1},{1,2,3},{-5,7,11},{30,-13,2}};

static void pair(const Op& a, const Op& b){
  vf::state(); vf::trans(4); vf::trace(); Mo A=mk(a), B=mk(b); Mo C=A*B; Op c=ex::mul(a,b);
  VF_CHECK(same(C,c),"product of two operations",ex::str(a)+" * "+ex::str(b)+" = "+sh(C)+" expected "+ex::str(c)); VF_CHECK(in_cell(C),"translation of a product outside the cell",sh(C));
  for(auto& p: pts){ Vector<double> x{p[0]/24.,p[1]/24.,p[2]/24.}; auto l=C.move_point(x), r=A.move_point(B.move_point(x)); Vec e=ex::mul(a.W,ex::mul(b.W,p)), at=ex::mul(a.W,b.t); for(int i=0;i<3;++i) e[i]+=at[i]+a.t[i];
    for(int i=0;i<3;++i){ VF_CHECK(std::abs(r[i]-e[i]/24.)<1e-9,"position moved by two operations in turn",ex::str(a)+ex::str(b)+vf::vec(r)); double d=l[i]-r[i]; d-=std::round(d); VF_CHECK(std::abs(d)<1e-9,"position moved by the product",ex::str(a)+ex::str(b)+vf::vec(l)+vf::vec(r)); }
    Vector<double> v{double(p[0]),double(p[1]),double(p[2])}; Vec ev=ex::mul(c.W,p); auto vl=C.move_vector(v), vr=A.move_vector(B.move_vector(v)), al=C.move_axial(v), ar=A.move_axial(B.move_axial(v)); int d=ex::det(c.W);
    for(int i=0;i<3;++i){ VF_CHECK(vl[i]==ev[i]&&vr[i]==ev[i],"vector moved",ex::str(a)+ex::str(b)+vf::vec(vl)+vf::vec(vr)); VF_CHECK(al[i]==d*ev[i]&&ar[i]==d*ev[i],"pseudo-vector moved",ex::str(a)+ex::str(b)+vf::vec(al)+vf::vec(ar)); } 
    Vector<int> vi{p[0],p[1],p[2]}; auto w=C.move_vector(vi); VF_CHECK((w==Vector<int>{ev[0],ev[1],ev[2]}),"integer vector moved",ex::str(c)); }
  bool e=(a==b); VF_CHECK((A==B)==e && (A!=B)==!e,"equality of operations",ex::str(a)+" and "+ex::str(b));
}
static void single(const Op& a){
  vf::state(); vf::trans(6); vf::trace(); Mo A=mk(a); Mo I=A.inverse(); Op i=ex::inv(a); Mo E(ex::one(),{0,0,0});
  VF_CHECK(same(I,i),"inverse",ex::str(a)+" inverse "+sh(I)); VF_CHECK(in_cell(I),"translation of an inverse outside the cell",sh(I)); VF_CHECK(A*I==E && I*A==E && (A*I).has_identity_rotation(),"operation times its inverse",ex::str(a));
  VF_CHECK(A.has_identity_rotation()==(a.W==ex::one()),"has_identity_rotation",ex::str(a)); VF_CHECK(A.has_identity_translation()==(a.t==Vec{0,0,0}),"has_identity_translation",ex::str(a)); VF_CHECK(A.equal_matrix(a.W) && !A.equal_matrix(ex::neg(a.W)),"equal_matrix",ex::str(a));
  for(auto& p: pts){ Vector<double> x{p[0]/24.,p[1]/24.,p[2]/24.}; auto y=I.move_point(A.move_point(x)); for(int k=0;k<3;++k){ double d=y[k]-x[k]; d-=std::round(d); VF_CHECK(std::abs(d)<1e-9,"position moved and moved back",ex::str(a)); } }
  // equality is modulo the lattice
  for(Vec s: {Vec{1,0,0},Vec{0,-1,0},Vec{0,0,2},Vec{-3,1,1}}){ Mo B=mk(a,s); VF_CHECK(A==B && B==A && !(A!=B),"operations that differ by a lattice translation",ex::str(a)+" shifted by "+vf::vec(s)); Symmetry z; z.add(B); VF_CHECK(z.has(A),"Symmetry::has an operation that differs by a lattice translation",ex::str(a)); }
  for(Vec s: {Vec{1,0,0},Vec{0,-1,0},Vec{0,0,12}}){ Op b=a; for(int k=0;k<3;++k) b.t[k]+=s[k]; b=ex::norm(b); Mo B=mk(b); VF_CHECK(!(A==B) && A!=B,"operations that differ by a fraction of a lattice vector",ex::str(a)+" "+ex::str(b)); }
  int n=ex::order(a); Symmetry s; s.add(A); VF_CHECK(s.order(0)==n,"order of an operation",ex::str(a)+vf::fmt(" order %d reported %d",n,s.order(0))); VF_CHECK(s.orders()==std::vector<int>{n},"orders",ex::str(a));
  Mo P=E; for(int k=1;k<=n;++k){ P=A*P; VF_CHECK((P==E)==(k==n),"power of an operation",ex::str(a)+vf::fmt("^%d",k)); }
}
static void text(const Op& a, Vec extra, const std::string& kind){
  vf::state(); vf::trans(2); vf::trace(); Mo A=mk(a,extra); std::string t=A.to_ascii(); Mo B;
  try { B.from_ascii(t); } catch(const std::exception& e){ vf::fail("text not readable ("+kind+")",sh(A)+" as '"+t+"': "+e.what()); return; }
  VF_CHECK(A==B && same(B,ex::norm(a)),"text read back ("+kind+")",sh(A)+" as '"+t+"' read as "+sh(B)); }
static std::string frac(int t, int f){ static const char* dec[]={"0","","","0.125","","","0.25","","","0.375","","","0.5","","","0.625","","","0.75","","","0.875","",""}; int g=std::__gcd(t,24); if(f==3) return dec[t]; return std::to_string(t/g)+"/"+std::to_string(24/g); }
//! one row of an operation in one of several written forms
static std::string row(const int* w, int t, int form){ std::string s; auto term=[&](int i){ if(!w[i]) return; const char* n[]={"x","y","z"}; if(w[i]<0) s+="-"; else if(!s.empty()|| (form==4)) s+="+"; if(std::abs(w[i])>1) s+=std::to_string(std::abs(w[i])); s+=n[i]; };
  if(form==1||form==3){ if(t) s+=frac(t,form); for(int i=0;i<3;++i) term(i); } else { for(int k=0;k<3;++k) term(form==2?2-k:k); if(t) s+=(form==2? "-"+frac(24-t,0) : "+"+frac(t,0)); }
  if(s.empty()) s="0"; return s; }
void vf_explore(){
  auto T=trans();
  for(int fam=0;fam<2;++fam){ auto G=fam?ex::d6h():ex::oh(); vf::tally(fam?"hexagonal operations":"cubic operations",G.size());
    for(size_t i=0;i<G.size();++i){
      vf::run(vf::fmt("single-%d-%zu",fam,i),[&]{ vf::outcome(ex::str(G[i])); int n=0; for(int x=0;x<24;++x) for(int y=0;y<24;++y) for(int z=0;z<24;++z) if(vf::thorough()|| (x%2==0&&y%2==0&&z%2==0) || (x*y*z+x+y+z)%29==0){ Op o{G[i],{x,y,z}}; int m=ex::order(o); if(m>=1&&m<=8){ single(o); ++n; } } vf::tally("operations",n); });
      vf::run(vf::fmt("pairs-%d-%zu",fam,i),[&]{ for(auto& t: T) for(size_t j=0;j<G.size();++j) for(size_t k=0;k<T.size();++k) if(vf::thorough()||(k+j)%3==0) pair(Op{G[i],t},Op{G[j],T[k]}); });
      vf::run(vf::fmt("associative-%d-%zu",fam,i),[&]{ for(size_t j=0;j<G.size();++j) for(size_t k=0;k<G.size();++k){ Op a{G[i],T[(i+2*j)%T.size()]}, b{G[j],T[(j+k)%T.size()]}, c{G[k],T[(k+5*i)%T.size()]}; vf::state(); vf::trans(4); Mo l=(mk(a)*mk(b))*mk(c), r=mk(a)*(mk(b)*mk(c)); VF_CHECK(l==r && same(l,ex::mul(ex::mul(a,b),c)),"associativity",ex::str(a)+ex::str(b)+ex::str(c)); } });
      vf::run(vf::fmt("text-%d-%zu",fam,i),[&]{ for(int x=0;x<24;++x) for(int y=0;y<24;++y) for(int z=0;z<24;++z) if(vf::thorough()||x==y||y==z||x==z||(x+y+z)%7==0) text(Op{G[i],{x,y,z}},{0,0,0},"multiples of 1/24"); });
      vf::run(vf::fmt("text-shifted-%d-%zu",fam,i),[&]{ for(auto& t: T) for(Vec s: {Vec{1,0,0},Vec{0,-1,0},Vec{0,0,-2},Vec{-1,-1,3}}) text(Op{G[i],t},s,"translation outside the cell"); });
      vf::run(vf::fmt("text-after-arithmetic-%d-%zu",fam,i),[&]{ for(auto& t: T) for(auto& u: T) for(size_t j=0;j<G.size();j+=5){ Op a{G[i],t}, b{G[j],u}; Op c=ex::mul(a,b), ci=ex::inv(a); Mo C=mk(a)*mk(b), D=mk(a).inverse()*mk(b); vf::state(); vf::trans(3); for(int k=0;k<2;++k){ const Mo& X=k?D:C; Op x=k?ex::mul(ci,b):c; Mo Y; std::string s=X.to_ascii(); try{ Y.from_ascii(s); VF_CHECK(X==Y && same(Y,x),"text of a computed operation read back",sh(X)+" as '"+s+"' read as "+sh(Y)); }catch(const std::exception& e){ vf::fail("text of a computed operation not readable",sh(X)+" as '"+s+"'"); } } } });
      vf::run(vf::fmt("written-forms-%d-%zu",fam,i),[&]{ for(auto& t: T) for(int form=0;form<5;++form){ bool ok=true; for(int k=0;k<3;++k) if(form==3 && t[k]%3) ok=false; if(!ok) continue; std::string s; Op a{G[i],t}; for(int k=0;k<3;++k) s+=(k?",":"")+row(a.W.data()+3*k,t[k],form);
          vf::state(); vf::trans(3); Mo m; m.from_ascii(s); VF_CHECK(same(m,a),"reading x,y,z notation","'"+s+"' read as "+sh(m)); Mo m2(s+";"); VF_CHECK(same(m2,a),"reading x,y,z notation with ;","'"+s+";' read as "+sh(m2));
          Symmetry y; y.add(s); VF_CHECK(y.size()==1 && same(y.getm(0),a),"Symmetry::add text","'"+s+"'"); Symmetry w(s+";x,y,z;"+s); VF_CHECK(w.size()==3 && same(w.getm(0),a) && same(w.getm(1),ex::ident()) && same(w.getm(2),a),"Symmetry from text","'"+s+"'"); } });
      vf::run(vf::fmt("point-operation-text-%d-%zu",fam,i),[&]{ for(int form: {0,2,4}){ std::string s; for(int k=0;k<3;++k) s+=(k?",":"")+row(G[i].data()+3*k,0,form); for(int w=0;w<4;++w){ std::string z=w==0?s:w==1?s+";":w==2?s+";z,x,y":"y,z,x;"+s; vf::state(); vf::trans(); size_t n=w<2?1:2; bool first=w<3; std::string out; int rc=vf::isolate([&]{ PointSymmetry p; p.add(z); size_t at=first?0:1; return int(p.size()==n && p.get(at)==G[i] ? 0 : 1); },&out,2); VF_CHECK(rc==0,"PointSymmetry::add text","'"+z+"' "+(rc>1000?vf::fmt("ends with signal %d",rc-1000):rc==1?"reads another operation":out)); if(rc) return; } } });
    } }
  // matrices with larger elements (operations written in other bases)
  vf::run("text-unimodular",[&]{ vf::power(5,4,[&](const std::vector<int>& i){ Mat m{i[0]-2,i[1]-2,0,i[2]-2,i[3]-2,0,1,-1,1}; if(std::abs(ex::det(m))!=1) return; for(auto& t: trans()) text(Op{m,t},{0,0,0},"other bases"); }); });
  // mixed products: change of origin (V M V^-1) keeps the group law
  vf::run("origin-shift",[&]{ auto T=trans(); for(auto& g: ex::oh()) for(auto& t: T) for(auto& v: T){ Op a{g,t}, V{ex::one(),v}, Vi{ex::one(),{-v[0],-v[1],-v[2]}}; Motion<double,double> dv(Vector<double>{v[0]/24.,v[1]/24.,v[2]/24.}), di(Vector<double>{-v[0]/24.,-v[1]/24.,-v[2]/24.}); vf::state(); vf::trans(2); Mo r=dv*(mk(a)*di); Op e=ex::mul(V,ex::mul(a,Vi)); VF_CHECK(same(r,e),"origin shift of an operation",ex::str(a)+" by "+vf::vec(v)+" gives "+sh(r)+" expected "+ex::str(e)); } });
}
