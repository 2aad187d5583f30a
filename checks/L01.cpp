// L01: conventional and primitive descriptions of every centring and every tabulated setting
#define VF_SPGDATA
#include "S01.hpp"
#include "lat.hpp"
#include <memory>
#include "primitive.hpp"
#include "hall_symbol.hpp"
#include "lattice_dual.hpp"
#include "array_.hpp"
#include "array_l_.hpp"
#include "transform.hpp"
#include "array_functions.hpp"
using namespace brille; using namespace brille::lattice;
using lat::V; using lat::M;
static const LengthUnit LU[2]={LengthUnit::angstrom,LengthUnit::inverse_angstrom};
static const char* LUN[2]={"real","reciprocal"};
struct Cen { const char* sym; Bravais b; std::vector<std::array<int,3>> t6; };
static std::vector<Cen> centrings(){ using B=Bravais; return { {"P 1",B::P,{}}, {"A 1",B::A,{{0,3,3}}}, {"B 1",B::B,{{3,0,3}}}, {"C 1",B::C,{{3,3,0}}}, {"I 1",B::I,{{3,3,3}}}, {"F 1",B::F,{{0,3,3},{3,0,3},{3,3,0}}}, {"R 1",B::R,{{4,2,2},{2,4,4}}} }; }
static bool lattice_point(const std::array<long,3>& x6, const std::vector<std::array<int,3>>& t){ auto in=[&](std::array<int,3> s){ for(int i=0;i<3;++i) if(((x6[i]-s[i])%6+6)%6) return false; return true; }; if(in({0,0,0})) return true; for(auto& s:t) if(in(s)) return true; return false; }
static bool reflection(const std::array<long,3>& h, const std::vector<std::array<int,3>>& t){ for(auto& s:t) if((h[0]*s[0]+h[1]*s[1]+h[2]*s[2])%6) return false; return true; }
static long r6(double x){ return std::lround(6*x); }

static void transforms(const Bravais b, const std::vector<std::array<int,3>>& t, const std::string& id){
  PrimitiveTransform P(b); auto p6=P.get_6P(), ip=P.get_invP(), p6t=P.get_6Pt(), ipt=P.get_invPt(); long n=1+long(t.size()); vf::trans(4); vf::state();
  for(int i=0;i<3;++i) for(int j=0;j<3;++j){ int s=0,u=0,w=0; for(int k=0;k<3;++k){ s+=p6[3*i+k]*ip[3*k+j]; u+=ip[3*i+k]*p6[3*k+j]; w+=p6t[3*i+k]*ipt[3*k+j]; } VF_CHECK(s==(i==j?6:0)&&u==(i==j?6:0)&&w==(i==j?6:0),"the transformation and its inverse multiply to the identity",id); VF_CHECK(p6t[3*i+j]==p6[3*j+i]&&ipt[3*i+j]==ip[3*j+i],"transposed transformation",id); }
  ex::Mat m; std::copy(p6.begin(),p6.end(),m.begin()); VF_CHECK(long(ex::det(m))*n==216,"determinant of the transformation",id+vf::fmt(" %d for %ld points",int(ex::det(m)),n));
  for(int j=0;j<3;++j) VF_CHECK(lattice_point({p6[j],p6[3+j],p6[6+j]},t),"primitive basis vectors are lattice points",id);
  VF_CHECK(P.does_anything()==(b!=Bravais::P) && P.does_nothing()==(b==Bravais::P),"does anything",id); }

static void lattice_case(const Lattice<double>& L, const std::vector<std::array<int,3>>& t, const std::string& id){
  auto Q=L.primitive(); vf::trans(); long n=1+long(t.size());
  M A=L.real_basis_vectors(), B=L.reciprocal_basis_vectors(), a=Q.real_basis_vectors(), b=Q.reciprocal_basis_vectors();
  VF_CHECK(lat::near(Q.volume(LengthUnit::angstrom)*double(n),L.volume(LengthUnit::angstrom)),"volume of the primitive cell",id); VF_CHECK(lat::near(Q.volume(LengthUnit::inverse_angstrom),L.volume(LengthUnit::inverse_angstrom)*double(n)),"volume of the primitive reciprocal cell",id);
  VF_CHECK(lat::near_all(lat::dual(a),b),"the primitive bases are dual",id); VF_CHECK(lat::near_all(Q.metric(LengthUnit::angstrom),lat::metric(a))&&lat::near_all(Q.metric(LengthUnit::inverse_angstrom),lat::metric(b)),"primitive metric",id);
  M X=lat::mm(lat::inv(A),a); for(int j=0;j<3;++j){ std::array<long,3> x; bool whole=true; for(int i=0;i<3;++i){ x[i]=r6(X[3*i+j]); whole&=std::abs(6*X[3*i+j]-double(x[i]))<1e-6; } VF_CHECK(whole&&lattice_point(x,t),"primitive basis vectors are lattice points",id); }
  VF_CHECK(Q.bravais()==Bravais::P && Q.primitive()==Q,"a primitive lattice is its own primitive",id); VF_CHECK(t.empty() == (Q==L),"the primitive lattice differs only when centred",id);
}
static void vectors_case(const Lattice<double>& L, const std::vector<std::array<int,3>>& t, int s, const std::vector<std::array<long,3>>& v6, const std::string& id, bool threads){
  auto Q=L.primitive(); LengthUnit lu=LU[s]; M A=L.to_xyz(lu), a=Q.to_xyz(lu); ind_t n=ind_t(v6.size()); bArray<double> d(n,3u); for(ind_t i=0;i<n;++i) for(ind_t j=0;j<3;++j) d.val(i,j)=double(v6[i][j])/6;
  auto check=[&](const LVec<double>& from, const LVec<double>& to, const M& F, const M& T, const std::string& what){ VF_CHECK(to.size(0)==n&&to.size(1)==3u&&to.type()==lu,what+" shape and unit",id); for(ind_t i=0;i<n;++i){ V x=lat::mv(F,{from.val(i,0),from.val(i,1),from.val(i,2)}), y=lat::mv(T,{to.val(i,0),to.val(i,1),to.val(i,2)}); double sc=std::max(lat::norm(x),1e-3); vf::state(); bool ok=lat::norm(lat::sub(x,y))<1e-9*sc; VF_CHECK(ok,what+" keeps the Cartesian value",id+" "+lat::show(std::array<double,3>{from.val(i,0),from.val(i,1),from.val(i,2)})+" became "+lat::show(std::array<double,3>{to.val(i,0),to.val(i,1),to.val(i,2)})); } };
  auto same=[&](const LVec<double>& x, const LVec<double>& y, const std::string& what, double tol){ bool ok=x.size(0)==y.size(0)&&x.type()==y.type()&&x.lattice()==y.lattice(); for(ind_t i=0;ok&&i<n;++i) for(ind_t j=0;j<3;++j) ok&=std::abs(x.val(i,j)-y.val(i,j))<=tol; VF_CHECK(ok,what,id); };
  LVec<double> c(lu,L,d), p(lu,Q,d); vf::trans(4); vf::trace();
  auto cp=transform_to_primitive(L,c); check(c,cp,A,a,"to primitive"); VF_CHECK(cp.lattice()==Q,"lattice of the result to primitive",id); auto pc=transform_from_primitive(L,p); check(p,pc,a,A,"from primitive"); VF_CHECK(pc.lattice()==L,"lattice of the result from primitive",id);
  same(transform_from_primitive(L,cp),c,"there and back from conventional",1e-12); same(transform_to_primitive(L,pc),p,"there and back from primitive",1e-12);
  same(transform_to_primitive(L,cp),cp,"already primitive",0); same(transform_from_primitive(L,pc),pc,"already conventional",0);
  for(ind_t i=0;i<n;++i){ bool ci=true, pi=true, cpi=true, pci=true; for(ind_t j=0;j<3;++j){ ci&=v6[i][j]%6==0; pi=ci; cpi&=std::abs(cp.val(i,j)-std::round(cp.val(i,j)))<1e-9; pci&=std::abs(pc.val(i,j)-std::round(pc.val(i,j)))<1e-9; }
    bool want = s==0 ? lattice_point(v6[i],t) : (ci && reflection({v6[i][0]/6,v6[i][1]/6,v6[i][2]/6},t)); VF_CHECK(cpi==want,"integer primitive components name exactly the lattice points",id+vf::fmt(" (%ld %ld %ld)/6",v6[i][0],v6[i][1],v6[i][2]));
    if(pi){ std::array<long,3> x; for(ind_t j=0;j<3;++j) x[j]=r6(pc.val(i,j)); bool ok= s==0 ? lattice_point(x,t) : (pci && reflection({x[0]/6,x[1]/6,x[2]/6},t)); VF_CHECK(ok,"integer primitive vectors are lattice points",id); } }
  if(threads) for(int th: {0,1,2,3,5}){ vf::trans(2); same(parallel_transform_to_primitive(L,c,th),cp,"in parallel to primitive",0); same(parallel_transform_from_primitive(L,p,th),pc,"in parallel from primitive",0); }
  // integer components: exact where the result is integer, refused where it is not
  std::vector<std::array<long,3>> iv; for(auto& x: v6) if(x[0]%6==0&&x[1]%6==0&&x[2]%6==0) iv.push_back({x[0]/6,x[1]/6,x[2]/6});
  for(int dir=0;dir<2;++dir) for(auto& x: iv){ bArray<int> e(1u,3u); for(ind_t j=0;j<3;++j) e.val(0,j)=int(x[j]); LVec<int> v(lu,dir?Q:L,e); V y=lat::mv(lat::inv(dir?A:a),lat::mv(dir?a:A,{double(x[0]),double(x[1]),double(x[2])})); bool whole=true; for(auto z:y) whole&=std::abs(z-std::round(z))<1e-6; vf::trans(2); vf::state();
    for(int par=0;par<2;++par){ bool threw=false; bool ok=false; try { LVec<int> w = dir? (par?parallel_transform_from_primitive(L,v,2):transform_from_primitive(L,v)) : (par?parallel_transform_to_primitive(L,v,2):transform_to_primitive(L,v)); ok=true; for(ind_t j=0;j<3;++j) ok&=std::abs(w.val(0,j)-y[j])<1e-6; } catch(const std::exception&){ threw=true; }
      VF_CHECK(whole?(!threw&&ok):threw,std::string("integer components ")+(dir?"from":"to")+" primitive",id+vf::fmt(" (%ld %ld %ld)",x[0],x[1],x[2])+" is "+lat::show(y)+(threw?" refused":" accepted")); } }
}
void vf_explore(){
  auto rots=std::vector<M>{ {1,0,0,0,1,0,0,0,1}, lat::rotation({1,2,3},37) };
  std::vector<std::array<long,3>> v6; int R=vf::thorough()?15:9; for(long i=-R;i<=R;++i) for(long j=-R;j<=R;++j) for(long k=-R;k<=R;++k) v6.push_back({i,j,k}); for(long i: {-12L,-6L,0L,6L,12L,18L}) for(long j: {-18L,-12L,0L,6L,12L}) for(long k: {-12L,-6L,6L,0L,12L,24L}) v6.push_back({i,j,k});
  for(auto& c: centrings()){
    vf::run(std::string("matrices-")+c.sym,[&]{ transforms(c.b,c.t6,c.sym); });
    for(auto& u: lat::cells()) for(size_t r=0;r<rots.size();++r) for(int s=0;s<2;++s){ std::string id=std::string(c.sym)+"-"+u.name+vf::fmt("-rotation%zu-from-",r)+LUN[s]; for(int q=0;q<2;++q) vf::run(id+"-"+LUN[q],[&]{ M A=lat::mm(rots[r],lat::cell(u.l,u.a)); Lattice<double> L=s?Reciprocal(lat::dual(A),MatrixVectors::column,std::string(c.sym),Basis(),false):Direct(A,MatrixVectors::column,std::string(c.sym),Basis(),false); VF_CHECK(L.bravais()==c.b,"centring",id); lattice_case(L,c.t6,id); vectors_case(L,c.t6,q,v6,id+" "+LUN[q],true); vf::outcome(id);
        Lattice<double> O=Direct(lat::mm(A,M{1,0,0,0,1,0,0,0,1.25}),MatrixVectors::column,std::string(c.sym),Basis(),false); bArray<double> one(1u,3u,1.); LVec<double> x(LU[q],O,one); for(int k=0;k<4;++k) VF_CHECK(vf::throws([&]{ if(k==0) transform_to_primitive(L,x); else if(k==1) transform_from_primitive(L,x); else if(k==2) parallel_transform_to_primitive(L,x,2); else parallel_transform_from_primitive(L,x,2); }),"a vector of another lattice is refused",id); }); } }
  // the tabulated settings: lattice points are the pure translations of the group
  std::vector<std::array<long,3>> w6; for(long i=-6;i<=6;++i) for(long j=-6;j<=6;j+=1) for(long k=0;k<=6;++k) w6.push_back({i,j,k});
  for(int h=1;h<=530;++h) vf::run(vf::fmt("setting-%d",h),[&]{ std::vector<std::array<int,3>> t; for(auto& o: ex::spacegroup(h)) if(o.W==ex::one() && (o.t[0]||o.t[1]||o.t[2])) t.push_back({o.t[0]/4,o.t[1]/4,o.t[2]/4}); Spacegroup sp(h); transforms(sp.bravais,t,vf::fmt("setting %d",h)); for(int k=0;k<2;++k){ auto& u=lat::cells()[6+(h+k)%4]; std::string id=vf::fmt("setting %d ",h)+u.name; Lattice<double> L=k?Direct(u.l,u.a,sp.get_spacegroup_symmetry(),Basis(),false,AngleUnit::degree):Direct(lat::cell(u.l,u.a),MatrixVectors::column,sp.get_spacegroup_symmetry(),Basis(),false); VF_CHECK(L.bravais()==sp.bravais,"centring",id); lattice_case(L,t,id); for(int q=0;q<2;++q) vectors_case(L,t,q,w6,id+" "+LUN[q],false); } vf::outcome(h); });
}
