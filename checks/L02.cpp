// L02: lengths, angles, volumes, metrics and basis vectors of both spaces, for grids of cells and every way to give them
#include "lat.hpp"
#include "lattice_dual.hpp"
using namespace brille; using namespace brille::lattice;
using lat::V; using lat::M;
static const LengthUnit LU[2]={LengthUnit::angstrom,LengthUnit::inverse_angstrom};
static const AngleUnit AU[3]={AngleUnit::degree,AngleUnit::radian,AngleUnit::pi};
static const double AF[3]={1,lat::PI/180,1/180.};
static Symmetry& P1(){ static Symmetry s=HallSymbol("P 1").get_generators().generate(); return s; }
static M angles_metric(const V& l, const V& a){ M g; for(int i=0;i<3;++i) for(int j=0;j<3;++j) g[3*i+j]=l[i]*l[j]*(i==j?1:std::cos(a[3-i-j]*lat::PI/180)); return g; }
static V metric_lengths(const M& g){ return {std::sqrt(g[0]),std::sqrt(g[4]),std::sqrt(g[8])}; }
static V metric_angles(const M& g){ V l=metric_lengths(g); V a; for(int i=0;i<3;++i){ int j=(i+1)%3,k=(i+2)%3; a[i]=std::acos(g[3*j+k]/l[j]/l[k])*180/lat::PI; } return a; }
static bool close_metric(const M& x, const M& g, double tol){ for(int i=0;i<3;++i) for(int j=0;j<3;++j) if(!(std::abs(x[3*i+j]-g[3*i+j])<=tol*std::sqrt(g[4*i]*g[4*j]))) return false; return true; }

//! everything the lattice reports, given the real-space metric it should have
static void reports(const Lattice<double>& L, const M& G, const std::string& id, int hand=1){
  M g[2]; g[0]=G; g[1]=lat::inv(G); for(auto& x:g[1]) x*=lat::TWO_PI*lat::TWO_PI; vf::state(); vf::trace(); vf::trans(40);
  M A[2]={L.real_basis_vectors(),L.reciprocal_basis_vectors()};
  { M d=lat::mm(lat::tr(A[0]),A[1]); V la=metric_lengths(g[0]), lb=metric_lengths(g[1]); bool ok=true; for(int i=0;i<3;++i) for(int j=0;j<3;++j) ok&=std::abs(d[3*i+j]-(i==j?lat::TWO_PI:0))<1e-9*la[i]*lb[j]; VF_CHECK(ok,"real and reciprocal basis vectors are dual",id+" "+lat::show(d)); }
  for(int s=0;s<2;++s){ std::string w=id+(s?" reciprocal":" real"); LengthUnit u=LU[s]; V l=metric_lengths(g[s]), a=metric_angles(g[s]);
    VF_CHECK(close_metric(lat::metric(A[s]),g[s],1e-9),"basis vectors have the given lengths and angles",w+" "+lat::show(A[s])+" metric "+lat::show(lat::metric(A[s]))+" expected "+lat::show(g[s]));
    VF_CHECK(close_metric(L.metric(u),g[s],1e-9),"metric",w+" "+lat::show(L.metric(u))+" expected "+lat::show(g[s])); VF_CHECK(L.vectors(u)==A[s]&&L.to_xyz(u)==A[s],"basis vectors",w); M F=lat::mm(L.from_xyz(u),A[s]); bool ok=true; for(int i=0;i<9;++i) ok&=std::abs(F[i]-(i%4==0))<1e-9; VF_CHECK(ok,"from Cartesian undoes to Cartesian",w+" "+lat::show(F));
    VF_CHECK(lat::near(L.volume(u)*hand,std::sqrt(lat::det(g[s])),1e-8),"volume",w+vf::fmt(" %g expected %g",L.volume(u),std::sqrt(lat::det(g[s])))); VF_CHECK(lat::near_all(L.lengths(u),l),"lengths",w+" "+lat::show(L.lengths(u))+" expected "+lat::show(l));
    for(int k=0;k<3;++k){ V x=L.angles(u,AU[k]); bool e=true; for(int i=0;i<3;++i) e&=std::abs(x[i]/AF[k]-a[i])<2e-6 && L.angle(u,unsigned(i),AU[k])==x[i]; VF_CHECK(e,"angles",w+" "+lat::show(x)+" expected "+lat::show(a)); } { V x=L.angles(u), y=L.angles(u,AngleUnit::radian); VF_CHECK(x==y,"angles are in radians when not asked otherwise",w); }
    for(unsigned i=0;i<3;++i){ VF_CHECK(L.length(u,i)==L.lengths(u)[i],"single length",w); VF_CHECK(L.vector(u,i)==lat::col(A[s],int(i)),"single basis vector",w); } }
  VF_CHECK(lat::near(L.volume(LU[0])*L.volume(LU[1]),lat::TWO_PI*lat::TWO_PI*lat::TWO_PI,1e-8),"volumes of the two spaces",id);
}
static bool tight(const M& a, const M& b){ return lat::near_all(a,b,1e-9); }
void vf_explore(){
  // a cell with an angle of a few degrees, given in degrees, and one with an angle close to a straight one, given in radians
  for(int i=0;i<3;++i) for(double x:{2.,3.,177.,178.5}) vf::run(vf::fmt("sharp-%d-%g",i,x),[&]{ for(int s=0;s<2;++s) for(int snap=0;snap<2;++snap){ V l{2,3,4}, a{90,90,90}; a[i]=x; auto make=[&](const V& aa, AngleUnit au){ return s?Reciprocal(l,aa,P1(),Basis(),bool(snap),au):Direct(l,aa,P1(),Basis(),bool(snap),au); }; M want=make(a,AngleUnit::degree).real_basis_vectors(); std::string id=vf::fmt("angle %d of %g degrees space %d",i,x,s); vf::trans(3); vf::state(); M g=angles_metric(l,a), G=g; if(s){ G=lat::inv(g); for(auto& y:G) y*=lat::TWO_PI*lat::TWO_PI; } VF_CHECK(close_metric(lat::metric(want),G,1e-6),"basis vectors have the given lengths and angles",id); VF_CHECK(lat::near_all(make(a,AngleUnit::not_provided).real_basis_vectors(),want,1e-9),"degrees are recognised",id); VF_CHECK(lat::near_all(make(lat::mul(a,AF[1]),AngleUnit::not_provided).real_basis_vectors(),want,1e-8),"radians are recognised",id); } vf::trace(); });
  std::vector<double> ang= vf::thorough()?std::vector<double>{30,40,50,60,70,75,85,90,95,105,109.4712206,120,135,150}:std::vector<double>{40,60,75,90,100,120,135}; std::vector<V> angles; for(double a:ang) for(double b:ang) for(double c:ang) angles.push_back({a,b,c});
  std::vector<double> len{1,2.5,7}; auto rots=lat::cube_rotations(); rots.push_back(lat::rotation({1,2,3},37)); rots.push_back(lat::rotation({-3,1,1},111));
  for(auto& a: angles){ bool good=lat::unit_volume2(a)>0.01 && a[0]+a[1]+a[2]<359 && a[0]<a[1]+a[2] && a[1]<a[0]+a[2] && a[2]<a[0]+a[1]; bool bad=a[0]+a[1]+a[2]>361 || a[0]>a[1]+a[2]+1 || a[1]>a[0]+a[2]+1 || a[2]>a[0]+a[1]+1; std::string an=vf::fmt("%g-%g-%g",a[0],a[1],a[2]);
    if(!good){ if(bad) vf::run("impossible-"+an,[&]{ vf::state(); vf::trans(2); vf::trace(); for(int s=0;s<2;++s) VF_CHECK(vf::throws([&]{ Lattice<double> L=s?Reciprocal(V{1,2,3},a,P1()):Direct(V{1,2,3},a,P1()); }),"angles that cannot meet are refused",an); vf::outcome("impossible"); }); continue; }
    vf::run("cell-"+an,[&]{ for(double l0:len) for(double l1:len) for(double l2:len){ V l{l0,l1,l2}; std::string id=an+vf::fmt(" lengths %g %g %g",l0,l1,l2);
      for(int s=0;s<2;++s){ M g=angles_metric(l,a), G=g; if(s){ G=lat::inv(g); for(auto& x:G) x*=lat::TWO_PI*lat::TWO_PI; } std::string w=id+(s?" reciprocal":" real");
        auto make=[&](const V& ll, const V& aa, AngleUnit au, bool snap){ return s?Reciprocal(ll,aa,P1(),Basis(),snap,au):Direct(ll,aa,P1(),Basis(),snap,au); };
        Lattice<double> L=make(l,a,AngleUnit::degree,true); reports(L,G,w);
        { V r=lat::mul(a,AF[1]), p=lat::mul(a,AF[2]); for(int snap=0;snap<2;++snap){ vf::trans(4); VF_CHECK(tight(make(l,r,AngleUnit::radian,snap).real_basis_vectors(),L.real_basis_vectors()),"angles in radians",w); VF_CHECK(tight(make(l,p,AngleUnit::pi,snap).real_basis_vectors(),L.real_basis_vectors()),"angles in units of pi",w); VF_CHECK(tight(make(l,a,AngleUnit::not_provided,snap).real_basis_vectors(),L.real_basis_vectors()),"degrees are recognised",w); VF_CHECK(tight(make(l,r,AngleUnit::not_provided,snap).real_basis_vectors(),L.real_basis_vectors()),"radians are recognised",w); } }
        // from what it reports itself
        { auto u=[&](int k){ return LU[k]; }; Lattice<double> D=Direct(L.lengths(u(0)),L.angles(u(0)),P1()), R=Reciprocal(L.lengths(u(1)),L.angles(u(1)),P1()); Lattice<double> D2=Direct(L.lengths(u(0)),L.angles(u(0),AngleUnit::degree),P1()), R2=Reciprocal(L.lengths(u(1)),L.angles(u(1),AngleUnit::degree),P1()); vf::trans(4); for(auto* x: {&D,&R,&D2,&R2}){ VF_CHECK(x->is_same(L)&&L.is_equivalent(*x)&&*x==L&&!(*x!=L)&&x->is_permuted(L),"built from its own lengths and angles",w+" "+lat::show(x->real_basis_vectors())+lat::show(x->reciprocal_basis_vectors())+" not "+lat::show(L.real_basis_vectors())+lat::show(L.reciprocal_basis_vectors())); VF_CHECK(close_metric(lat::metric(x->real_basis_vectors()),G,1e-7),"built from its own lengths and angles",w); } }
        { vf::trans(); V m=l; m[(int(l0+l1)+s)%3]*=1.01; Lattice<double> O=make(m,a,AngleUnit::degree,true); VF_CHECK(!O.is_same(L)&&O!=L&&!(L==O)&&!L.is_equivalent(O),"a lattice with another length differs",w); V b=a; b[(int(l0+l2))%3]+=0.5; Lattice<double> N=make(l,b,AngleUnit::degree,true); VF_CHECK(!N.is_same(L)&&N!=L,"a lattice with another angle differs",w); }
      } }
      vf::outcome(an); });
    vf::run("vectors-"+an,[&]{ size_t k=0; for(double l0:len) for(double l1:len) for(double l2:len){ V l{l0,l1,l2}; M C=lat::cell(l,a); for(auto& R: rots){ if(!vf::thorough() && ++k%5) continue; M A=lat::mm(R,C), B=lat::dual(A), G=lat::metric(A); std::string id=an+vf::fmt(" lengths %g %g %g vectors ",l0,l1,l2)+lat::show(A);
          for(int snap=0;snap<2;++snap) for(int row=0;row<2;++row){ auto mv=row?MatrixVectors::row:MatrixVectors::column; Lattice<double> D=Direct(row?lat::tr(A):A,mv,P1(),Basis(),bool(snap)), Q=Reciprocal(row?lat::tr(B):B,mv,P1(),Basis(),bool(snap)); std::string w=id+(row?" rows":" columns")+(snap?" snapped":""); VF_CHECK(D.real_basis_vectors()==A,"real basis vectors are those given",w); VF_CHECK(Q.reciprocal_basis_vectors()==B,"reciprocal basis vectors are those given",w); VF_CHECK(tight(Q.real_basis_vectors(),A),"real basis vectors from reciprocal ones",w); VF_CHECK(D==Q&&D.is_equivalent(Q),"the same lattice from either space",w); if(!row&&snap){ reports(D,G,w); reports(Q,G,w+" from reciprocal"); Lattice<double> X=Reciprocal(D.reciprocal_basis_vectors(),MatrixVectors::column,P1()), Y=Direct(X.real_basis_vectors(),MatrixVectors::column,P1()); VF_CHECK(X==D&&Y==D&&tight(Y.reciprocal_basis_vectors(),D.reciprocal_basis_vectors()),"exchanging the spaces twice changes nothing",w); M N=A; for(auto& x:N) x=-x; Lattice<double> H=Direct(N,MatrixVectors::column,P1()); reports(H,G,w+" inverted",-1); VF_CHECK(H!=D,"an inverted set of basis vectors differs",w); } }
          // given with a symmetry by name
          if(k%7==0) for(auto* nm: {"P 1","-P 1","P-1","x,y,z;-x,-y,-z"}) for(int s=0;s<2;++s){ vf::trans(); Lattice<double> L=s?Reciprocal(B,MatrixVectors::column,std::string(nm)):Direct(A,MatrixVectors::column,std::string(nm)); VF_CHECK(tight(L.real_basis_vectors(),A)&&L.spacegroup_symmetry().size()==(std::string(nm)=="P 1"?1u:2u),"lattice with a named symmetry",id+" "+nm); V ll=L.lengths(LU[s]), aa=L.angles(LU[s],AngleUnit::degree); Lattice<double> K=s?Reciprocal(ll,aa,std::string(nm)):Direct(ll,aa,std::string(nm)); VF_CHECK(close_metric(K.metric(LU[0]),G,1e-7)&&K.spacegroup_symmetry().size()==L.spacegroup_symmetry().size(),"lattice with a named symmetry from lengths and angles",id+" "+nm); Lattice<double> J=s?Reciprocal(ll,aa,std::string("P 1"),std::string("")):Direct(ll,aa,std::string("P 1"),std::string("")); VF_CHECK(J==K,"lattice from a Hermann-Mauguin name and choice",id); for(int row=0;row<2;++row){ const M& X=s?B:A; M Y=row?lat::tr(X):X; auto mv=row?MatrixVectors::row:MatrixVectors::column; auto N=s?Reciprocal(Y,mv,std::string("P 1"),std::string("")):Direct(Y,mv,std::string("P 1"),std::string("")); VF_CHECK(tight(N.real_basis_vectors(),A),"lattice vectors with a Hermann-Mauguin name and choice",id); auto O=s?Reciprocal(Y,mv,std::string(nm)):Direct(Y,mv,std::string(nm)); VF_CHECK(tight(O.real_basis_vectors(),A),"lattice vectors with a named symmetry",id); } } } } });
  }
}
