// B03: reducing points to the first Brillouin zone
#include "zone.hpp"
#include <map>
#include <memory>
#include "bz.hpp"
using namespace brille; using namespace brille::lattice;
using lat::V; using lat::M; using zone::Zone;
static V at(const LVec<double>& a, ind_t i){ return {a.val(i,0),a.val(i,1),a.val(i,2)}; }
static LVec<double> make(const Lattice<double>& L, const std::vector<V>& v){ bArray<double> a(ind_t(v.size()),3u); for(ind_t i=0;i<v.size();++i) for(ind_t j=0;j<3;++j) a.val(i,j)=v[i][j]; return LVec<double>(LengthUnit::inverse_angstrom,L,a); }
typedef std::array<int,3> I3;
struct Out { V q; I3 t; };
static std::vector<Out> move(const BrillouinZone& bz, const Lattice<double>& L, const std::vector<V>& Q, int threads){ auto x=make(L,Q); LVec<double> q(LengthUnit::inverse_angstrom,L,0u); LVec<int> t(LengthUnit::inverse_angstrom,L,0u); bool ok=bz.moveinto(x,q,t,threads); vf::trans(Q.size()); std::vector<Out> r; if(!ok||q.size(0)!=Q.size()||t.size(0)!=Q.size()||!(q.lattice()==L)||!(t.lattice()==L)) return r; for(ind_t i=0;i<Q.size();++i) r.push_back({at(q,i),{t.val(i,0),t.val(i,1),t.val(i,2)}}); return r; }
static void one(const Lattice<double>& L, char c, const BrillouinZoneConfig& cfg, const std::string& id, int level, double sliver){
  M B=L.reciprocal_basis_vectors(); char eff=cfg.primitive()?c:'P'; Zone z=zone::make(B,eff); BrillouinZone bz(L,cfg); M iB=lat::inv(B); vf::trace();
  std::vector<V> Q; int N=level?3:2; int den=vf::thorough()?6:4; for(int i=-N*den;i<=N*den;i+=1) for(int j=-N*den;j<=N*den;j+=1) for(int k=-N*den;k<=N*den;k+=1){ if(!vf::thorough() && (i+2*j+3*k)%(level?13:41)) continue; Q.push_back({double(i)/den,double(j)/den,double(k)/den}); }
  std::vector<V> base; auto surf=[&](const V& x){ V h=lat::mv(iB,x); base.push_back(h); }; for(auto& v:z.vertices) for(double s:{0.5,0.9999,1.,1.0001}) surf(lat::mul(v,s)); for(auto& t:z.tau) for(double s:{0.25,0.4999,0.5,0.5001}) surf(lat::mul(t,s)); for(size_t i=0;i<z.vertices.size();++i) surf(lat::mul(lat::add(z.vertices[i],z.vertices[(i+1)%z.vertices.size()]),0.5)); base.push_back({0,0,0}); base.push_back({0.123,-0.077,0.211}); base.push_back({1e-12,-1e-13,0}); base.push_back({-0.,0.,-0.});
  std::vector<V> shift; for(auto& h: z.hkl) for(int m:{1,2}) shift.push_back(lat::mul(h,m)); shift.push_back(lat::mv(zone::basis(eff),{5,-7,4})); shift.push_back(lat::mv(zone::basis(eff),{-11,3,2})); shift.push_back({0,0,0}); size_t nb=base.size(); for(size_t i=0;i<nb;++i) for(size_t k=0;k<shift.size();++k) if(vf::thorough()||(i+k)%(level?3:7)==0||k+1==shift.size()) Q.push_back(lat::add(base[i],shift[k]));
  auto r=move(bz,L,Q,1); VF_CHECK(r.size()==Q.size(),"a result for every point",id); if(r.size()!=Q.size()) return; vf::state(Q.size());
  auto verify=[&](const std::vector<V>& Q, const std::vector<Out>& r){ for(size_t i=0;i<Q.size();++i){ std::string e=id+" "+lat::show(Q[i])+" gives "+lat::show(r[i].q)+vf::fmt(" (%d %d %d)",r[i].t[0],r[i].t[1],r[i].t[2]); double m=1; for(int j=0;j<3;++j) m=std::max(m,std::abs(Q[i][j])); bool sum=true; for(int j=0;j<3;++j) sum&=std::abs(r[i].q[j]+r[i].t[j]-Q[i][j])<1e-12*m*4; VF_CHECK(sum,"the reduced point and the translation add up to the point",e); VF_CHECK(zone::allowed(eff,r[i].t[0],r[i].t[1],r[i].t[2]),"the translation is a reciprocal lattice vector",e); double b=z.beyond(lat::mv(B,r[i].q)); VF_CHECK(b<sliver,"the reduced point is in the first zone",e+vf::fmt(" beyond %g",b));
      double b0=z.beyond(lat::mv(B,Q[i])); if(b0<-1e-7) VF_CHECK(r[i].t==(I3{0,0,0}),"a point inside the zone stays",e);
      } };
  verify(Q,r);
  // equivalent interior points reduce to the same point
  { std::map<std::array<long,3>,V> seen; for(size_t i=0;i<Q.size();++i){ if(z.beyond(lat::mv(B,r[i].q))>(sliver>1e-4?-1e-3:-1e-6)) continue; V f=lat::mv(lat::inv(zone::basis(eff)),Q[i]); std::array<long,3> k; for(int j=0;j<3;++j){ double x=f[j]-std::floor(f[j]+1e-7); k[j]=std::lround(x*1e6); } auto it=seen.find(k); if(it==seen.end()) seen[k]=r[i].q; else VF_CHECK(lat::norm(lat::sub(it->second,r[i].q))<1e-5,"equivalent points reduce to the same point",id+" "+lat::show(Q[i])+lat::show(it->second)+lat::show(r[i].q)); } }
  auto equal=[&](const Out& a, const Out& b){ return a.q==b.q&&a.t==b.t; };
  for(int th: {2,3,4,0}) { if(level==0&&th!=3) continue; size_t step=vf::thorough()?1:th==3?4:15; std::vector<V> q2; for(size_t i=0;i<Q.size();i+=step) q2.push_back(Q[i]); auto s=move(bz,L,q2,th); bool ok=s.size()==q2.size(); for(size_t i=0;ok&&i<q2.size();++i) ok&=equal(r[i*step],s[i]); VF_CHECK(ok,"the number of threads changes nothing",id+vf::fmt(" %d threads",th)); }
  { size_t n3=vf::thorough()?Q.size():Q.size()/3; std::vector<V> q2(Q.rend()-n3,Q.rend()); auto s=move(bz,L,q2,2); bool ok=s.size()==n3; for(size_t i=0;ok&&i<n3;++i) ok&=equal(r[i],s[n3-1-i]); VF_CHECK(ok,"the position of a point in the request changes nothing",id); } for(size_t i=0;i<Q.size();i+=level?23:61){ auto s=move(bz,L,{Q[i]},i%3+1); VF_CHECK(s.size()==1&&equal(r[i],s[0]),"a point on its own",id+" "+lat::show(Q[i])); }
  // points given in the primitive lattice
  if(cfg.primitive()){ auto Lp=bz.get_primitive_lattice(); M iP=lat::inv(M(Lp.reciprocal_basis_vectors())); std::vector<V> q2; for(auto& x:Q) q2.push_back(lat::mv(iP,lat::mv(B,x))); auto s=move(bz,Lp,q2,1); M Bp=Lp.reciprocal_basis_vectors(); VF_CHECK(s.size()==Q.size(),"a result for every primitive point",id); for(size_t i=0;i<s.size();++i){ double m=1; for(int j=0;j<3;++j) m=std::max(m,std::abs(q2[i][j])); bool sum=true; for(int j=0;j<3;++j) sum&=std::abs(s[i].q[j]+s[i].t[j]-q2[i][j])<1e-12*m*4; VF_CHECK(sum,"the reduced point and the translation add up to the primitive point",id); double b=z.beyond(lat::mv(Bp,s[i].q)); VF_CHECK(b<sliver,"the reduced primitive point is in the first zone",id); if(z.beyond(lat::mv(B,r[i].q))<(sliver>1e-4?-1e-3:-1e-6)) VF_CHECK(lat::norm(lat::sub(lat::mv(Bp,s[i].q),lat::mv(B,r[i].q)))<1e-9*z.radius*m,"a point in primitive coordinates reduces to the same point",id+" "+lat::show(Q[i])); } }
  vf::outcome(id); }
void vf_explore(){
  std::vector<lat::Cell> cs=lat::cells(); cs.push_back({"skew30",{3,4,5},{90,30,90}}); cs.push_back({"skew150",{3,4,5},{90,90,150}}); cs.push_back({"sheared",{3,4,5},{40,60,50}}); cs.push_back({"needle",{2,2.1,20},{90,90,90}}); cs.push_back({"plate",{12,11,2},{80,85,95}}); cs.push_back({"nearly-hexagonal",{3,3,5},{90,90,119.5}}); cs.push_back({"nearly-cubic",{4,4.001,3.999},{90.02,90,89.99}}); cs.push_back({"golden",{3,3*1.618033988749895,3},{90,90,90}}); cs.push_back({"very-skew",{3,3,3},{20,90,85}}); cs.push_back({"large",{100,130,90},{85,95,100}});
  const char cen[]={'P','A','B','C','I','F','R'}; M R=lat::rotation({1,2,3},37);
  for(auto& c: cs) for(char ce: cen) for(int opt=0;opt<4;++opt){ std::string id=vf::fmt("%s %c option %d",c.name,ce,opt); if(opt>1&&ce!='P'&&ce!='I'&&ce!='F'&&!vf::thorough()) continue;
    vf::run(id,[&]{ std::string sg=std::string(1,ce)+" 1"; Lattice<double> L= opt==1? Direct(lat::mm(R,lat::cell(c.l,c.a)),MatrixVectors::column,sg,Basis(),false):Direct(c.l,c.a,sg,Basis(),false,AngleUnit::degree); BrillouinZoneConfig cfg; cfg.wedge_search(false); if(opt==2) cfg.primitive(false); if(opt==3) cfg.divide_primitive(false); one(L,ce,cfg,id,opt==0,std::string(c.name)=="nearly-cubic"?1e-3:1e-5); }); }
}
