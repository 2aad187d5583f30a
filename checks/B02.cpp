// B02: the irreducible zone tiles the first zone under the point group, for all tabulated settings
#include "irbz.hpp"
using namespace brille; using namespace brille::lattice;
using lat::V; using lat::M; using zone::Zone;
static void one(const ir::Setting& s, const lat::Cell& c, bool tr, int opt, const std::string& id){
  auto L=ir::lattice(s,c); M B=L.reciprocal_basis_vectors(); BrillouinZoneConfig cfg; cfg.time_reversal(tr); if(opt==1) cfg.divide_primitive(false); if(opt==2) cfg.primitive(false); bool prim=cfg.primitive(); Zone z=zone::make(B,prim?s.centring:'P');
  auto ops=s.ops; if(tr&&!s.inversion) for(auto& w:s.ops) ops.push_back(ex::neg(w)); vf::trace(); vf::state(); vf::trans();
  auto bz=std::make_shared<BrillouinZone>(L,cfg);
  auto pg=bz->get_pointgroup_symmetry(); { std::set<std::array<int,9>> a,b; for(auto& w:ops){ std::array<int,9> m; std::copy(w.begin(),w.end(),m.begin()); a.insert(m); } for(auto& w:pg.getall()) b.insert(w); VF_CHECK(a==b&&pg.size()==ops.size(),"operations in use",id); }
  VF_CHECK(lat::near(bz->get_polyhedron().volume(),z.volume,1e-8),"volume of the first zone",id);
  double goal=z.volume/double(ops.size()); auto p=bz->get_ir_polyhedron(); VF_CHECK(lat::near(p.volume(),goal,1e-7),"volume of the irreducible zone",id+vf::fmt(" %.12g expected %.12g",p.volume(),goal));
  auto v=ir::cart(B,bz->get_ir_vertices().hkl()); auto S=ir::solid(v,bz->get_ir_vertices_per_face(),z.radius); VF_CHECK(S.wrong.empty(),"the irreducible zone is a convex polyhedron",id+" "+S.wrong); if(!S.wrong.empty()) return; VF_CHECK(lat::near(S.volume,goal,1e-7),"volume enclosed by the faces of the irreducible zone",id+vf::fmt(" %.12g expected %.12g",S.volume,goal));
  for(auto& x:v) VF_CHECK(z.beyond(x)<1e-9,"the irreducible zone is inside the first zone",id);
  { auto a=ir::cart(B,p.vertices().hkl()); bool ok=a.size()==v.size(); for(size_t i=0;ok&&i<a.size();++i) ok&=lat::norm(lat::sub(a[i],v[i]))<1e-12*z.radius; VF_CHECK(ok,"vertices of the irreducible polyhedron",id); if(prim){ M Bp=bz->get_primitive_lattice().reciprocal_basis_vectors(); auto b=ir::cart(Bp,bz->get_ir_primitive_vertices().hkl()); auto n=ir::cart(B,bz->get_ir_normals().hkl()), n2=ir::cart(Bp,bz->get_ir_primitive_normals().hkl()), q=ir::cart(B,bz->get_ir_points().hkl()), q2=ir::cart(Bp,bz->get_ir_primitive_points().hkl()); ok=b.size()==v.size()&&n.size()==S.n.size()&&n2.size()==n.size()&&q.size()==n.size()&&q2.size()==n.size(); for(size_t i=0;ok&&i<b.size();++i) ok&=lat::norm(lat::sub(b[i],v[i]))<1e-9*z.radius; for(size_t i=0;ok&&i<n.size();++i) ok&=lat::norm(lat::sub(n[i],n2[i]))<1e-8*lat::norm(n[i])&&lat::norm(lat::sub(q[i],q2[i]))<1e-9*z.radius&&lat::norm(lat::sub(lat::mul(n[i],1/lat::norm(n[i])),S.n[i]))<1e-6&&std::abs(lat::dot(S.n[i],q[i])-S.d[i])<1e-8*z.radius; VF_CHECK(ok,"the irreducible zone in primitive coordinates, its points and normals",id); } }
  // images of the operations on reciprocal coordinates, as Cartesian matrices
  std::vector<M> R; M iB=lat::inv(B); for(auto& w:ops) R.push_back(lat::mm(B,lat::mm(lat::tr(ir::toM(w)),iB)));
  // every generic point of a grid has exactly one image in the irreducible zone; wedge functions agree with it
  int N=vf::thorough()?9:5; double r=z.radius; double sc=1e-6*r; std::vector<V> in; std::vector<V> H; for(int i=-N;i<=N;++i) for(int j=-N;j<=N;++j) for(int k=-N;k<=N;++k){ V q{r*(i+0.1371)/N,r*(j+0.2193)/N,r*(k-0.3137)/N}; if(z.beyond(q)>-1e-6) continue; in.push_back(q); H.push_back(lat::mv(iB,q)); }
  bArray<double> ha(ind_t(H.size()),3u); for(ind_t i=0;i<H.size();++i) for(int j=0;j<3;++j) ha.val(i,ind_t(j))=H[i][j]; LVec<double> hv(LengthUnit::inverse_angstrom,L,ha); auto w1=bz->isinside_wedge(hv), w2=bz->isinside_wedge_outer(hv); auto pc=p.contains(hv,1e-12,1000); vf::trans(3);
  for(size_t i=0;i<in.size();++i){ int n=0; bool near=false; for(auto& m:R){ double b=S.beyond(lat::mv(m,in[i])); if(std::abs(b)<sc) near=true; else if(b<0) ++n; } vf::state(); if(near) { vf::tally("on a boundary"); continue; } VF_CHECK(n==1,"a point has one image in the irreducible zone",id+" "+lat::show(H[i])+vf::fmt(" has %d",n)); bool here=S.beyond(in[i])<0; VF_CHECK(w1[i]==here&&w2[i]==here,"points inside the irreducible wedge",id+" "+lat::show(H[i])+vf::fmt(" %d %d expected %d",int(w1[i]),int(w2[i]),int(here))); VF_CHECK(pc[i]==here,"points inside the irreducible polyhedron",id+" "+lat::show(H[i])); }
  vf::outcome(vf::fmt("%zu %zu %zu",ops.size(),v.size(),S.n.size())); }
void vf_explore(){
  for(auto& s: ir::settings()) for(size_t c=0;c<ir::shapes().size();++c) for(int tr=0;tr<(s.inversion?1:2);++tr) for(int opt=0;opt<3;++opt){ if(!vf::thorough()&&!s.first) continue; if(opt==2&&s.centring=='P') continue; std::string id=vf::fmt("setting %d %s%s option %d",s.hall,ir::shapes()[c].name,tr?" time-reversal":"",opt); vf::run(id,[&]{ one(s,ir::shapes()[c],tr,opt,id); }); }
}
