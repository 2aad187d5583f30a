// B01: the first Brillouin zone against the half-space definition, for cells of all kinds, centrings and construction options
#include "zone.hpp"
#include <memory>
#include "bz.hpp"
using namespace brille; using namespace brille::lattice;
using lat::V; using lat::M; using zone::Zone;
template<class A> static std::vector<V> cart(const M& B, const A& h){ std::vector<V> r; for(ind_t i=0;i<h.size(0);++i) r.push_back(lat::mv(B,{double(h.val(i,0)),double(h.val(i,1)),double(h.val(i,2))})); return r; }
static bool same_set(const std::vector<V>& a, const std::vector<V>& b, double tol){ if(a.size()!=b.size()) return false; std::vector<bool> used(b.size()); for(auto& x:a){ bool f=false; for(size_t j=0;j<b.size();++j) if(!used[j]&&lat::norm(lat::sub(x,b[j]))<=tol){ used[j]=f=true; break; } if(!f) return false; } return true; }
static M mcols(const std::array<double,9>& a){ M m; std::copy(a.begin(),a.end(),m.begin()); return m; }
template<class F> static void faces_ok(const F& fs, const std::vector<V>& v, const Zone& z, const std::string& id){
  std::vector<V> taus; double vol=0; std::set<std::pair<size_t,size_t>> edges; for(auto& f: fs){ VF_CHECK(f.size()>2,"a face has corners",id); if(f.size()<3) return; V c{}; for(auto i:f){ if(i>=v.size()){ vf::fail("face corner exists",id); return; } c=lat::add(c,v[i]); } c=lat::mul(c,1./f.size()); V n{}; for(size_t i=0;i<f.size();++i){ V a=v[f[i]], b=v[f[(i+1)%f.size()]]; n=lat::add(n,lat::cross(a,b)); edges.insert({f[i],f[(i+1)%f.size()]}); vol+=0; }
    double l=lat::norm(n); VF_CHECK(l>0,"a face has area",id); n=lat::mul(n,1/l); for(auto i:f) VF_CHECK(std::abs(lat::dot(lat::sub(v[i],c),n))<1e-8*z.radius,"a face is planar",id); VF_CHECK(lat::dot(n,c)>0,"a face points outward",id); for(size_t i=0;i<f.size();++i){ V a=v[f[i]], b=v[f[(i+1)%f.size()]], d=v[f[(i+2)%f.size()]]; VF_CHECK(lat::dot(lat::cross(lat::sub(b,a),lat::sub(d,b)),n)>0,"corners of a face go around",id); } for(size_t i=1;i+1<f.size();++i) vol+=lat::dot(v[f[0]],lat::cross(v[f[i]],v[f[i+1]]))/6; taus.push_back(lat::mul(c,2)); }
  for(auto& e: edges) VF_CHECK(edges.count({e.second,e.first})==1,"every edge joins two faces",id); VF_CHECK(lat::near(vol,z.volume,1e-8),"volume enclosed by the faces",id+vf::fmt(" %.12g expected %.12g",vol,z.volume)); VF_CHECK(same_set(taus,z.tau,1e-8*z.radius),"the faces bisect the face vectors",id); vf::state(); }
static void one(const Lattice<double>& L, char c, const BrillouinZoneConfig& cfg, const std::string& id, bool grid, bool odd, double sliver){
  M B=mcols(L.reciprocal_basis_vectors()); Zone z=zone::make(B,cfg.primitive()?c:'P'); M Bp=mcols(cfg.primitive()?L.primitive().reciprocal_basis_vectors():L.reciprocal_basis_vectors());
  if(!lat::near(std::abs(lat::det(Bp)),z.volume)) { vf::fail("harness",id); return; }
  BrillouinZone bz(L,cfg); vf::state(); vf::trace(); vf::trans();
  VF_CHECK(bz.isprimitive()==(cfg.primitive()&&c!='P'),"use of the primitive lattice",id);
  auto p=bz.get_polyhedron(); VF_CHECK(lat::near(p.volume(),z.volume,1e-8),"volume of the zone",id+vf::fmt(" %.12g expected %.12g",p.volume(),z.volume));
  VF_CHECK(bz.get_vertices().lattice()==L&&bz.get_vertices().type()==LengthUnit::inverse_angstrom,"lattice of the vertices",id);
  auto v=cart(B,bz.get_vertices().hkl()), pt=cart(B,bz.get_points().hkl()), n=cart(B,bz.get_normals().hkl()), he=cart(B,bz.get_half_edges().hkl()); double tol=1e-8*z.radius; vf::trans(6);
  VF_CHECK(same_set(v,z.vertices,tol),"vertices of the zone",id+vf::fmt(" %zu expected %zu",v.size(),z.vertices.size())); VF_CHECK(bz.vertices_count()==z.vertices.size()&&bz.faces_count()==z.tau.size(),"numbers of vertices and faces",id);
  std::vector<V> m; for(auto& x:v) m.push_back(lat::mul(x,-1)); VF_CHECK(same_set(m,v,tol),"inversion symmetric vertices",id); std::vector<V> h; for(auto& t:z.tau) h.push_back(lat::mul(t,0.5)); VF_CHECK(same_set(pt,h,tol),"face centres are half of lattice vectors",id);
  VF_CHECK(n.size()==pt.size(),"one normal per face",id); if(n.size()==pt.size()) for(size_t i=0;i<n.size();++i) VF_CHECK(lat::norm(lat::sub(lat::mul(n[i],1/lat::norm(n[i])),lat::mul(pt[i],1/lat::norm(pt[i]))))<1e-7,"normals point along the face vectors",id);
  auto fs=bz.get_vertices_per_face(); faces_ok(fs,v,z,id); auto fpv=bz.get_faces_per_vertex(); VF_CHECK(fpv.size()==v.size(),"faces per vertex",id); for(size_t i=0;i<fpv.size()&&i<v.size();++i){ std::set<size_t> a(fpv[i].begin(),fpv[i].end()),b; for(size_t f=0;f<fs.size();++f) if(std::count(fs[f].begin(),fs[f].end(),i)) b.insert(f); VF_CHECK(a==b&&a.size()==fpv[i].size()&&a.size()>2,"faces per vertex",id); }
  { std::vector<V> e; for(auto& f:fs) for(size_t i=0;i<f.size();++i){ auto a=f[i], b=f[(i+1)%f.size()]; if(a<b) e.push_back(lat::mul(lat::add(v[a],v[b]),0.5)); } VF_CHECK(same_set(he,e,tol),"half edges",id); }
  // the same polyhedron in the primitive coordinates and in the stored polyhedron
  auto pv=bz.get_primitive_vertices(), pp=bz.get_primitive_points(), pn=bz.get_primitive_normals(); vf::trans(3); if(cfg.primitive()){ auto a=cart(Bp,pv.hkl()), b=cart(Bp,pp.hkl()), d=cart(Bp,pn.hkl()); bool ok=a.size()==v.size()&&b.size()==pt.size()&&d.size()==n.size(); for(size_t i=0;ok&&i<v.size();++i) ok&=lat::norm(lat::sub(a[i],v[i]))<tol; VF_CHECK(ok,"vertices in primitive coordinates",id); for(size_t i=0;ok&&i<pt.size();++i) ok&=lat::norm(lat::sub(b[i],pt[i]))<tol; VF_CHECK(ok,"points in primitive coordinates",id); for(size_t i=0;ok&&i<n.size();++i) ok&=lat::norm(lat::sub(d[i],n[i]))<1e-8*lat::norm(n[i]); VF_CHECK(ok,"normals in primitive coordinates",id); }
  { auto x=get_xyz(p.vertices()); std::vector<V> a; for(ind_t i=0;i<x.size(0);++i) a.push_back({x.val(i,0),x.val(i,1),x.val(i,2)}); bool ok=a.size()==v.size(); for(size_t i=0;ok&&i<v.size();++i) ok&=lat::norm(lat::sub(a[i],v[i]))<tol; VF_CHECK(ok,"vertices in Cartesian coordinates",id); }
  // the points inside
  std::vector<V> q; auto add=[&](const V& x){ q.push_back(x); }; for(auto& x: z.vertices) for(double s:{0.999,1.,1.001}) add(lat::mul(x,s)); for(auto& t:z.tau) for(double s:{0.4999,0.5,0.5001,1.}) add(lat::mul(t,s)); for(auto& x:he) for(double s:{0.999,1.,1.001}) add(lat::mul(x,s)); add({0,0,0});
  if(grid){ int N=vf::thorough()?7:4; double r=z.radius*1.3; for(int i=-N;i<=N;++i) for(int j=-N;j<=N;++j) for(int k=-N;k<=N;++k) add({r*i/N,r*j/N,r*k/N}); for(int i=-8;i<=8;++i) for(int j=-8;j<=8;j+=vf::thorough()?1:2) for(int k=-8;k<=8;k+=vf::thorough()?1:2) add(lat::mv(B,{i/8.,j/8.,k/8.})); }
  M iB=lat::inv(B); bArray<double> hq(ind_t(q.size()),3u); for(ind_t i=0;i<q.size();++i){ V x=lat::mv(iB,q[i]); for(int j=0;j<3;++j) hq.val(i,ind_t(j))=x[j]; } auto in=bz.isinside(LVec<double>(LengthUnit::inverse_angstrom,L,hq)); std::vector<bool> in2; if(cfg.primitive()){ M iP=lat::inv(Bp); bArray<double> hp(ind_t(q.size()),3u); for(ind_t i=0;i<q.size();++i){ V x=lat::mv(iP,q[i]); for(int j=0;j<3;++j) hp.val(i,ind_t(j))=x[j]; } in2=bz.isinside(LVec<double>(LengthUnit::inverse_angstrom,bz.get_primitive_lattice(),hp)); } else in2=in; vf::trans(2*q.size());
  for(size_t i=0;i<q.size();++i){ double b=z.beyond(q[i]); vf::state(); if(b>sliver){ VF_CHECK(!in[i]&&!in2[i],"a point nearer to another lattice point is outside",id+" "+lat::show(lat::mv(iB,q[i]))+vf::fmt(" beyond %g",b)); } else if(b<(odd?-1e-9:1e-12)) { VF_CHECK(in[i]&&in2[i],"a point nearest to the origin is inside",id+" "+lat::show(lat::mv(iB,q[i]))+vf::fmt(" beyond %g (%d %d)",b,int(in[i]),int(in2[i]))); } }
  vf::outcome(vf::fmt("%c %zu %zu",c,z.vertices.size(),z.tau.size())); }
void vf_explore(){
  std::vector<lat::Cell> cs=lat::cells(); cs.push_back({"skew30",{3,4,5},{90,30,90}}); cs.push_back({"skew150",{3,4,5},{90,90,150}}); cs.push_back({"sheared",{3,4,5},{40,60,50}}); cs.push_back({"needle",{2,2.1,20},{90,90,90}}); cs.push_back({"plate",{12,11,2},{80,85,95}}); cs.push_back({"nearly-hexagonal",{3,3,5},{90,90,119.5}}); cs.push_back({"nearly-cubic",{4,4.001,3.999},{90.02,90,89.99}}); cs.push_back({"obverse",{3,3,12},{90,90,120}}); cs.push_back({"golden",{3,3*1.618033988749895,3},{90,90,90}}); cs.push_back({"very-skew",{3,3,3},{20,90,85}}); cs.push_back({"small",{1e-2,1.3e-2,2e-2},{85,95,100}}); cs.push_back({"large",{100,130,90},{85,95,100}});
  const char cen[]={'P','A','B','C','I','F','R'}; M R=lat::rotation({1,2,3},37);
  for(auto& c: cs) for(char ce: cen) for(int turn=0;turn<2;++turn) for(int opt=0;opt<6;++opt){ if(turn&&opt) continue; std::string id=vf::fmt("%s %c%s option %d",c.name,ce,turn?" turned":"",opt);
    vf::run(id,[&]{ std::string sg=std::string(1,ce)+" 1"; Lattice<double> L= turn? Direct(lat::mm(R,lat::cell(c.l,c.a)),MatrixVectors::column,sg,Basis(),false):Direct(c.l,c.a,sg,Basis(),false,AngleUnit::degree); BrillouinZoneConfig cfg; cfg.wedge_search(false); if(opt==1) cfg.divide_primitive(false); if(opt==2) cfg.primitive(false); if(opt==3){ cfg.primitive(false); cfg.divide_primitive(false); } if(opt==4) cfg.divide_extent(2); if(opt==5) cfg.time_reversal(true); one(L,ce,cfg,id,opt<2,std::string(c.name)=="small",std::string(c.name)=="nearly-cubic"?1e-3:1e-5); }); }
}
