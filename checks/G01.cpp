// G01: every polyhedron reached by a sequence of cuts from a pool of planes is the intersection of the half-spaces
#include <memory>
#include "solid.hpp"
#include "bz.hpp"
#include "hall_symbol.hpp"
using namespace brille; using namespace brille::lattice; using lat::V; using lat::M;
using solid::Plane; using solid::Body;
// two kinds of vertex: Cartesian arrays and vectors of an oblique reciprocal lattice (coordinates in its units)
static Lattice<double> lattice_of(int i){ static std::map<int,Lattice<double>> m; if(!m.count(i)){ auto c=lat::cells()[i]; m.emplace(i,Direct(c.l,c.a,std::string("P 1"),Basis(),true,AngleUnit::degree)); } return m.at(i); }
struct Bare { typedef bArray<double> A; static const char* name(){ return "Cartesian"; } int cell; M B() const { return {1,0,0,0,1,0,0,0,1}; } A make(const std::vector<V>& v) const { A a(ind_t(v.size()),3u); for(ind_t i=0;i<v.size();++i) for(ind_t j=0;j<3;++j) a.val(i,j)=v[i][j]; return a; } };
struct Latt { typedef LVec<double> A; static const char* name(){ return "lattice"; } int cell; M B() const { return lattice_of(cell).reciprocal_basis_vectors(); } A make(const std::vector<V>& v) const { return A(LengthUnit::inverse_angstrom,lattice_of(cell),Bare{}.make(v)); } };
template<class A> V at(const A& a, ind_t i){ return {a.val(i,0),a.val(i,1),a.val(i,2)}; }
template<class K> struct Fam; template<> struct Fam<Bare>{ typedef polyhedron::Poly<double,Array2> type; }; template<> struct Fam<Latt>{ typedef polyhedron::Poly<double,LVec> type; };
template<class K> using Pol=typename Fam<K>::type;
static bool same(const V& a, const V& b, double tol=1e-9){ return lat::norm(lat::sub(a,b))<tol; }
template<class K> std::array<typename K::A,3> planes(const K& k, const std::vector<Plane>& ps){ std::vector<V> a,b,c; bool flip=lat::det(k.B())<0; for(auto& p:ps){ auto t=solid::points(p); a.push_back(t[0]); b.push_back(t[flip?2:1]); c.push_back(t[flip?1:2]); } return {k.make(a),k.make(b),k.make(c)}; }
//! everything a polyhedron says about itself agrees with the body
template<class K> bool agrees(const K& k, const Pol<K>& p, const Body& b, const std::string& id, bool deep){
  M B=k.B(); double scale=std::abs(lat::det(B)); vf::state(); auto bad=[&](const char* w, const std::string& m=""){ vf::fail(w,id+" "+m); return false; };
  auto faces=p.faces().faces(); if(b.volume==0) return std::abs(p.volume())<1e-9*scale ? true : bad("a cut that leaves no volume",vf::fmt("%g",p.volume()));
  auto vs=p.vertices(); std::vector<V> v; for(ind_t i=0;i<vs.size(0);++i) v.push_back(at(vs,i));
  if(!lat::near(p.volume(),b.volume*scale,1e-9)) return bad("volume",vf::fmt("%.12g expected %.12g",p.volume(),b.volume*scale));
  if(v.size()!=b.v.size()) return bad("number of vertices",vf::fmt("%zu expected %zu",v.size(),b.v.size()));
  std::vector<int> to; for(auto& x:v){ int f=-1; for(size_t i=0;i<b.v.size();++i) if(same(x,b.v[i])) f=int(i); if(f<0) return bad("vertex",lat::show(x)); to.push_back(f); }
  if(faces.size()!=b.f.size()) return bad("number of faces",vf::fmt("%zu expected %zu",faces.size(),b.f.size()));
  std::set<std::vector<int>> want,have; auto canon=[](std::vector<int> f){ std::rotate(f.begin(),std::min_element(f.begin(),f.end()),f.end()); return f; }; bool flip=lat::det(B)<0; for(auto f:b.f){ if(flip) std::reverse(f.begin(),f.end()); want.insert(canon(f)); } for(auto& f:faces){ std::vector<int> g; for(auto i:f){ if(i>=to.size()) return bad("face index"); g.push_back(to[i]); } have.insert(canon(g)); } if(want!=have) return bad("faces",vf::str(p));
  V c=at(p.centroid(),0); if(!same(c,b.centroid,1e-8)) return bad("centroid",lat::show(c)+" expected "+lat::show(b.centroid));
  if(!deep) return true;
  double r=0; for(auto& x:b.v) r=std::max(r,lat::norm(lat::mv(B,lat::sub(x,b.centroid)))); if(!lat::near(p.circumsphere_radius(),r,1e-8)) return bad("circumsphere radius",vf::fmt("%g expected %g",p.circumsphere_radius(),r));
  auto e=p.edges(); size_t ne=0; for(auto& f:faces) ne+=f.size(); ne/=2; if(e.size(0)!=ne) return bad("number of edges"); auto h=p.half_edges(); for(ind_t i=0;i<ne;++i) if(!same(at(h,i),lat::mul(lat::add(v[e.val(i,0)],v[e.val(i,1)]),0.5))) return bad("edge middles");
  auto fp=p.face_points(), fn=p.face_normals(); M Bt=lat::tr(B); for(size_t i=0;i<faces.size();++i){ std::vector<int> g; for(auto j:faces[i]) g.push_back(to[j]); V m{}; for(int j:g) m=lat::add(m,lat::mul(b.v[j],1./g.size())); if(!same(at(fp,ind_t(i)),m)) return bad("face points"); V n=lat::mv(B,at(fn,ind_t(i))); if(!lat::near(lat::norm(n),1,1e-9)) return bad("face normal length"); V nn=lat::mv(Bt,n); size_t q=0; for(;q<b.f.size();++q){ auto w=b.f[q]; auto s=g; std::sort(w.begin(),w.end()); std::sort(s.begin(),s.end()); if(w==s) break; } if(q==b.f.size()||!same(lat::mul(nn,1/lat::norm(nn)),b.p[q].n,1e-8)) return bad("face normal",lat::show(nn)); }
  auto fpv=p.faces_per_vertex(); if(fpv.size()!=v.size()) return bad("faces per vertex"); for(size_t i=0;i<v.size();++i){ std::set<size_t> a(fpv[i].begin(),fpv[i].end()),w; for(size_t f=0;f<faces.size();++f) for(auto j:faces[f]) if(j==i) w.insert(f); if(a!=w) return bad("faces per vertex"); }
  std::vector<V> x; for(double i=-2.25;i<=2.3;i+=0.75) for(double j=-2.25;j<=2.3;j+=0.75) for(double l=-2.25;l<=2.3;l+=0.75) x.push_back({i,j,l}); for(auto& y:b.v){ x.push_back(y); x.push_back(lat::add(lat::mul(y,0.999),lat::mul(b.centroid,0.001))); x.push_back(lat::add(lat::mul(y,1.001),lat::mul(b.centroid,-0.001))); }
  auto in=p.contains(k.make(x),1e-10,1000); for(size_t i=0;i<x.size();++i){ double d=solid::beyond(b.p,x[i]); if(in[i]!=(d<1e-9)) return bad("contains",lat::show(x[i])); } auto strict=p.contains(k.make(x)); for(size_t i=0;i<x.size();++i){ double d=solid::beyond(b.p,x[i]); if(std::abs(d)>1e-8&&strict[i]!=(d<0)) return bad("contains without tolerance",lat::show(x[i])); }
  if(p!=p||!(p==Pol<K>(p))) return bad("a polyhedron equals itself");
  vf::trans(12); return true; }
template<class K> Pol<K> cut(const K& k, const Pol<K>& p, const std::vector<Plane>& ps, bool tol){ auto [a,b,c]=planes(k,ps); vf::trans(); return tol?p.cut(a,b,c,1e-12,1000):p.cut(a,b,c); }
static Body operated(const Body& b, const std::function<V(const V&)>& x, const M& W){ M it=lat::tr(lat::inv(W)); std::vector<Plane> ps; for(size_t i=0;i<b.p.size();++i){ V n=lat::mv(it,b.p[i].n); V o=x(b.v[b.f[i][0]]); ps.push_back({n,lat::dot(n,o)}); } return solid::body(ps); }
//! derived polyhedra
template<class K> void derived(const K& k, const Pol<K>& p, const Body& b, const std::string& id){ M one{1,0,0,0,1,0,0,0,1}; M neg{-1,0,0,0,-1,0,0,0,-1};
  agrees(k,p.mirror(),operated(b,[](const V& x){ return lat::mul(x,-1); },neg),id+" mirrored",true); agrees(k,p.centre(),operated(b,[&](const V& x){ return lat::sub(x,b.centroid); },one),id+" centred",false);
  VF_CHECK(b.v.size()<4||p.mirror().mirror()==p,"mirroring twice",id);
  bool exact=std::is_same_v<K,Bare>; { auto pv=p.vertices(); for(ind_t i=0;i<pv.size(0);++i) for(double y:at(pv,i)) exact&= y*64==std::floor(y*64); } if(exact) agrees(k,p.convex_hull(),b,id+" hull of its vertices",false);
  agrees(k,Pol<K>(p.vertices(),1e-10,1000),b,id+" hull of its vertices within tolerance",false);
  { std::vector<V> x; for(auto& y:b.v) x.push_back(y); x.push_back(b.centroid); for(size_t i=0;i<b.v.size();i+=2) x.push_back(lat::mul(lat::add(b.v[i],b.centroid),0.5)); for(auto& f:b.f){ V m{}; for(int j:f) m=lat::add(m,lat::mul(b.v[j],1./f.size())); x.push_back(lat::add(lat::mul(m,0.875),lat::mul(b.centroid,0.125))); } x.push_back(b.v[0]); if(x.size()<=40) agrees(k,Pol<K>(k.make(x),1e-10,1000),b,id+" hull with inner and repeated points",false); }
  { // corners listed in any order, some corners listed twice
    std::vector<V> x=b.v; auto f=b.f; x.push_back(b.v[0]); std::vector<std::vector<ind_t>> g; for(size_t i=0;i<f.size();++i){ std::vector<ind_t> h; for(int j:f[i]) h.push_back(i%2&&j==0?ind_t(b.v.size()):ind_t(j)); if(lat::det(k.B())<0) std::reverse(h.begin(),h.end()); std::rotate(h.begin(),h.begin()+i%h.size(),h.end()); g.push_back(h); } auto q=Pol<K>(k.make(x),g); VF_CHECK(lat::near(q.volume(),p.volume(),1e-9),"volume of a polyhedron made from faces",id); }
  if constexpr(std::is_same_v<K,Latt>){ auto t=k.make({{0.5,-0.25,1}}); agrees(k,p.translate(t),operated(b,[](const V& x){ return lat::add(x,{0.5,-0.25,1}); },one),id+" translated",false); }
}
static const std::vector<Plane>& pool(){ static std::vector<Plane> p; if(p.empty()){ for(int a=-1;a<=1;++a) for(int b=-1;b<=1;++b) for(int c=-1;c<=1;++c) if(a||b||c) for(double d: {-0.5,0.,0.5,1.}) p.push_back({{double(a),double(b),double(c)},d}); for(V n: {V{1,2,0},V{-1,0,2},V{2,-1,1},V{1,-2,-2},V{0,1,-2},V{-2,1,1}}) for(double d: {-0.5,0.,1.}) p.push_back({n,d}); } return p; }
static std::string show(const Plane& p){ return vf::fmt("(%g %g %g)<=%g",p.n[0],p.n[1],p.n[2],p.d); }
template<class K> void start(const K& k, int shape, std::vector<Plane>& ps, std::unique_ptr<Pol<K>>& p){ ps= shape==0?solid::box(1,1,1):solid::box(1,2,1.5,{0.25,0,0}); auto b=solid::body(ps); std::vector<std::vector<ind_t>> f; for(auto& x:b.f){ f.emplace_back(x.begin(),x.end()); if(lat::det(k.B())<0) std::reverse(f.back().begin(),f.back().end()); } p=std::make_unique<Pol<K>>(k.make(b.v),polyhedron::Faces(f)); }
//! all sequences of cuts that start with one plane
template<class K> void sequences(const K& k, int shape, size_t first, int depth, bool tol, const std::string& id){
  std::vector<Plane> ps; std::unique_ptr<Pol<K>> p; start(k,shape,ps,p); auto& pl=pool(); if(first==0) agrees(k,*p,solid::body(ps),id+" uncut",true);
  std::function<void(const Pol<K>&,std::vector<Plane>,size_t,int,std::string)> go=[&](const Pol<K>& q, std::vector<Plane> have, size_t i, int left, std::string path){
    path+=" "+show(pl[i]); auto was=solid::body(have); auto wasv=was.volume; have.push_back(pl[i]); Body b=solid::body(have); auto [a1,b1,c1]=planes(k,{pl[i]}); vf::trace(); auto n= tol?q.one_cut(a1,b1,c1,1e-12,1000):q.one_cut(a1,b1,c1); vf::trans(); if(!agrees(k,n,b,id+path,left==1||tol)) return;
    // the other part
    Plane o{lat::mul(pl[i].n,-1),-pl[i].d}; auto m=cut(k,q,{o},tol); double sc=std::abs(lat::det(k.B())); VF_CHECK(std::abs(m.volume()+n.volume()-wasv*sc)<1e-9*sc,"the parts of a cut add up",id+path); if(b.volume>0&&m.volume()>1e-9*sc){ auto u=n.combine(m,1e-12,1000); VF_CHECK(lat::near(u.volume(),wasv*sc,1e-9),"the parts of a cut combined",id+path); VF_CHECK(!n.intersects(m,1e-10,1000)&&!m.intersects(n,1e-10,1000),"the parts of a cut do not intersect",id+path); }
    if(b.volume==0){ vf::outcome("nothing left"); return; } 
    bool changed=b.volume<wasv-1e-9; { bool is=false; for(auto& f:b.p) is|=same(f.n,lat::mul(pl[i].n,1/lat::norm(pl[i].n)),1e-9)&&std::abs(f.d-pl[i].d/lat::norm(pl[i].n))<1e-9; if(left==depth) VF_CHECK(n.has_face(a1,b1,c1)==is,"has a face",id+path+vf::fmt(" expected %d",int(is))); }
    if(tol&&left==depth){ auto d=q.divide(a1,b1,c1); VF_CHECK(lat::near(d.volume(),b.volume*sc,1e-9)&&same(at(d.centroid(),0),b.centroid,1e-8),"divided by a plane",id+path); auto rr=n.rand_rejection(7,3); auto ins=n.contains(rr,1e-10,1000); VF_CHECK(rr.size(0)==7&&std::all_of(ins.begin(),ins.end(),[](bool x){ return x; }),"random points are inside",id+path); double md=1e300; for(size_t u=0;u<b.v.size();++u) for(size_t w=0;w<u;++w) md=std::min(md,lat::norm(lat::mv(k.B(),lat::sub(b.v[u],b.v[w])))); VF_CHECK(lat::near(n.faces().minimum_distance(n.vertices()),md,1e-8),"minimum distance",id+path); auto more=b.v; more.insert(more.begin(),more[0]); more.push_back({9,9,9}); std::vector<std::vector<ind_t>> fi; for(auto& f:b.f){ fi.emplace_back(); for(int z:f) fi.back().push_back(ind_t(z+1)); } VF_CHECK(lat::near(polyhedron::Faces(fi).minimum_distance(k.make(more)),md,1e-8),"minimum distance between the corners in use",id+path); } vf::outcome(vf::fmt("%zu %zu",b.v.size(),b.f.size())); if(changed) derived(k,n,b,id+path);
    if(left>1&&changed) for(size_t j=left>2?0:i;j<pl.size();++j){ if(!vf::thorough()&&left<=2&&(i*7+j*3)%5) continue; go(n,have,j,left-1,path); } };
  go(*p,ps,first,depth,""); }
//! pairs of polyhedra: one cut solid against another
template<class K> void pairs(const K& k, size_t first, bool tol, const std::string& id){
  auto& pl=pool(); std::vector<Plane> ps; std::unique_ptr<Pol<K>> p0; start(k,0,ps,p0); auto cs=ps; cs.push_back(pl[first]); auto A=cut(k,*p0,{pl[first]},tol); Body ba=solid::body(cs); if(ba.volume==0) return; double sc=std::abs(lat::det(k.B()));
  for(int shape=0;shape<2;++shape) for(size_t j=0;j<pl.size();j+=(vf::thorough()?1:3)) for(V o: {V{0,0,0},V{0.5,0.25,-0.5},V{2,0,0},V{1,1,0},V{0,0,-2.5}}){ auto qs= shape?solid::box(0.5,0.5,1,o):solid::box(1,1,1,o); auto bq=solid::body(qs); std::vector<std::vector<ind_t>> f; for(auto& x:bq.f){ f.emplace_back(x.begin(),x.end()); if(lat::det(k.B())<0) std::reverse(f.back().begin(),f.back().end()); } Pol<K> q(k.make(bq.v),polyhedron::Faces(f)); Plane s=pl[j]; s.d+=lat::dot(s.n,o); qs.push_back(s); auto C=cut(k,q,{s},tol); Body bc=solid::body(qs); if(bc.volume==0) continue; vf::trace();
    auto all=cs; all.insert(all.end(),qs.begin(),qs.end()); Body b=solid::body(all); std::string e=id+" "+show(pl[first])+vf::fmt(" and box %d at %g %g %g ",shape,o[0],o[1],o[2])+show(s); auto X=tol?A.intersection(C,1e-12,1000):A.intersection(C), Y=tol?C.intersection(A,1e-12,1000):C.intersection(A); vf::trans(4);
    if(!agrees(k,X,b,e,false)||!agrees(k,Y,b,e+" reversed",false)) continue; bool t=A.intersects(C,1e-10,1000), u=C.intersects(A,1e-10,1000); VF_CHECK(t==(b.volume>0)&&u==t,"intersects",e+vf::fmt(" %d %d common volume %g",int(t),int(u),b.volume)); vf::outcome(b.volume>0?"common part":"no common part"); } (void)sc; }
//! operations of the point group of a lattice, for both kinds of lattice vector
static void turned(size_t first){ auto cell=lat::cells()[first%3==0?0:3]; auto L=Direct(cell.l,cell.a,std::string(first%3==0?"P m -3 m":"P 6/m m m"),Basis(),true,AngleUnit::degree); for(auto unit: {LengthUnit::inverse_angstrom,LengthUnit::angstrom}){ Latt k{0}; auto& pl=pool(); std::vector<Plane> ps=solid::box(1,1,1); ps.push_back(pl[first]); Body b=solid::body(ps); if(b.volume==0) return; M B=unit==LengthUnit::inverse_angstrom?L.reciprocal_basis_vectors():L.real_basis_vectors(); std::vector<std::vector<ind_t>> f; for(auto& x:b.f){ f.emplace_back(x.begin(),x.end()); if(lat::det(B)<0) std::reverse(f.back().begin(),f.back().end()); } LVec<double> v(unit,L,Bare{}.make(b.v)); Pol<Latt> p(v,polyhedron::Faces(f)); auto g=L.pointgroup_symmetry();
  struct Any { M b; M B() const { return b; } typedef LVec<double> A; LengthUnit u; Lattice<double> l; A make(const std::vector<V>& x) const { return A(u,l,Bare{}.make(x)); } };
  for(size_t i=0;i<g.size();++i){ auto w=g.get(i); M W; for(int j=0;j<9;++j) W[j]=w[j]; if(unit==LengthUnit::inverse_angstrom) W=lat::tr(W); auto q=p.apply(g,ind_t(i)); vf::trans(); vf::trace(); std::string e="rotated "+show(pl[first])+vf::fmt(" by %zu unit %d",i,int(unit)); Body r=operated(b,[&](const V& x){ return lat::mv(W,x); },W); VF_CHECK(lat::near(q.volume(),p.volume(),1e-9),"volume of a rotated polyhedron",e+vf::fmt(" %g from %g",q.volume(),p.volume())); auto vs=q.vertices(); bool ok=vs.size(0)==r.v.size(); for(ind_t j=0;ok&&j<vs.size(0);++j){ bool h=false; for(auto& x:r.v) h|=same(x,at(vs,j)); ok&=h; } VF_CHECK(ok,"vertices of a rotated polyhedron",e); auto fn=q.face_normals(), fp=q.face_points(); auto ff=q.faces().faces(); ok=ff.size()==r.f.size(); VF_CHECK(ok,"faces of a rotated polyhedron",e); V c=at(q.centroid(),0); VF_CHECK(same(c,r.centroid,1e-8),"centroid of a rotated polyhedron",e+lat::show(c)); std::vector<V> x; for(auto& y:r.v) { x.push_back(lat::add(lat::mul(y,0.99),lat::mul(r.centroid,0.01))); x.push_back(lat::add(lat::mul(y,1.01),lat::mul(r.centroid,-0.01))); } LVec<double> xs(unit,L,Bare{}.make(x)); auto in=q.contains(xs,1e-10,1000); for(size_t j=0;j<x.size();++j) VF_CHECK(in[j]==(j%2==0),"containment in a rotated polyhedron",e); } } }
static void boxes(){ for(int c=0;c<int(lat::cells().size());++c){ Latt k{c}; M B=k.B(); std::vector<V> x{{1,0,0},{-0.5,2,0.25},{0,0,-1},{0.5,0.5,0.5}}; auto p=polyhedron::bounding_box(k.make(x)); V lo{1e9,1e9,1e9},hi{-1e9,-1e9,-1e9}; for(auto& y:x){ V z=lat::mv(B,y); for(int i=0;i<3;++i){ lo[i]=std::min(lo[i],z[i]); hi[i]=std::max(hi[i],z[i]); } } double v=(hi[0]-lo[0])*(hi[1]-lo[1])*(hi[2]-lo[2]); VF_CHECK(lat::near(p.volume(),v,1e-9),"volume of a bounding box",vf::fmt("%d %g %g",c,p.volume(),v)); auto in=p.contains(k.make(x),1e-10,1000); for(bool b:in) VF_CHECK(b,"a bounding box holds its points",vf::fmt("%d",c)); vf::state(); vf::trans(2); Bare bk{}; auto q=polyhedron::bounding_box(bk.make(x)); auto bx=solid::body({{{1,0,0},1},{{-1,0,0},0.5},{{0,1,0},2},{{0,-1,0},0},{{0,0,1},0.5},{{0,0,-1},1}}); agrees(bk,q,bx,"bounding box",true); } }
//! equality: the same body told with its corners, faces and face starts in any order is equal; a body with other corners or other faces is not
template<class K> void equality(const K& k, size_t first){ auto& pl=pool(); std::vector<Plane> ps=solid::box(1,1,1); ps.push_back(pl[first]); Body b=solid::body(ps); if(b.volume==0) return; typedef std::vector<std::vector<ind_t>> F; size_t n=b.v.size();
  F f; for(auto& x:b.f){ f.emplace_back(x.begin(),x.end()); if(lat::det(k.B())<0) std::reverse(f.back().begin(),f.back().end()); } Pol<K> p(k.make(b.v),polyhedron::Faces(f));
  auto canon=[](const std::vector<V>& v, const F& g){ std::set<std::vector<V>> s; for(auto& x:g){ std::vector<V> y; for(auto i:x) y.push_back(v[i]); std::rotate(y.begin(),std::min_element(y.begin(),y.end()),y.end()); s.insert(y); } return s; }; auto mine=canon(b.v,f);
  auto judge=[&](const std::vector<V>& v, const F& g, const std::string& what){ Pol<K> q(k.make(v),polyhedron::Faces(g)); bool same=canon(v,g)==mine; vf::state(); vf::trans(4); vf::tally(same?"equal pairs":"unequal pairs"); bool e=p==q, ne=p!=q, er=q==p, ap=p.is_approx(q,1e-10,1000); VF_CHECK(e==same&&ne!=same&&er==same&&ap==same,"equality of polyhedra",vf::fmt("plane %s %s: same %d but == %d != %d reversed == %d approx %d",show(pl[first]).c_str(),what.c_str(),same,e,ne,er,ap)); };
  auto relabel=[&](const std::vector<ind_t>& to, bool faces, size_t roll){ std::vector<V> v(n); for(size_t i=0;i<n;++i) v[to[i]]=b.v[i]; F g=f; if(faces) for(auto& x:g) for(auto& i:x) i=to[i]; for(auto& x:g) std::rotate(x.begin(),x.begin()+roll%x.size(),x.end()); std::rotate(g.begin(),g.begin()+roll%g.size(),g.end()); judge(v,g,"corners "+vf::vec(to)+vf::fmt(" faces too %d roll %zu",faces,roll)); };
  std::vector<ind_t> id(n); for(size_t i=0;i<n;++i) id[i]=ind_t(i);
  for(bool faces: {true,false}) for(size_t roll=0;roll<3;++roll){ for(size_t i=0;i<n;++i) for(size_t j=i;j<n;++j){ if(i==j&&i) continue; auto t=id; std::swap(t[i],t[j]); relabel(t,faces,roll); } for(size_t r=1;r<n;++r){ auto t=id; std::rotate(t.begin(),t.begin()+r,t.end()); relabel(t,faces,roll); } { auto t=id; std::reverse(t.begin(),t.end()); relabel(t,faces,roll); } }
  for(size_t i=0;i<f.size();++i){ auto g=f; std::reverse(g[i].begin(),g[i].end()); judge(b.v,g,vf::fmt("face %zu reversed",i)); g=f; g.erase(g.begin()+i); judge(b.v,g,vf::fmt("face %zu missing",i)); if(f[i].size()>3){ g=f; std::swap(g[i][0],g[i][1]); judge(b.v,g,vf::fmt("face %zu crossed",i)); } for(size_t j=0;j<f.size();++j) if(j!=i){ g=f; g[i]=f[j]; judge(b.v,g,vf::fmt("face %zu twice",j)); } }
  for(size_t i=0;i<n;++i){ auto v=b.v; v[i]=lat::mul(v[i],1.25); judge(v,f,vf::fmt("corner %zu moved",i)); v=b.v; std::swap(v[i],v[(i+1)%n]); v[i]=lat::mul(v[i],0.75); judge(v,f,vf::fmt("corner %zu moved in another order",i)); }
  for(size_t o=0;o<pl.size();o+=vf::thorough()?1:5){ auto qs=solid::box(1,1,1); qs.push_back(pl[o]); Body c=solid::body(qs); if(c.volume==0) continue; F g; for(auto& x:c.f){ g.emplace_back(x.begin(),x.end()); if(lat::det(k.B())<0) std::reverse(g.back().begin(),g.back().end()); } judge(c.v,g,"cut by "+show(pl[o])); } }
void vf_explore(){ size_t n=pool().size(); int depth=vf::thorough()?3:2;
  for(size_t i=0;i<n;++i){ for(int shape=0;shape<2;++shape) for(int tol=0;tol<2;++tol){ vf::run(vf::fmt("cuts %zu shape %d tolerance %d",i,shape,tol),[&]{ sequences(Bare{0},shape,i,depth-(shape||tol)+(depth==2&&(shape||tol)?1:0),tol,vf::fmt("Cartesian shape %d tol %d",shape,tol)); }); }
    for(int c: {6,3,8}){ if(!vf::thorough()&&(i+c)%3) continue; vf::run(vf::fmt("cuts %zu cell %d",i,c),[&]{ sequences(Latt{c},0,i,2,true,vf::fmt("lattice %d",c)); }); }
    if(vf::thorough()||i%3==0) vf::run(vf::fmt("pairs %zu",i),[&]{ pairs(Bare{0},i,true,"Cartesian pair"); });
    if(vf::thorough()||i%6==1) vf::run(vf::fmt("pairs %zu lattice",i),[&]{ pairs(Latt{6},i,true,"lattice pair"); });
    if(vf::thorough()||i%4==0){ vf::run(vf::fmt("equality %zu",i),[&]{ equality(Bare{0},i); }); if(vf::thorough()||i%8==0) vf::run(vf::fmt("equality %zu lattice",i),[&]{ equality(Latt{6},i); }); }
    vf::run(vf::fmt("rotated %zu",i),[&]{ turned(i); }); }
  vf::run("boxes",boxes); }
