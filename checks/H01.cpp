// H01: what is written to a file is read back as the same object, whatever the file held before and wherever a write was cut short
#include "turns.hpp"
#include "tets.hpp"
#include "bz_trellis.hpp"
#include "bz_mesh.hpp"
#include "bz_nest.hpp"
#include "mesh.hpp"
#include <functional>
#include <climits>
#include <omp.h>
using namespace brille; using namespace brille::lattice; using turns::num; using turns::C; using turns::Row; using lat::V; using tets::Domain;
namespace H=HighFive; namespace HS=HighFive::shim;
typedef std::vector<std::string> Says; // what an object says about itself: compared exactly
//! ---- the storage
//! the bytes between the matrix and the vector of a motion hold nothing
static bool raws(const HS::Blob& a, const HS::Blob& b){ if(a.raw.size()!=b.raw.size()) return false; if(a.type!=std::type_index(typeid(HF_Motion<int,double>))) return a.raw==b.raw; for(size_t i=0;i<a.raw.size();++i){ size_t at=i%a.esize; if((at<9*sizeof(int)||at>=a.esize-3*sizeof(double))&&a.raw[i]!=b.raw[i]) return false; } return true; }
static bool equal(const HS::Blob& a, const HS::Blob& b){ if(a.dims!=b.dims||a.type!=b.type||a.i!=b.i||!raws(a,b)||a.f.size()!=b.f.size()) return false; return a.f.empty()||std::memcmp(a.f.data(),b.f.data(),a.f.size()*sizeof(double))==0; }
static bool equal(const HS::Node& a, const HS::Node& b, std::string& where){ if(a.is_group!=b.is_group){ where+=" kind"; return false; } if(a.attrs.size()!=b.attrs.size()){ where+=" number of attributes"; return false; } for(auto& [k,x]:a.attrs){ auto it=b.attrs.find(k); if(it==b.attrs.end()||!equal(x,it->second)){ where+=" attribute "+k; return false; } } if(!a.is_group){ if(!equal(a.data,b.data)){ where+=" data"; return false; } return true; } if(a.children.size()!=b.children.size()){ where+=" number of members"; return false; } for(auto& [k,x]:a.children){ auto it=b.children.find(k); if(it==b.children.end()){ where+=" no "+k; return false; } std::string w="/"+k; if(!equal(*x,*it->second,w)){ where+=w; return false; } } return true; }
static std::shared_ptr<HS::Node> root(const std::string& f){ auto it=HS::files().find(f); return it==HS::files().end()?nullptr:it->second; }
static std::shared_ptr<HS::Node> find(std::shared_ptr<HS::Node> n, const std::string& e){ std::stringstream s(e); std::string p; while(n&&std::getline(s,p,'/')){ auto it=n->children.find(p); n=it==n->children.end()?nullptr:it->second; } return n; }
static std::shared_ptr<HS::Node> clone(const HS::Node& a){ auto r=std::make_shared<HS::Node>(a); for(auto& [k,x]:r->children) x=clone(*x); return r; }
static bool differ(const std::shared_ptr<HS::Node>& a, const std::shared_ptr<HS::Node>& b, std::string& w){ if(!a||!b){ w=" missing"; return a!=b; } return !equal(*a,*b,w); }
static size_t parts(const HS::Node& n){ size_t k=1+n.attrs.size(); for(auto& c:n.children) k+=parts(*c.second); return k; }
//! ---- what objects say
static void say(Says& s, const std::string& k, const std::string& v){ s.push_back(k+" "+v); }
static std::string put(double x){ return vf::fmt("%a",x); } static std::string put(C x){ return put(x.real())+"i"+put(x.imag()); } static std::string put(int x){ return std::to_string(x); } static std::string put(ind_t x){ return std::to_string(x); } static std::string put(size_t x){ return std::to_string(x); } static std::string put(bool x){ return x?"yes":"no"; }
template<class T> static std::string put(const std::vector<T>& v); template<class T, size_t N> static std::string put(const std::array<T,N>& v){ std::string r="{"; for(auto& x:v) r+=put(x)+","; return r+"}"; }
template<class T> static std::string put(const std::vector<T>& v){ std::string r="["; for(const auto& x:v) r+=put(T(x))+","; return r+"]"; }
template<class T> static std::string put(const Array2<T>& a){ std::string r=vf::fmt("(%u,%u)",a.size(0),a.size(1)); for(ind_t i=0;i<a.size(0);++i) for(ind_t j=0;j<a.size(1);++j) r+=put(a.val(i,j))+","; return r; }
template<class F> static void ask(Says& s, const std::string& k, F&& f){ try { say(s,k,f()); } catch(const std::exception& e){ std::string w=e.what(); say(s,k,"throws "+w.substr(0,w.find('\n'))); } vf::trans(); }
template<class T> static Says about(const Array2<T>& a){ return {put(a)}; }
static Says about(const approx_float::Config& c){ return {put(c.digit()),put(c.direct<double>()),put(c.reciprocal<double>())}; }
static Says about(const Motion<int,double>& m){ return {put(m.getr()),put(m.gett())}; }
static Says about(const Symmetry& y){ Says s{put(y.size())}; for(size_t i=0;i<y.size();++i) say(s,put(y.getm(i).getr()),put(y.getm(i).gett())); return s; }
static Says about(const PointSymmetry& y){ Says s{put(y.size())}; for(auto& m:y.getall()) s.push_back(put(m)); return s; }
static Says about(const Basis& b){ Says s{put(b.size()),put(b.positions())}; s.push_back(put(b.types())); for(size_t i=0;i<b.size();++i) s.push_back(put(b.position(i))); return s; }
static void add(Says& s, const std::string& k, const Says& o){ for(auto& x:o) s.push_back(k+": "+x); }
static Says about(const Lattice<double>& l){ Says s{put(l.real_basis_vectors()),put(l.reciprocal_basis_vectors()),put(int(l.bravais()))}; for(auto u:{LengthUnit::angstrom,LengthUnit::inverse_angstrom}){ say(s,"vectors",put(l.vectors(u))+put(l.metric(u))+put(l.to_xyz(u))+put(l.from_xyz(u))+put(l.lengths(u))+put(l.angles(u))+put(l.volume(u))); } add(s,"space",about(l.spacegroup_symmetry())); add(s,"point",about(l.pointgroup_symmetry())); add(s,"basis",about(l.basis())); say(s,"inversion",put(l.has_space_inversion())); say(s,"triclinic",put(l.is_triclinic())); auto p=l.primitive(); say(s,"primitive",put(p.real_basis_vectors())); return s; }
template<class T> static Says about(const LVec<T>& v){ Says s{put(v.hkl()),put(v.xyz()),put(int(v.type()))}; add(s,"lattice",about(v.lattice())); return s; }
static Says about(const polyhedron::Faces& f){ Says s; say(s,"faces",put(f.faces())); return s; }
template<class T, template<class> class A> static Says about(const polyhedron::Poly<T,A>& p){ Says s=about(p.vertices()); add(s,"faces",about(p.faces())); ask(s,"volume",[&]{ return put(p.volume()); }); ask(s,"normals",[&]{ return put(get_xyz(p.face_normals())); }); ask(s,"points",[&]{ return put(get_xyz(p.face_points())); }); return s; }
static Says about(const PermutationTable& t, size_t n){ Says s; for(size_t i=0;i<n;++i) for(size_t j=0;j<n;++j){ ask(s,vf::fmt("%zu %zu",i,j),[&]{ return put(t.has(i,j))+put(t.value_needed(i,j))+put(t.safe_get(i,j)); }); } return s; }
template<class T> static Says about(const Interpolator<T>& d){ Says s{put(d.size()),put(d.branches()),put(d.elements()),put(d.data())}; for(auto x:d.shape()) s.push_back(put(x)); s.push_back(d.to_string()); std::vector<std::pair<ind_t,double>> w; for(ind_t i=0;i<d.size()&&i<4;++i) w.push_back({i,0.1+i}); ask(s,"interpolated",[&]{ std::vector<std::vector<ind_t>> p(w.size()); for(auto& x:p) for(ind_t i=0;i<d.branches();++i) x.push_back(i); bArray<T> o(1u,d.branches()*d.branch_span(),T(0)); std::vector<ind_t> at; std::vector<double> f; d.interpolate_at(p,w,o,0u,true); return put(o); });
  for(ind_t i=0;i<d.size();++i) for(ind_t j=0;j<d.size();++j) for(bool ph:{false,true}) ask(s,vf::fmt("cost %u %u",i,j),[&]{ std::vector<double> c(d.branches()*d.branches(),0.0); d.add_cost(i,j,c,ph); return put(c); }); return s; }
template<class T, class R> static Says about(const DualInterpolator<T,R>& d, bool deep=true){ Says s{put(d.size()),put(d.branches())}; add(s,"values",about(d.values())); add(s,"vectors",about(d.vectors())); if(deep) for(ind_t i=0;i<d.size();++i) for(ind_t j=0;j<d.size();++j) ask(s,vf::fmt("pair %u %u",i,j),[&]{ return put(d.cost_matrix(i,j))+put(d.get_permutation(i,j)); }); return s; }
static Array2<double> hkl(int n, double s){ Array2<double> q(ind_t(n*n*n),3u); ind_t r=0; for(int i=0;i<n;++i) for(int j=0;j<n;++j) for(int k=0;k<n;++k,++r){ q.val(r,0)=s*(i-n/2)/double(n/2); q.val(r,1)=s*(j-n/2)/double(n/2)+0.013*i; q.val(r,2)=s*(k-n/2)/double(n/2)+0.007*j; } return q; }
static Says about(const BrillouinZone& z){ Says s; add(s,"lattice",about(z.get_lattice())); add(s,"primitive",about(z.get_primitive_lattice())); add(s,"first",about(z.get_polyhedron())); add(s,"irreducible",about(z.get_ir_polyhedron())); add(s,"stored",about(z.get_ir_polyhedron(false))); add(s,"wedge",about(z.get_ir_wedge_normals())); add(s,"group",about(z.get_pointgroup_symmetry())); say(s,"options",put(z.isprimitive())+put(z.add_time_reversal())); say(s,"text",z.to_string());
  LVec<double> Q(LengthUnit::inverse_angstrom,z.get_lattice(),hkl(5,1.3)); ask(s,"inside",[&]{ return put(z.isinside(Q))+put(z.isinside_wedge(Q)); }); ask(s,"moved",[&]{ LVec<double> q(LengthUnit::inverse_angstrom,z.get_lattice(),0u); LVec<int> t(LengthUnit::inverse_angstrom,z.get_lattice(),0u); bool ok=z.moveinto(Q,q,t,1); return put(ok)+put(q.hkl())+put(t.hkl()); }); ask(s,"irreducibly moved",[&]{ LVec<double> q(LengthUnit::inverse_angstrom,z.get_lattice(),0u); LVec<int> t(LengthUnit::inverse_angstrom,z.get_lattice(),0u); std::vector<size_t> r,i; bool ok=z.ir_moveinto(Q,q,t,r,i,1); return put(ok)+put(q.hkl())+put(t.hkl())+put(r)+put(i); }); return s; }
template<class P> static std::string both(const P& p){ typedef std::decay_t<decltype(std::get<0>(p))> A; typedef std::decay_t<decltype(std::get<1>(p))> B; (void)sizeof(A); (void)sizeof(B); Array2 a(std::get<0>(p)); Array2 b(std::get<1>(p)); return put(a)+put(b); }
//! points in, on and just beyond the vertices given
static Array2<double> around(const std::vector<V>& v, size_t limit){ V c{}; for(auto& x:v) c=lat::add(c,lat::mul(x,1./v.size())); std::vector<V> p; size_t step=v.size()/limit+1; for(size_t i=0;i<v.size();i+=step){ p.push_back(v[i]); p.push_back(lat::add(lat::mul(v[i],0.9),lat::mul(c,0.1))); V m=lat::mul(lat::add(v[i],v[(i*7+1)%v.size()]),0.5); p.push_back(m); for(double d:{1e-13,1e-9,1e-6,1e-3,3e-2}) p.push_back(lat::add(v[i],lat::mul(lat::sub(v[i],c),d))); } return Domain::array(p); }
template<class G, class=void> struct Zoned: std::false_type {}; template<class G> struct Zoned<G,std::void_t<decltype(std::declval<const G&>().get_brillouinzone())>>: std::true_type {};
template<class G> static void asks(Says& s, G g, const std::vector<V>& v){ auto x=around(v,40); for(ind_t i=0;i<x.size(0);++i) ask(s,vf::fmt("at %u",i),[&]{ if constexpr(Zoned<G>::value) return both(g.interpolate_at(from_xyz_like(LengthUnit::inverse_angstrom,g.get_brillouinzone().get_lattice(),x.extract(i)),1)); else return both(g.interpolate_at(x.extract(i),1)); }); }
template<class G> static void irasks(Says& s, G g){ auto L=g.get_brillouinzone().get_lattice(); LVec<double> Q(LengthUnit::inverse_angstrom,L,hkl(5,1.3)); for(ind_t i=0;i<Q.size(0);++i) ask(s,vf::fmt("ir %u",i),[&]{ return both(g.ir_interpolate_at(Q.extract(i),1)); }); }
template<class G> static Says grid(G g, const std::vector<V>& v, bool zone){ Says s=about(g.data(),v.size()<60); say(s,"vertices",vf::fmt("%zu",v.size())); for(auto& x:v) s.push_back(put(x)); auto all=[&]{ if constexpr(!std::is_void_v<G>) asks(s,g,v); }; all(); g.sort(); all(); for(size_t i=0;i<std::min<size_t>(v.size(),20);++i) for(size_t j=0;j<std::min<size_t>(v.size(),20);++j) ask(s,vf::fmt("order %zu %zu",i,j),[&]{ return put(g.data().get_permutation(ind_t(i),ind_t(j))); }); (void)zone; return s; }
typedef polytrellis::PolyTrellis<double,C,double,Array2> PT; typedef polytrellis::PolyTrellis<double,double,double,Array2> PTd; typedef BrillouinZoneTrellis3<double,C,double> ZT; typedef BrillouinZoneMesh3<double,C,double> ZM; typedef Mesh3<double,C,double,Array2> ME;
template<class R> static Says about(const polytrellis::PolyTrellis<double,R,double,Array2>& g){ Says s=grid(g,tets::points(g.vertices()),false); say(s,"cells",vf::fmt("%zu",size_t(polytrellis::PolyTrellis<double,R,double,Array2>(g).node_count()))); ask(s,"tetrahedra",[&]{ std::string r; for(auto& t:g.vertices_per_tetrahedron()) r+=put(t); return r; }); return s; }
static Says about(const ME& g){ Says s=grid(g,tets::points(g.get_mesh_xyz()),false); return s; }
static Says about(const ZT& g){ Says s=grid(g,tets::points(g.get_xyz()),true); add(s,"zone",about(g.get_brillouinzone())); irasks(s,g); return s; }
static Says about(const ZM& g){ Says s=grid(g,tets::points(g.get_mesh_xyz()),true); add(s,"zone",about(g.get_brillouinzone())); irasks(s,g); return s; }
//! ---- storable things
struct Thing { virtual ~Thing()=default; virtual bool write(H::File& f, const std::string& e) const=0; virtual bool write(H::Group& f, const std::string& e) const=0; virtual bool named(const std::string& f, const std::string& e, unsigned flags) const=0; virtual bool has_named() const=0;
  //! what is read back; throws if it can not be read
  virtual Says read(H::File& f, const std::string& e) const=0; virtual Says named_read(const std::string& f, const std::string& e) const=0; virtual Says self() const=0; virtual void rewrite(H::File& f, const std::string& e, H::File& g, const std::string& to) const=0; virtual bool agrees(H::File& f, const std::string& e) const=0; };
template<class T, class=void> struct Named: std::false_type {}; template<class T> struct Named<T,std::void_t<decltype(std::declval<const T&>().to_hdf(std::string(),std::string(),0u))>>: std::true_type {};
template<> struct Named<Lattice<double>>: std::false_type {};
template<class T, class=void> struct NotEq: std::false_type {}; template<class T> struct NotEq<T,std::void_t<decltype(std::declval<const T&>()!=std::declval<const T&>())>>: std::true_type {};
template<class T> struct Held: Thing { T o; std::function<Says(const T&)> tell; Held(T x, std::function<Says(const T&)> f): o(std::move(x)), tell(std::move(f)) {}
  static T get(H::File& f, const std::string& e){ return T::from_hdf(f,e); }
  bool write(H::File& f, const std::string& e) const override { return o.to_hdf(f,e); }
  bool write(H::Group& f, const std::string& e) const override { return o.to_hdf(f,e); }
  bool has_named() const override { return Named<T>::value; }
  bool named(const std::string& f, const std::string& e, unsigned flags) const override { if constexpr(Named<T>::value) return o.to_hdf(f,e,flags); else { H::File x(f,flags); return o.to_hdf(x,e); } }
  Says read(H::File& f, const std::string& e) const override { T x=get(f,e); return tell(x); }
  Says named_read(const std::string& f, const std::string& e) const override { if constexpr(Named<T>::value){ T x=T::from_hdf(f,e); return tell(x); } else { H::File x(f,H::File::ReadOnly); return read(x,e); } }
  Says self() const override { return tell(o); }
  void rewrite(H::File& f, const std::string& e, H::File& g, const std::string& to) const override { T x=get(f,e); if(!x.to_hdf(g,to)) throw std::runtime_error("not written"); }
  bool agrees(H::File& f, const std::string& e) const override { T x=get(f,e); if constexpr(NotEq<T>::value) return !(x!=o); else return true; } };
//! a lattice reads by value
template<> Lattice<double> Held<Lattice<double>>::get(H::File& f, const std::string& e){ return Lattice<double>::from_hdf(f,e); }
struct Lists { std::vector<std::vector<int>> v; template<class X> bool to_hdf(X& o, const std::string& e) const { return lists_to_hdf(v,o,e); } template<class X> static Lists from_hdf(X& o, const std::string& e){ return {lists_from_hdf<int>(o,e)}; } bool operator!=(const Lists& o) const { return v!=o.v; } };
struct Maps { std::map<size_t,size_t> v; template<class X> bool to_hdf(X& o, const std::string& e) const { return map_to_hdf(v,o,e); } template<class X> static Maps from_hdf(X& o, const std::string& e){ return {map_from_hdf<size_t,size_t>(o,e)}; } bool operator!=(const Maps& o) const { return v!=o.v; } };
static Says about(const Lists& l){ return {put(l.v)}; } static Says about(const Maps& l){ Says s; for(auto& [a,b]:l.v) s.push_back(put(a)+" "+put(b)); return s; }
typedef std::shared_ptr<Thing> Ptr; struct Named_t { std::string name; std::function<Ptr()> make; };
template<class T, class F> static Ptr hold(T x, F f){ return std::make_shared<Held<T>>(std::move(x),std::function<Says(const T&)>(f)); }
template<class T> static Ptr hold(T x){ return hold<T>(std::move(x),[](const T& y){ return about(y); }); }
static void clear(){ HS::budget()=-1; HS::files().clear(); }
static std::string first(const Says& a, const Says& b){ if(a.size()!=b.size()) return vf::fmt(" %zu and %zu answers",a.size(),b.size()); for(size_t i=0;i<a.size();++i) if(a[i]!=b[i]){ size_t k=0; while(k<a[i].size()&&k<b[i].size()&&a[i][k]==b[i][k]) ++k; k=k>12?k-12:0; return " "+a[i].substr(0,24)+" ..."+a[i].substr(k,80)+" became "+b[i].substr(0,24)+" ..."+b[i].substr(k,80); } return ""; }
//! ---- one object: round trips, places, interrupted writes
static void one(const Thing& t, int level, const std::string& id){ clear(); vf::trace(); vf::state(); Says want=t.self(); std::string w; { H::File f("a",H::File::OpenOrCreate); VF_CHECK(t.write(f,"e"),"writing reports success",id); } auto tree=clone(*root("a")->children["e"]); { H::File f("b",H::File::OpenOrCreate); t.write(f,"e"); w=""; VF_CHECK(!differ(find(root("b"),"e"),tree,w),"writing does not change the object",id+w); }
  auto back=[&](const std::string& f, const std::string& e, const std::string& how){ vf::state(); try { { H::File x(f,H::File::ReadOnly); Says got=t.read(x,e); VF_CHECK(got==want,"the object read back gives the same answers",id+" "+how+first(want,got)); VF_CHECK(t.agrees(x,e),"the object read back compares equal",id+" "+how); } Says got=t.named_read(f,e); VF_CHECK(got==want,"the object read back by name gives the same answers",id+" "+how+first(want,got)); } catch(const std::exception& x){ vf::fail("what was written can be read",id+" "+how+" "+x.what()); } };
  back("a","e","plain"); { H::File f("a",H::File::ReadOnly), g("c",H::File::OpenOrCreate); try { t.rewrite(f,"e",g,"again"); std::string d; VF_CHECK(!differ(tree,find(root("c"),"again"),d),"writing what was read gives the same file",id+d); } catch(const std::exception& x){ vf::fail("what was read can be written",id+" "+x.what()); } }
  { H::File f("d",H::File::OpenOrCreate); t.write(f,"deep/er/e"); auto g=f.createGroup("group"); t.write(g,"e"); t.write(g,"o"); for(auto e:{"deep/er/e","group/e","group/o"}){ w=""; VF_CHECK(!differ(tree,find(root("d"),e),w),"the entry can be anywhere in the file",id+" "+e+w); } } back("d","group/e","in a group"); back("d","deep/er/e","nested");
  if(t.has_named()) for(unsigned fl:{unsigned(H::File::OpenOrCreate),unsigned(H::File::Truncate),unsigned(H::File::Create|H::File::ReadWrite)}){ HS::files().erase("n"); t.named("n","e",fl); w=""; VF_CHECK(!differ(tree,find(root("n"),"e"),w),"writing by name writes the same",id+w); }
  { auto before=clone(*root("d")); VF_CHECK(vf::throws([&]{ t.named("d","e",H::File::ReadOnly); }),"a file opened for reading is not written",id); VF_CHECK(vf::throws([&]{ t.named_read("none","e"); }),"reading a missing file is an error",id); VF_CHECK(vf::throws([&]{ t.named_read("d","none"); }),"reading a missing entry is an error",id); w=""; VF_CHECK(!differ(before,root("d"),w),"failures leave the file alone",id+w); }
  // every place at which a write can be cut short, onto nothing and onto an earlier entry
  size_t n=parts(*tree), step=level?(n>20000?n/20000+1:1):n/60+1; for(size_t k=0;k<n;k+=(k<40?1:step)) for(int over=0;over<2;++over){ if(over&&k%3&&!level) continue; vf::state(); HS::files().erase("cut"); H::File f("cut",H::File::OpenOrCreate); f.createGroup("other"); if(over) t.write(f,"e"); HS::budget()=long(k); bool threw=vf::throws([&]{ t.write(f,"e"); }); HS::budget()=-1; VF_CHECK(threw,"an interrupted write is reported",id+vf::fmt(" at %zu",k)); VF_CHECK(f.exist("other"),"an interrupted write leaves other entries",id+vf::fmt(" at %zu",k)); bool whole=false; try { H::File g("again",H::File::Truncate); t.rewrite(f,"e",g,"e"); whole=true; } catch(const std::exception&){} vf::trans(); if(whole){ w=""; VF_CHECK(!differ(tree,find(root("again"),"e"),w),"an interrupted write is never read as another object",id+vf::fmt(" at %zu of %zu",k,n)+w); } if(k%7==0||level){ t.write(f,"e"); w=""; VF_CHECK(!differ(tree,find(root("cut"),"e"),w),"an interrupted write can be repeated",id+vf::fmt(" at %zu",k)+w); } }
  vf::outcome(vf::fmt("%zu parts",n)); clear(); }
//! ---- histories of one file
static void histories(const std::vector<std::pair<std::string,Ptr>>& items, int depth, size_t from, const std::string& id){ clear(); static const std::vector<std::string> places{"a","b","g/a"}; struct Op { size_t item, place; int how; }; std::vector<Op> ops; for(size_t i=0;i<items.size();++i) for(size_t p=0;p<places.size();++p) for(int h=0;h<3;++h) ops.push_back({i,p,h}); std::vector<std::shared_ptr<HS::Node>> tree; std::vector<Says> want; for(auto& [n,t]:items){ H::File f("x",H::File::Truncate); t->write(f,"e"); tree.push_back(clone(*find(root("x"),"e"))); want.push_back(t->self()); }
  std::function<void(std::map<std::string,size_t>,int,std::string)> go=[&](std::map<std::string,size_t> model, int d, std::string hist){ auto saved=root("h")?clone(*root("h")):nullptr; for(size_t i=0;i<ops.size();++i){ if(d==0&&i!=from) continue; auto& o=ops[i]; if(saved) HS::files()["h"]=clone(*saved); else HS::files().erase("h"); auto m=model; std::string h=hist+vf::fmt(" %s>%s%s",items[o.item].first.c_str(),places[o.place].c_str(),o.how==0?"":o.how==1?"(open)":"(truncate)"); bool ok=true; try { if(o.how==2){ m.clear(); ok=items[o.item].second->named("h",places[o.place],H::File::Truncate); } else if(o.how==0) ok=items[o.item].second->named("h",places[o.place],H::File::OpenOrCreate); else { H::File f("h",H::File::ReadWrite|H::File::Create); ok=items[o.item].second->write(f,places[o.place]); } } catch(const std::exception& e){ vf::fail("every write succeeds",id+h+" "+e.what()); continue; } VF_CHECK(ok,"every write reports success",id+h); m[places[o.place]]=o.item; vf::trans(); vf::state();
      HS::Node expect; for(auto& [e,k]:m){ auto* n=&expect; std::string p=e; auto cut=p.find('/'); if(cut!=std::string::npos){ auto& c=n->children[p.substr(0,cut)]; if(!c) c=std::make_shared<HS::Node>(); n=c.get(); p=p.substr(cut+1); } n->children[p]=tree[k]; } std::string w; VF_CHECK(equal(expect,*root("h"),w),"the file holds what was last written to each entry and nothing else",id+h+w);
      if(d+1==depth||d==0){ for(auto& [e,k]:m){ try { H::File f("h",H::File::ReadOnly); Says got=items[k].second->read(f,e); VF_CHECK(got==want[k],"every entry reads back as last written",id+h+" entry "+e+first(want[k],got)); } catch(const std::exception& x){ vf::fail("every entry can be read",id+h+" entry "+e+" "+x.what()); } } for(auto& p:places) if(!m.count(p)) VF_CHECK(vf::throws([&]{ H::File f("h",H::File::ReadOnly); items[o.item].second->read(f,p); }),"an entry that was not written can not be read",id+h+" entry "+p); } if(d+1<depth) go(m,d+1,h); } }; vf::trace(); go({},0,""); clear(); }
//! ---- the catalogue
template<class T> static Array2<T> table(ind_t n, ind_t m, int seed){ Array2<T> a(n,m); for(ind_t i=0;i<n;++i) for(ind_t j=0;j<m;++j){ if constexpr(std::is_same_v<T,C>) a.val(i,j)=C(num(i+seed,j),num(j,i)); else if constexpr(std::is_floating_point_v<T>) a.val(i,j)=num(i+seed,j)*std::pow(10.0,int(i*7+j*3+seed)%13-6); else a.val(i,j)=T(i*m+j+seed)*T(std::is_signed_v<T>&&(i+j)%2?-1:1); } return a; }
template<class T> static void arrays(std::vector<Named_t>& r, const std::string& type){ for(ind_t n=0;n<4;++n) for(ind_t m=0;m<4;++m) r.push_back({vf::fmt("%s array %u by %u",type.c_str(),n,m),[=]{ return hold(table<T>(n,m,1)); }}); r.push_back({type+" one row seen through a view",[=]{ auto a=table<T>(4,3,2); return hold<Array2<T>>(a.view(2)); }}); r.push_back({type+" rows seen through a view",[=]{ auto a=table<T>(5,3,2); return hold<Array2<T>>(a.view(1,4)); }}); r.push_back({type+" column ordered",[=]{ auto* p=new T[12](); for(int i=0;i<12;++i) p[i]=T(i*i+1); typename Array2<T>::shape_t sh{{4,3}}, st{{1,4}}; return hold(Array2<T>(p,12u,true,sh,st,true)); }}); }
template<class T> static Interpolator<T> data(ind_t n, ind_t modes, const std::array<ind_t,3>& e, RotatesLike like, LengthUnit unit, int cs, int cv, const std::array<double,3>& w, int seed, int extra=0){ ind_t s=e[0]+e[1]+e[2]; auto a=table<T>(n,modes*s,0); for(ind_t i=0;i<n;++i) for(ind_t j=0;j<modes*s;++j) a.val(i,j)=turns::value<T>(i*13+seed,j+seed); std::vector<ind_t> sh{n,modes,s}; if(modes==1&&extra==1) sh={n,s}; if(extra==2&&s%3==0) sh={n,modes,s/3,3}; return Interpolator<T>(a,sh,e,like,unit,cs,cv,w); }
template<class T> static void interpolators(std::vector<Named_t>& r, const std::string& type, int level){ static const std::array<ind_t,3> es[]={{1,0,0},{0,3,0},{0,0,9},{2,6,9},{1,3,0}}; static const std::array<double,3> ws[]={{1,1,1},{0,2.5,0},{1e-3,1,7}}; static const RotatesLike ls[]={RotatesLike::vector,RotatesLike::pseudovector,RotatesLike::Gamma}; static const LengthUnit us[]={LengthUnit::none,LengthUnit::angstrom,LengthUnit::inverse_angstrom,LengthUnit::real_lattice,LengthUnit::reciprocal_lattice}; for(int e=0;e<5;++e) for(int l=0;l<3;++l) for(int u=0;u<5;++u) for(int c=0;c<5;++c) for(int w=0;w<3;++w) for(int m=1;m<4;m+=level?1:2){ if(!level&&(e+l+u+c+w)%3) continue; r.push_back({vf::fmt("%s data elements %d rotates %d unit %d cost %d weights %d modes %d",type.c_str(),e,l,u,c,w,m),[=]{ return hold(data<T>(3,m,es[e],ls[l],us[u],0,c,ws[w],e+l+u,(e+c)%3)); }}); } r.push_back({type+" data, none",[]{ return hold(Interpolator<T>(0,3)); }}); }
template<class T, class R> static DualInterpolator<T,R> dual(ind_t n, ind_t modes, int k, bool sorted){ static const std::array<ind_t,3> es[]={{1,0,0},{0,3,0},{2,3,9},{1,6,0}}; auto a=data<T>(n,modes,es[k%4],RotatesLike(k%3),LengthUnit(1+k%4),0,k%5,{1,1,0.5*k},k); auto b=data<R>(n,modes,es[(k+1+k/4)%4],RotatesLike((k+1)%3),LengthUnit(1+(k+1)%4),0,(k+2)%5,{0.5,1,1},k+3); DualInterpolator<T,R> d(a,b); std::vector<ind_t> idx; for(ind_t i=0;i<n;++i) idx.push_back(i); auto keys=permutation_table_keys_from_indicies(idx.begin(),idx.end(),size_t(n)); if(k%2) while(keys.size()>2) keys.erase(keys.begin()); d.initialize_permutation_table(n,keys); if(sorted) d.sort(); return d; }
template<class G> static void fill(G& g, size_t n, int k, bool phonon, ind_t atoms){ static const std::array<ind_t,3> es[]={{1,0,0},{0,3,0},{2,3,9},{1,6,0}}; ind_t modes=1+k%3; auto a=data<double>(ind_t(n),modes,es[k%4],RotatesLike(k%2),k%3?LengthUnit::real_lattice:LengthUnit::reciprocal_lattice,0,k%5,{1,0.5,0.5*k},k); auto b=phonon?data<C>(ind_t(n),modes,{0,3*atoms,0},RotatesLike::Gamma,LengthUnit::angstrom,0,(k+2)%5,{0,1,0},k+3):data<C>(ind_t(n),modes,es[(k+1)%4],RotatesLike((k+1)%2),LengthUnit::real_lattice,0,(k+2)%5,{0.5,1,1},k+3); g.replace_data(a,b); if(k%2) g.sort(); }
static Lattice<double> crystal_of(const ir::Setting& s, int shape, bool atoms, ind_t* n=nullptr){ if(!atoms) return ir::lattice(s,ir::shapes()[shape]); auto sym=Spacegroup(s.hall).get_spacegroup_symmetry(); auto par=ir::parameters(s,ir::shapes()[shape]); auto c=turns::crystal(sym,12,0,5); std::vector<std::array<double,3>> pos; for(auto& r:c.r) pos.push_back({r[0],r[1],r[2]}); if(n) *n=ind_t(pos.size()); return Direct(par.first,par.second,sym,Basis(pos,c.type),false,AngleUnit::degree); }
static BrillouinZoneConfig options(int k){ BrillouinZoneConfig c; c.time_reversal(k&1); if(k&2) c.primitive(false); if(k&4) c.wedge_search(false); return c; }
static approx_float::Config tolerances(int k){ approx_float::Config c; if(k==1){ c.digit(10); c.tol(1e-8); } if(k==2){ c.digit(1000); c.reciprocal(1e-4); } return c; }
static std::vector<Named_t> catalogue(int level){ std::vector<Named_t> r;
  arrays<double>(r,"double"); arrays<int>(r,"int"); arrays<ind_t>(r,"index"); arrays<C>(r,"complex"); arrays<size_t>(r,"size"); { r.push_back({"unusual numbers",[]{ Array2<double> a(2u,3u); double x[]={-0.0,5e-324,1.7976931348623157e308,-1e-300,0.1,1/3.}; for(int i=0;i<6;++i) a.val(i/3,i%3)=x[i]; return hold(a); }}); r.push_back({"unusual integers",[]{ Array2<int> a(2u,2u); a.val(0,0)=INT_MIN; a.val(0,1)=INT_MAX; a.val(1,0)=-1; a.val(1,1)=0; return hold(a); }}); r.push_back({"unusual indices",[]{ Array2<ind_t> a(1u,2u); a.val(0,0)=UINT_MAX; a.val(0,1)=0; return hold(a); }}); }
  for(int k=0;k<3;++k) r.push_back({vf::fmt("tolerances %d",k),[=]{ return hold(tolerances(k)); }});
  for(int k=0;k<6;++k) r.push_back({vf::fmt("lists %d",k),[=]{ Lists l; static const int len[6][4]={{0,0,0,0},{1,0,0,0},{3,0,2,0},{1,2,3,4},{0,5,0,0},{12,1,0,1}}; int n[]={0,1,3,4,2,4}; for(int i=0;i<n[k];++i){ l.v.emplace_back(); for(int j=0;j<len[k][i];++j) l.v.back().push_back(j*j-7*i); } return hold(l); }}); r.push_back({"many lists",[]{ Lists l; for(int i=0;i<25;++i) l.v.push_back(std::vector<int>(i%4,i)); return hold(l); }}); for(int k=0;k<4;++k) r.push_back({vf::fmt("map of %d",k*3),[=]{ Maps m; for(size_t i=0;i<size_t(k*3);++i) m.v[i*i*7+3]=i*11%5; return hold(m); }});
  for(int hn=1;hn<=530;hn+=level?1:(hn<110?9:13)){ r.push_back({vf::fmt("space group %d",hn),[=]{ return hold(Spacegroup(hn).get_spacegroup_symmetry()); }}); r.push_back({vf::fmt("point group %d",hn),[=]{ return hold(Spacegroup(hn).get_pointgroup_symmetry(hn%2)); }}); }
  for(int k=0;k<4;++k) r.push_back({vf::fmt("point operations in order %d",k),[=]{ auto all=Spacegroup(529-k*100).get_pointgroup_symmetry(0).getall(); PointSymmetry p; if(k<3) for(size_t i=0;i<all.size();++i) p.add(all[(i*5+3)%all.size()].data()); return hold(p); }}); for(int k=0;k<3;++k) r.push_back({vf::fmt("operations in order %d",k),[=]{ auto g=Spacegroup(529-k*100).get_spacegroup_symmetry(); Symmetry p; if(k<2) for(size_t i=0;i<g.size();++i) p.add(g.getm((i*5+3)%g.size())); return hold(p); }}); r.push_back({"motion",[]{ return hold(Motion<int,double>({1,2,-1,0,1,0,3,0,1},{0.25,1/3.,0.9})); }});
  for(int k=0;k<4;++k) r.push_back({vf::fmt("basis of %d",k),[=]{ std::vector<std::array<double,3>> p; std::vector<ind_t> t; for(int i=0;i<k;++i){ p.push_back({num(i,1),num(i,2)+3*i,-num(i,3)}); t.push_back(ind_t(i*5%3)); } return hold(Basis(p,t)); }});
  for(size_t h=0;h<tets::halls().size();++h) for(int shape=0;shape<(level?3:1);++shape) for(int atoms=0;atoms<2;++atoms){ int hn=tets::halls()[h]; auto& s=ir::settings()[hn-1]; std::string n=vf::fmt("hall %d shape %d%s",hn,shape,atoms?" with atoms":""); r.push_back({"lattice "+n,[&s,shape,atoms]{ return hold(crystal_of(s,shape,atoms)); }}); if(shape==0&&(level||h%4==0)) for(auto u:{LengthUnit::angstrom,LengthUnit::inverse_angstrom}) r.push_back({vf::fmt("vectors %d ",int(u))+n,[&s,shape,atoms,u]{ return hold(LVec<double>(u,crystal_of(s,shape,atoms),table<double>(4,3,1))); }}); if(level||h%3==size_t(atoms)) for(int k=0;k<8;++k){ if(!level&&(h/3+k)%4) continue; r.push_back({vf::fmt("zone options %d ",k)+n,[&s,shape,atoms,k]()->Ptr{ auto L=crystal_of(s,shape,atoms); std::optional<BrillouinZone> z; try { z.emplace(L,options(k)); } catch(const std::exception&){ return nullptr; } return hold(*z); }}); } }
  auto bs=tets::bodies(); for(auto& d:bs) { r.push_back({"faces "+d.name,[d]{ return hold(d.poly().faces()); }}); r.push_back({"polyhedron "+d.name,[d]{ return hold(d.poly()); }}); } { r.push_back({"nothing polyhedron",[]{ return hold(polyhedron::Poly<double,Array2>()); }}); r.push_back({"no faces",[]{ return hold(polyhedron::Faces()); }}); }
  for(size_t h=0;h<tets::halls().size();h+=level?1:6){ int hn=tets::halls()[h]; r.push_back({vf::fmt("zone polyhedron %d",hn),[hn]{ return hold(BrillouinZone(ir::lattice(ir::settings()[hn-1],ir::shapes()[0])).get_ir_polyhedron()); }}); }
  for(int n=0;n<5;++n) for(int b=1;b<4;++b) for(int k=0;k<3;++k) r.push_back({vf::fmt("permutations %d points %d modes %d",n,b,k),[=]{ std::vector<ind_t> idx; for(ind_t i=0;i<ind_t(n);++i) idx.push_back(i); auto keys=permutation_table_keys_from_indicies(idx.begin(),idx.end(),size_t(n)); PermutationTable t(n,b,keys); if(k) for(int i=0;i<n;++i) for(int j=i+1;j<n;++j) if((i+j+k)%3){ std::vector<ind_t> p; for(int m=0;m<b;++m) p.push_back(ind_t((m+i+k*j)%b)); t.set(i,j,p); } return hold<PermutationTable>(t,[n](const PermutationTable& x){ return about(x,size_t(n)+1); }); }});
  interpolators<double>(r,"real",level); interpolators<C>(r,"complex",level); for(int n=1;n<5;++n) for(int m=1;m<4;++m) for(int k=0;k<(level?12:5);++k) for(int s=0;s<2;++s){ r.push_back({vf::fmt("dual %d points %d modes kind %d sorted %d",n,m,k,s),[=]{ return hold<DualInterpolator<double,C>>(dual<double,C>(n,m,k,s),[](const DualInterpolator<double,C>& d){ return about(d); }); }}); if(k%2) r.push_back({vf::fmt("real dual %d points %d modes kind %d sorted %d",n,m,k,s),[=]{ return hold<DualInterpolator<double,double>>(dual<double,double>(n,m,k,s),[](const DualInterpolator<double,double>& d){ return about(d); }); }}); }
  for(size_t i=0;i<bs.size();++i) for(int k=0;k<(level?6:2);++k){ auto d=bs[i]; r.push_back({vf::fmt("trellis %d ",k)+d.name,[d,i,k]{ PT t(d.poly(),(k%3==2?2.0:0.12)*d.volume,k%2,tolerances((k+int(i))%3)); fill(t,tets::points(t.vertices()).size(),k+int(i),false,0); return hold(t); }}); r.push_back({vf::fmt("mesh %d ",k)+d.name,[d,i,k]{ ME t(Domain::array(d.v),d.f,(k%3==2?2.0:k%3==1?0.05:0.12)*d.volume,k%3==1?3:1+k%3,-1); fill(t,tets::points(t.get_mesh_xyz()).size(),k+int(i),false,0); return hold(t); }}); }
  for(size_t h=0;h<tets::halls().size();h+=level?1:3) for(int k=0;k<(level?4:2);++k) for(int g=0;g<2;++g){ int hn=tets::halls()[h]; auto& s=ir::settings()[hn-1]; std::string n=vf::fmt("%s %d hall %d",g?"zone mesh":"zone trellis",k,hn); r.push_back({n,[&s,h,k,g]()->Ptr{ bool ph=(h+k)%3==0; ind_t atoms=0; auto L=crystal_of(s,0,ph,&atoms); if(ph&&!atoms) ph=false; BrillouinZone z(L,options(k%2)); double vol=0.2*z.get_ir_polyhedron().volume(); if(g==0){ ZT t(z,vol,k/2%2==1,tolerances(int(h+k)%3)); fill(t,tets::points(t.get_xyz()).size(),k+int(h),ph,atoms); return hold(t); } ZM t(z,k%3==1?vol/3:vol,k%3==1?3:1+k%3,-1); fill(t,tets::points(t.get_mesh_xyz()).size(),k+int(h),ph,atoms); return hold(t); }}); }
  return r; }
static std::vector<std::pair<std::string,Ptr>> small(){ std::vector<std::pair<std::string,Ptr>> r; r.push_back({"array",hold(table<double>(2,3,1))}); r.push_back({"empty",hold(table<double>(0,3,1))}); r.push_back({"lattice",hold(crystal_of(ir::settings()[2],0,false))}); r.push_back({"lists",hold(Lists{{{1,2},{3}}})}); r.push_back({"longer lists",hold(Lists{{{4},{5,6},{7}}})}); r.push_back({"dual",hold<DualInterpolator<double,C>>(dual<double,C>(2,2,1,true),[](const DualInterpolator<double,C>& d){ return about(d); })}); return r; }
void vf_explore(){ omp_set_num_threads(1); int level=vf::thorough(); for(auto& t:catalogue(level)) vf::run(t.name,[&]{ Ptr p=t.make(); if(!p) return; one(*p,level,t.name); });
  size_t n=small().size()*9; for(size_t i=0;i<n;++i) vf::run(vf::fmt("histories from %zu",i),[&]{ histories(small(),3,i,vf::fmt("histories from %zu:",i)); });
  vf::run("enumerations",[&]{ vf::trace(); auto distinct=[&](const H::DataType& d, size_t n, const std::string& w){ vf::state(); std::set<std::string> a; std::set<long long> b; for(auto& [k,v]:d.values){ a.insert(k); b.insert(v); } VF_CHECK(a.size()==n&&b.size()==n&&d.values.size()==n,"every value has a name of its own",w); }; distinct(H::create_datatype<RotatesLike>(),3,"RotatesLike"); distinct(H::create_datatype<NodeType>(),3,"NodeType"); distinct(H::create_datatype<Bravais>(),8,"Bravais"); distinct(H::create_datatype<LengthUnit>(),5,"LengthUnit"); });
  vf::run("nested grid",[&]{ vf::trace(); vf::state(); BrillouinZone z(ir::lattice(ir::settings()[0],ir::shapes()[0])); BrillouinZoneNest3<double,C,double> g(z,ind_t(20),ind_t(5)); VF_CHECK(vf::throws([&]{ (void)g.to_hdf("x","e",H::File::OpenOrCreate); })&&vf::throws([&]{ (void)BrillouinZoneNest3<double,C,double>::from_hdf("x","e"); }),"what can not be stored says so","nested grid"); }); }
