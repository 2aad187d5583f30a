// G05: interpolation through the irreducible zone gives what symmetry demands at every equivalent point
#include "tets.hpp"
#include "turns.hpp"
#include "bz_trellis.hpp"
#include "bz_nest.hpp"
#include "bz_mesh.hpp"
using namespace brille; using namespace brille::lattice; using namespace turns; using tets::Domain; using zone::Zone;
//! a linear field; steady ones keep one phase and a positive overlap between any two points
template<class T> struct Linear { std::vector<T> a; std::vector<std::array<T,3>> g; V c; double size;
  static T make(double x, double y);
  Linear(const Domain& d, size_t n, bool steady, int seed): c(d.c), size(d.size){ for(size_t i=0;i<n;++i){ if(steady){ double q=num(i,seed); a.push_back(make(2+q,0.5*(2+q))); std::array<T,3> w; for(int k=0;k<3;++k){ double h=0.3*num(i+11*k,seed+5); w[k]=make(h,h/2); } g.push_back(w); } else { a.push_back(make(num(i,seed),num(i,seed+1))); std::array<T,3> w; for(int k=0;k<3;++k) w[k]=make(2*num(i+11*k,seed+2),2*num(i+11*k,seed+3)); g.push_back(w); } } }
  T at(size_t i, const V& x) const { T r=a[i]; for(int k=0;k<3;++k) r+=g[i][k]*((x[k]-c[k])/size); return r; }
  Row<T> row(const V& x) const { Row<T> r; for(size_t i=0;i<a.size();++i) r.push_back(at(i,x)); return r; } };
template<> double Linear<double>::make(double x, double){ return x; } template<> C Linear<C>::make(double x, double y){ return {x,y}; }
struct Frame { const char* name; RotatesLike like; LengthUnit unit; };
static const Frame frames[]={{"real",RotatesLike::vector,LengthUnit::real_lattice},{"axial",RotatesLike::pseudovector,LengthUnit::real_lattice},{"reciprocal",RotatesLike::vector,LengthUnit::reciprocal_lattice},{"phonon",RotatesLike::Gamma,LengthUnit::angstrom},{"phonon lattice",RotatesLike::Gamma,LengthUnit::real_lattice}};
template<class T> static Interpolator<T> store(const Linear<T>& f, const std::vector<V>& v, const Elements& e, const Frame& k){ std::vector<ind_t> sh{ind_t(v.size()),e.b,e.span()}; Array2<T> b(ind_t(v.size()),e.b*e.span()); for(ind_t i=0;i<v.size();++i) for(ind_t j=0;j<e.b*e.span();++j) b.val(i,j)=f.at(j,v[i]); return Interpolator<T>(b,sh,{e.s,3*e.v,9*e.m},k.like,k.unit); }
template<class T> static std::vector<Row<T>> flat(const Array<T>& a, size_t n){ std::vector<Row<T>> r(n); Array2<T> b(a); size_t all=size_t(b.size(0))*b.size(1), m=n?all/n:0; if(!n||b.size(0)!=n) return r; for(ind_t i=0;i<n;++i) for(ind_t j=0;j<m;++j) r[i].push_back(b.val(i,j)); return r; }
struct World { Lattice<double> L; M A,B; Zone z; ir::Solid S; Domain d; Crystal c; Symmetry sg; std::vector<M> G; std::vector<std::array<int,9>> ops; std::vector<double> det;
  //! where the data for a point may have come from: which operation, and the point of the irreducible zone
  std::vector<std::pair<size_t,V>> sources(const V& Q) const { V q=Q; for(int it=0;it<200;++it){ double w=z.beyond(q); if(w<=1e-12) break; size_t m=0; double best=-1e300; for(size_t i=0;i<z.tau.size();++i){ double e=lat::dot(q,z.tau[i])/(2*z.half[i])-0.5; if(e>best){ best=e; m=i; } } q=lat::sub(q,z.tau[m]); } std::vector<V> all{q}; for(size_t i=0;i<all.size();++i) for(auto& t:z.tau){ V y=lat::sub(all[i],t); if(z.beyond(y)>1e-9) continue; bool seen=false; for(auto& a:all) seen|=lat::norm(lat::sub(a,y))<1e-8*z.radius; if(!seen) all.push_back(y); }
    std::vector<std::pair<size_t,V>> r; for(auto& y:all) for(size_t k=0;k<G.size();++k){ V x=lat::mv(lat::inv(G[k]),y); if(S.beyond(x)<=1e-9*z.radius) r.push_back({k,x}); } return r; } };
//! all that `x` may become when operation k brings it from q
template<class T> static bool explains(const World& w, const Frame& f, const Elements& e, const Row<T>& x, size_t k, const V& q, const Row<T>& got){ if(f.like!=RotatesLike::Gamma){ const M& P=f.unit==LengthUnit::reciprocal_lattice?w.B:w.A; double sign=f.like==RotatesLike::pseudovector?w.det[k]:1; return same(turned(x,e,lat::mm(lat::inv(P),lat::mm(w.G[k],P)),sign),got,1e-7); }
  if constexpr(std::is_same_v<T,C>){ V h=lat::mv(lat::inv(w.B),q); std::array<int,9> inv; { ex::Mat m; std::copy(w.ops[k].begin(),w.ops[k].end(),m.begin()); auto n=ex::inv(m); std::copy(n.begin(),n.end(),inv.begin()); } for(size_t s=0;s<w.sg.size();++s){ auto S0=w.sg.getm(s); if(S0.getr()!=inv) continue; for(int j=0;j<27;++j){ auto t=S0.gett(); static const int step[3]={0,1,-1}; t[0]+=step[j%3]; t[1]+=step[j/3%3]; t[2]+=step[j/9]; Row<C> y; if(!turn(x,e,w.c,f.unit==LengthUnit::angstrom,w.A,h,Motion<int,double>(inv,t),y)) break; if(same(y,got,1e-7)) return true; } } } return false; }
template<class Grid> static void ask(Grid& g, const World& w, const std::vector<V>& v, const std::vector<V>& Q, const std::vector<std::vector<std::pair<size_t,V>>>& from, int level, const std::string& id){
  for(int k=0;k<5;++k){ bool ph=k>=3; if(ph&&w.c.r.empty()) continue; auto& fa=frames[ph?2:k]; auto& fb=frames[ph?k:(k+1)%3]; ind_t N=ind_t(w.c.r.size()); Elements ea{1,1,1,2}, eb=ph?Elements{k==3?1u:0u,N,(N<4||level)&&k==4?N*N:0u,k==3?2u:1u}:Elements{0,2,0,k%2+1u}; ea.b=eb.b; Linear<double> a(w.d,ea.b*ea.span(),false,k); Linear<C> b(w.d,eb.b*eb.span(),true,k+1); auto ia=store(a,v,ea,fa); auto ib=store(b,v,eb,fb); g.replace_data(ia,ib); std::string tag=id+" values "+fa.name+" vectors "+fb.name;
    auto check=[&](const std::vector<V>& pts, const std::vector<size_t>& at, int th, std::vector<Row<double>>* keepa, std::vector<Row<C>>* keepb){ auto h=from_xyz_like(LengthUnit::inverse_angstrom,w.L,Domain::array(pts)); vf::trans(pts.size()); try { auto [p,q]= th<0?g.ir_interpolate_at(h):g.ir_interpolate_at(h,th); auto pa=flat(p,pts.size()); auto qb=flat(q,pts.size()); for(size_t i=0;i<pts.size();++i){ bool ok=false; for(auto& [o,y]:from[at[i]]) if(explains(w,fa,ea,a.row(y),o,y,pa[i])&&explains(w,fb,eb,b.row(y),o,y,qb[i])){ ok=true; break; } if(!ok){ auto hh=lat::mv(lat::inv(w.B),pts[i]); vf::fail("symmetry gives the value",tag+vf::fmt(" threads %d sources %zu point ",th,from[at[i]].size())+lat::show(hh)); return false; } } if(keepa){ *keepa=pa; *keepb=qb; } return true; } catch(const std::exception& e){ vf::fail("interpolation at any point succeeds",tag+vf::fmt(" threads %d ",th)+e.what()); return false; } };
    std::vector<size_t> at; for(size_t i=0;i<Q.size();++i) at.push_back(i); std::vector<Row<double>> pa; std::vector<Row<C>> pb; vf::state(); if(!check(Q,at,-1,&pa,&pb)) return; for(int th:{1,3}){ std::vector<Row<double>> ra; std::vector<Row<C>> rb; if(!check(Q,at,th,&ra,&rb)) return; for(size_t i=0;i<Q.size();++i) VF_CHECK(same(pa[i],ra[i],1e-11)&&same(pb[i],rb[i],1e-11),"the number of threads has no effect",tag); } if(k==0||level) for(size_t i=0;i<Q.size();i+=level?5:37) if(!check({Q[i]},{i},i%2?1:-1,nullptr,nullptr)) return; } }
static void one(const ir::Setting& s, int shape, int tr, bool atoms, int level, const std::string& id){ vf::trace(); World w{Lattice<double>()}; auto sym=Spacegroup(s.hall).get_spacegroup_symmetry(); auto par=ir::parameters(s,ir::shapes()[shape]); std::vector<std::array<double,3>> pos; if(atoms){ w.c=crystal(sym,level?16:8,0,5); for(auto& r:w.c.r) pos.push_back({r[0],r[1],r[2]}); if(pos.empty()) return; w.L=Direct(par.first,par.second,sym,Basis(pos,w.c.type),false,AngleUnit::degree); } else w.L=ir::lattice(s,ir::shapes()[shape]);
  w.sg=w.L.spacegroup_symmetry(); auto la=w.L.to_xyz(LengthUnit::angstrom), lb=w.L.to_xyz(LengthUnit::inverse_angstrom); for(int i=0;i<9;++i){ w.A[i]=la[i]; w.B[i]=lb[i]; } BrillouinZoneConfig cfg; cfg.time_reversal(tr); BrillouinZone bz(w.L,cfg); w.z=zone::make(w.B,s.centring);
  w.ops=bz.get_pointgroup_symmetry().getall(); M iB=lat::inv(w.B); for(auto& o:w.ops){ M R; for(int i=0;i<9;++i) R[i]=o[i]; w.G.push_back(lat::mm(w.B,lat::mm(lat::tr(R),iB))); w.det.push_back(lat::det(R)>0?1:-1); } auto p=bz.get_ir_polyhedron(); w.d=tets::from(id,p); auto v=ir::cart(w.B,bz.get_ir_vertices().hkl()); w.S=ir::solid(v,bz.get_ir_vertices_per_face(),w.z.radius); VF_CHECK(w.S.wrong.empty(),"the irreducible zone is a convex polyhedron",id); if(!w.S.wrong.empty()) return;
  // points: inside, on faces, edges and corners of the irreducible zone under every operation, shifted; and a grid over several zones
  std::vector<V> q; int n=level?9:4; for(int i=0;i<n;++i){ V x{}; double t=0; for(size_t j=0;j<v.size();++j){ double u=0.05+std::abs(num(i*3+1,j+7)); x=lat::add(x,lat::mul(v[j],u)); t+=u; } q.push_back(lat::mul(x,1/t)); } { auto f=bz.get_ir_vertices_per_face(); for(size_t i=0;i<f.size();++i){ V m{}; for(auto j:f[i]) m=lat::add(m,lat::mul(v[j],1./f[i].size())); q.push_back(m); if(level||i%2) q.push_back(lat::add(lat::mul(v[f[i][0]],0.4),lat::mul(v[f[i][1]],0.6))); } } for(size_t i=0;i<v.size();i+=level?1:3) q.push_back(v[i]);
  std::vector<V> Q; std::vector<V> taus{{0,0,0},w.z.tau[0],lat::sub(lat::mul(w.z.tau[w.z.tau.size()/2],2),w.z.tau[1])}; for(size_t i=0;i<q.size();++i) for(size_t k=0;k<w.G.size();++k) for(size_t t=0;t<taus.size();++t){ if(!level&&t!=(i+k)%3&&!(i==0&&k%4==0)) continue; Q.push_back(lat::add(lat::mv(w.G[k],q[i]),taus[t])); } int m=level?4:2; for(int i=-m;i<=m;++i) for(int j=-m;j<=m;++j) for(int k=-m;k<=m;++k){ V h{1.5*i/m,1.5*j/m+(i%2?.03:0),1.5*k/m+.01*j}; Q.push_back(lat::mv(w.B,h)); } std::vector<std::vector<std::pair<size_t,V>>> from; for(auto& x:Q){ from.push_back(w.sources(x)); VF_CHECK(!from.back().empty(),"every point has a source",id+" "+lat::show(lat::mv(iB,x))); }
  double vol=0.15*w.d.volume; { BrillouinZoneTrellis3<double,C,double> t(bz,vol,false); ask(t,w,tets::points(t.get_xyz()),Q,from,level,id+" trellis"); } if(level||s.hall%2||!atoms){ BrillouinZoneNest3<double,C,double> t(bz,vol,ind_t(5)); ask(t,w,tets::points(t.get_xyz()),Q,from,level,id+" nest"); } if(level||s.hall%2==0||!atoms){ BrillouinZoneMesh3<double,C,double> t(bz,vol,1); ask(t,w,tets::points(t.get_mesh_xyz()),Q,from,level,id+" mesh"); } vf::outcome(vf::fmt("%zu operations",w.ops.size())); }
void vf_explore(){ int level=vf::thorough(); for(int hn:tets::halls()) for(int shape=0;shape<(level?3:1);++shape){ auto& s=ir::settings()[hn-1]; for(int k=0;k<3;++k){ if(k==1&&s.inversion) continue; std::string id=vf::fmt("hall %d shape %d %s",hn,shape,k==0?"data":k==1?"data time-reversal":"phonons"); vf::run(id,[&]{ one(s,shape,k==1,k==2,level,id); }); } } }
