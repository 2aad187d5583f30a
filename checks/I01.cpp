// I01: interpolated data transform like the physical quantity, under every operation of every setting
#include "turns.hpp"
using namespace brille; using namespace brille::lattice; using lat::V; using lat::M; using namespace turns;
struct Group { PointSymmetry ps; std::vector<size_t> inv; std::vector<std::vector<size_t>> prod; size_t one; };
static Group group(const PointSymmetry& ps){ Group g{ps,{},{},0}; auto& all=ps.getall(); std::map<std::array<int,9>,size_t> at; for(size_t i=0;i<all.size();++i) at[all[i]]=i; g.one=at.at({1,0,0,0,1,0,0,0,1}); for(auto& a:all){ ex::Mat m; std::copy(a.begin(),a.end(),m.begin()); auto n=ex::inv(m); std::array<int,9> k; std::copy(n.begin(),n.end(),k.begin()); g.inv.push_back(at.at(k)); std::vector<size_t> row; for(auto& b:all){ ex::Mat c; std::copy(b.begin(),b.end(),c.begin()); auto p=ex::mul(m,c); std::copy(p.begin(),p.end(),k.begin()); row.push_back(at.at(k)); } g.prod.push_back(row); } return g; }
struct Frame { const char* name; RotatesLike like; LengthUnit unit; };
template<class T> struct Turner { Interpolator<T> in; const Elements e; const GammaTable& table; const Group& g; const Lattice<double>& lat;
  Turner(const Elements& el, RotatesLike like, LengthUnit unit, const GammaTable& t, const Group& gr, const Lattice<double>& l): e(el), table(t), g(gr), lat(l) { bArray<T> d(1u,el.b*el.span()); for(ind_t j=0;j<d.size(1);++j) d.val(0,j)=T(0); typename Interpolator<T>::shape_t sh{1u,el.b,el.span()}; in=Interpolator<T>(d,sh,{el.s,3*el.v,9*el.m},like,unit); }
  std::vector<Row<T>> operator()(const std::vector<Row<T>>& x, const std::vector<V>& q, const std::vector<size_t>& r, int threads) const { auto a=array(x); LVec<double> Q(LengthUnit::inverse_angstrom,lat,ind_t(q.size())); for(ind_t i=0;i<q.size();++i) for(ind_t k=0;k<3;++k) Q.val(i,k)=q[i][k]; std::vector<size_t> ir; for(auto i:r) ir.push_back(g.inv[i]); vf::trans(x.size()); in.rotate_in_place(a,Q,table,g.ps,r,ir,threads); return rows(a); } };
static V point(size_t i){ return {num(i,101),num(i,202),num(i,303)}; }
static V moved(const V& q, const std::array<int,9>& R){ V p{}; for(int i=0;i<3;++i) for(int j=0;j<3;++j) p[i]+=R[3*j+i]*q[j]; return p; } // R^T q
template<class T> static std::vector<Row<T>> data(size_t n, const Elements& e){ std::vector<Row<T>> x; for(size_t i=0;i<n;++i){ Row<T> r; for(size_t j=0;j<e.b*e.span();++j) r.push_back(value<T>(i,j)); x.push_back(r); } return x; }
//! the request can be split, reversed and shared between threads in any way
template<class T> static void requests(const Turner<T>& t, const std::vector<Row<T>>& x, const std::vector<V>& q, const std::vector<size_t>& r, const std::vector<Row<T>>& y, bool deep, const std::string& id){ for(int th:{2,3,4,7}){ if(!deep&&th!=3) continue; auto z=t(x,q,r,th); for(size_t i=0;i<x.size();++i) VF_CHECK(z[i]==y[i],"the number of threads has no effect",id+vf::fmt(" %d threads point %zu",th,i)); }
  auto back=[](auto v){ std::reverse(v.begin(),v.end()); return v; }; auto z=back(t(back(x),back(q),back(r),1)); for(size_t i=0;i<x.size();++i) VF_CHECK(z[i]==y[i],"other points in the request have no effect",id+vf::fmt(" reversed point %zu",i)); for(size_t i=0;i<x.size();i+=deep?3:13){ auto o=t({x[i]},{q[i]},{r[i]},1); VF_CHECK(o[0]==y[i],"other points in the request have no effect",id+vf::fmt(" alone point %zu",i)); } }
template<class T> static void simple(const Lattice<double>& lat, const Group& g, const M& A, const M& B, const Elements& e, bool deep, const std::string& id){ GammaTable table(false,lat); size_t n=g.inv.size(); auto& all=g.ps.getall(); static const Frame frames[]={{"real",RotatesLike::vector,LengthUnit::real_lattice},{"axial",RotatesLike::pseudovector,LengthUnit::real_lattice},{"reciprocal",RotatesLike::vector,LengthUnit::reciprocal_lattice}};
  for(auto& f:frames){ vf::state(); std::string tag=id+vf::fmt(" %s s%u v%u m%u b%u",f.name,e.s,e.v,e.m,e.b); Turner<T> t(e,f.like,f.unit,table,g,lat); auto x=data<T>(n,e); std::vector<V> q; std::vector<size_t> r; for(size_t i=0;i<n;++i){ q.push_back(point(i)); r.push_back(i); } auto y=t(x,q,r,1);
    const M& P=f.unit==LengthUnit::reciprocal_lattice?B:A; M Pi=lat::inv(P), Bi=lat::inv(B);
    for(size_t i=0;i<n;++i){ // Q=R^T q turns the wavevector by the Cartesian operation B R^T B^-1
      M Rt; for(int a=0;a<3;++a) for(int b=0;b<3;++b) Rt[3*a+b]=all[i][3*b+a]; M G=lat::mm(B,lat::mm(Rt,Bi)); double sign=f.like==RotatesLike::pseudovector?(lat::det(G)>0?1:-1):1; auto z=turned(x[i],e,lat::mm(Pi,lat::mm(G,P)),sign); VF_CHECK(same(z,y[i]),"the components are those of the rotated quantity",tag+" operation "+vf::vec(all[i])); if(i==g.one) VF_CHECK(x[i]==y[i],"the identity changes nothing",tag); }
    // inverse and products of all pairs
    { std::vector<size_t> ir; for(auto i:r) ir.push_back(g.inv[i]); auto z=t(y,q,ir,1); for(size_t i=0;i<n;++i) VF_CHECK(same(z[i],x[i]),"the inverse undoes an operation",tag+" operation "+vf::vec(all[i])); }
    requests(t,x,q,r,y,deep,tag);
    std::vector<Row<T>> u; std::vector<V> p; std::vector<size_t> s1,s2,s3; for(size_t i=0;i<n;++i) for(size_t j=0;j<n;++j){ u.push_back(x[(i+j)%n]); p.push_back(q[i]); s1.push_back(i); s2.push_back(j); s3.push_back(g.prod[i][j]); } auto z=t(t(u,p,s1,1),p,s2,1); auto w=t(u,p,s3,1); for(size_t k=0;k<u.size();++k) VF_CHECK(same(z[k],w[k]),"two operations are their product",tag+" operations "+vf::vec(all[s1[k]])+" "+vf::vec(all[s2[k]])); } }
// ---- phonon eigenvectors
static void phonon(const Lattice<double>& lat, const Group& g, const Symmetry& sg, const M& A, int reversal, const Crystal& c, LengthUnit unit, const Elements& ee, bool deep, const std::string& id){ vf::state(); Elements e(ee); ind_t N=ind_t(c.r.size()); e.v=e.v?N:0; e.m=e.m?N*N:0; auto table=GammaTable(true,lat,reversal,1e-6,1); Turner<C> t(e,RotatesLike::Gamma,unit,table,g,lat); size_t n=g.inv.size(); auto& all=g.ps.getall(); auto x=data<C>(n,e); std::vector<V> q; std::vector<size_t> r; for(size_t i=0;i<n;++i){ q.push_back(point(i)); r.push_back(i); } auto y=t(x,q,r,1); VF_CHECK(table.size()==N,"every atom is in the table",id);
  // the operation of the space group that explains what was done for each operation (not its inverse); a lattice translation gives every atom the same phase
  std::vector<std::optional<Motion<int,double>>> chosen(n);
  for(size_t i=0;i<n;++i){ bool ok=false,any=false; for(size_t k=0;k<sg.size()&&!ok;++k){ auto S0=sg.getm(k); if(S0.getr()!=all[g.inv[i]]) continue; for(int j=0;j<27&&!ok;++j){ auto t0=S0.gett(); static const int step[3]={0,1,-1}; t0[0]+=step[j%3]; t0[1]+=step[j/3%3]; t0[2]+=step[j/9]; Motion<int,double> S(S0.getr(),t0); Row<C> w; if(!turn(x[i],e,c,unit==LengthUnit::angstrom,A,q[i],S,w)) break; any=true; if(same(w,y[i],1e-7)){ ok=true; chosen[i]=S; } } } VF_CHECK(any&&ok,"eigenvectors move with their atoms",id+" operation "+vf::vec(all[i])); }
  { auto z=t(y,[&]{ std::vector<V> p; for(size_t i=0;i<n;++i) p.push_back(moved(q[i],all[i])); return p; }(),[&]{ std::vector<size_t> p; for(auto i:r) p.push_back(g.inv[i]); return p; }(),1); for(size_t i=0;i<n;++i){ auto a=*chosen[g.inv[i]], b=*chosen[i]; V T=moveby(a,moveby(b,{0,0,0})); bool whole=true; for(auto v:T) whole&=std::abs(v-std::round(v))<1e-6; if(!whole) continue; C f=std::exp(C(0,-lat::TWO_PI*lat::dot(q[i],T))); Row<C> w(x[i]); for(ind_t b2=0;b2<e.b;++b2){ size_t o=b2*e.span()+e.s; for(ind_t j=0;j<3*e.v;++j) w[o+j]*=f; } VF_CHECK(same(w,z[i],1e-7),"the inverse undoes an operation",id+" operation "+vf::vec(all[i])); } }
  std::vector<Row<C>> u; std::vector<V> p,p2; std::vector<size_t> s1,s2,s3; size_t step=deep?1:(n>16?5:n>8?2:1); for(size_t i=0;i<n;++i) for(size_t j=i%step;j<n;j+=step){ u.push_back(x[i]); p.push_back(q[j]); p2.push_back(moved(q[j],all[i])); s1.push_back(i); s2.push_back(j); s3.push_back(g.prod[i][j]); } auto z=t(t(u,p,s1,1),p2,s2,1); auto w=t(u,p,s3,1);
  for(size_t k=0;k<u.size();++k){ auto a=*chosen[s1[k]],b=*chosen[s2[k]],d=*chosen[s3[k]]; V T=lat::sub(moveby(b,moveby(a,{0,0,0})),moveby(d,{0,0,0})); bool whole=true; for(auto v:T) whole&=std::abs(v-std::round(v))<1e-6; if(!whole) continue; V Q=moved(p[k],all[s3[k]]); C f=std::exp(C(0,-lat::TWO_PI*lat::dot(Q,T))); Row<C> o(w[k]); for(ind_t b2=0;b2<e.b;++b2){ size_t at=b2*e.span()+e.s; for(ind_t j=0;j<3*e.v;++j) o[at+j]*=f; } VF_CHECK(same(o,z[k],1e-7),"two operations are their product",id+" operations "+vf::vec(all[s1[k]])+" "+vf::vec(all[s2[k]])); }
  requests(t,x,q,r,y,deep,id); vf::outcome(vf::fmt("atoms %u",N)); }
static void refused(const Lattice<double>& lat, const Group& g, const std::string& id){ GammaTable none(false,lat); auto ask=[&](RotatesLike l, LengthUnit u, const Elements& e, const GammaTable& t, auto zero, std::vector<size_t> r){ typedef decltype(zero) T; Turner<T> k(e,l,u,t,g,lat); auto x=data<T>(2,e); vf::state(); return vf::throws([&]{ bArray<T> a=array(x); LVec<double> Q(LengthUnit::inverse_angstrom,lat,2u); for(ind_t i=0;i<2;++i) for(ind_t j=0;j<3;++j) Q.val(i,j)=0.1*(i+j); k.in.rotate_in_place(a,Q,t,g.ps,r,r,2); }); }; Elements e{1,1,1,1}; std::vector<size_t> r{g.one,g.one};
  struct { RotatesLike l; LengthUnit u; } bad[]={{RotatesLike::pseudovector,LengthUnit::reciprocal_lattice},{RotatesLike::Gamma,LengthUnit::reciprocal_lattice},{RotatesLike::vector,LengthUnit::angstrom},{RotatesLike::pseudovector,LengthUnit::angstrom},{RotatesLike::vector,LengthUnit::inverse_angstrom},{RotatesLike::Gamma,LengthUnit::inverse_angstrom}}; for(auto& b:bad){ VF_CHECK(ask(b.l,b.u,e,none,0.,r),"a transform which is not known is refused",id); VF_CHECK(ask(b.l,b.u,e,none,C(0),r),"a transform which is not known is refused",id); } for(auto u:{LengthUnit::angstrom,LengthUnit::real_lattice}) VF_CHECK(ask(RotatesLike::Gamma,u,e,none,0.,r),"eigenvectors must be complex",id);
  for(auto l:{RotatesLike::vector,RotatesLike::pseudovector}){ VF_CHECK(ask(l,LengthUnit::real_lattice,e,none,0.,{g.one,g.inv.size()}),"an unknown operation is refused",id); VF_CHECK(ask(l,LengthUnit::real_lattice,e,none,0.,{g.one}),"an operation is needed for every point",id); } }
static void wrong_count(const Lattice<double>& lat, const Group& g, ind_t N, const std::string& id){ GammaTable table(true,lat,0,1e-6,1); for(auto u:{LengthUnit::angstrom,LengthUnit::real_lattice}) for(ind_t v:{N-1,N+1}) for(int m=0;m<2;++m){ if(v==0&&!m) continue; Elements e{0,m?0u:v,m?(v?v*v:2):0u,1}; if(m&&e.m==N*N) continue; vf::state(); bool threw=false; try { Turner<C> t(e,RotatesLike::Gamma,u,table,g,lat); t(data<C>(1,e),{point(1)},{g.one},1); } catch(const std::exception&){ threw=true; } VF_CHECK(threw,"one vector for each atom is needed",id+vf::fmt(" %u vectors %u matrices for %u atoms",e.v,e.m,N)); } }
void vf_explore(){ int level=vf::thorough(); for(auto& s:ir::settings()) for(int sh=0;sh<(level?3:1);++sh){ std::string id=vf::fmt("hall %d shape %d",s.hall,sh); vf::run(id,[&]{ vf::trace(); auto l=ir::lattice(s,ir::shapes()[sh]); M A,B; auto la=l.to_xyz(LengthUnit::angstrom), lb=l.to_xyz(LengthUnit::inverse_angstrom); for(int i=0;i<9;++i){ A[i]=la[i]; B[i]=lb[i]; }
    if(s.first) for(int tr=0;tr<2;++tr){ auto ps=l.pointgroup_symmetry(); if(tr){ if(s.inversion) continue; ps=ps.add_space_inversion(); } auto g=group(ps); if(!tr&&!sh) refused(l,g,id); for(auto& e:std::vector<Elements>{{1,1,0,1},{0,2,1,2},{2,0,2,1},{1,1,1,3},{0,1,0,1},{3,0,0,2}}){ bool pick=level||(s.hall+e.b+e.v)%3==0||e.b==3; if(!pick) continue; simple<double>(l,g,A,B,e,level,id+(tr?" reversal":"")); if(level||e.b!=1) simple<C>(l,g,A,B,e,level,id+(tr?" reversal":"")+" complex"); } }
    auto sym=l.spacegroup_symmetry(); auto pg=ir::parameters(s,ir::shapes()[sh]); for(int pairs=0;pairs<2;++pairs) for(int k=0;k<(level?3:(s.first?2:1));++k){ /* matrices of all pairs of fewer atoms */ auto c=crystal(sym,(level?24:12)/(pairs+1),k,k==1||pairs?5:0); if(c.r.empty()) continue; std::vector<std::array<double,3>> pos; for(auto& r:c.r) pos.push_back({r[0],r[1],r[2]}); auto ll=Direct(pg.first,pg.second,Spacegroup(s.hall).get_spacegroup_symmetry(),Basis(pos,c.type),false,AngleUnit::degree); auto g=group(ll.pointgroup_symmetry()); std::string tag=id+vf::fmt(" %scrystal %d of %zu",pairs?"small ":"",k,c.r.size()); for(auto u:{LengthUnit::angstrom,LengthUnit::real_lattice}) for(auto& e:std::vector<Elements>{{0,1,0,1},{1,1,0,2},{1,1,1,2},{0,0,1,1}}){ if(pairs!=int(e.m>0)) continue; if(!level&&!pairs&&(e.b==2)!=(k==0)) continue; phonon(ll,g,sym,A,0,c,u,e,level,tag+(u==LengthUnit::angstrom?" angstrom":" lattice")+vf::fmt(" v%u m%u",e.v,e.m)); }
      if(s.first&&k<2&&!pairs) wrong_count(ll,g,ind_t(c.r.size()),tag);
      if(!s.inversion&&!pairs){ auto rs=sym.add_space_inversion(); bool fits=true; for(size_t k2=0;k2<c.r.size();++k2){ auto o=orbit(rs,c.r[k2]); for(auto& y:o){ bool in=false; for(size_t k3=0;k3<c.r.size();++k3){ double d=0; for(int j=0;j<3;++j) d=std::max(d,std::abs(y[j]-c.r[k3][j]-std::round(y[j]-c.r[k3][j]))); in|=d<1e-6&&c.type[k2]==c.type[k3]; } fits&=in; } } if(fits){ auto g2=group(ll.pointgroup_symmetry().add_space_inversion()); phonon(ll,g2,rs,A,1,c,LengthUnit::angstrom,{0,1,0,1},level,tag+" reversal"); } } } }); } }
