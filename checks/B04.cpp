// B04: reducing points to the irreducible zone reports the operation that undoes it
#include "irbz.hpp"
using namespace brille; using namespace brille::lattice;
using lat::V; using lat::M; using zone::Zone;
static V at(const LVec<double>& a, ind_t i){ return {a.val(i,0),a.val(i,1),a.val(i,2)}; }
static LVec<double> make(const Lattice<double>& L, const std::vector<V>& v){ bArray<double> a(ind_t(v.size()),3u); for(ind_t i=0;i<v.size();++i) for(ind_t j=0;j<3;++j) a.val(i,j)=v[i][j]; return LVec<double>(LengthUnit::inverse_angstrom,L,a); }
typedef std::array<int,3> I3;
struct Out { V q; I3 t; size_t r, i; bool operator==(const Out& o) const { return q==o.q&&t==o.t&&r==o.r&&i==o.i; } };
static std::vector<Out> move(const BrillouinZone& bz, const Lattice<double>& L, const std::vector<V>& Q, int threads){ auto x=make(L,Q); LVec<double> q(LengthUnit::inverse_angstrom,L,0u); LVec<int> t(LengthUnit::inverse_angstrom,L,0u); std::vector<size_t> r,i; bool ok=bz.ir_moveinto(x,q,t,r,i,threads); vf::trans(Q.size()); std::vector<Out> o; if(!ok||q.size(0)!=Q.size()||t.size(0)!=Q.size()||r.size()!=Q.size()||i.size()!=Q.size()) return o; for(ind_t k=0;k<Q.size();++k) o.push_back({at(q,k),{t.val(k,0),t.val(k,1),t.val(k,2)},r[k],i[k]}); return o; }
static std::vector<Out> wedge(const BrillouinZone& bz, const Lattice<double>& L, const std::vector<V>& Q, int threads){ auto x=make(L,Q); LVec<double> q(LengthUnit::inverse_angstrom,L,0u); std::vector<size_t> r; bool ok=bz.ir_moveinto_wedge(x,q,r,threads); vf::trans(Q.size()); std::vector<Out> o; if(!ok||q.size(0)!=Q.size()||r.size()!=Q.size()) return o; for(ind_t k=0;k<Q.size();++k) o.push_back({at(q,k),{0,0,0},r[k],0}); return o; }
static V turned(const std::array<int,9>& w, const V& q){ V r{}; for(int i=0;i<3;++i) for(int j=0;j<3;++j) r[i]+=w[3*j+i]*q[j]; return r; }
static void one(const ir::Setting& s, const lat::Cell& c, bool tr, int opt, const std::string& id){
  auto L=ir::lattice(s,c); M B=L.reciprocal_basis_vectors(), iB=lat::inv(B); BrillouinZoneConfig cfg; cfg.time_reversal(tr); if(opt==1) cfg.primitive(false); char eff=opt==1?'P':s.centring; Zone z=zone::make(B,eff); BrillouinZone bz(L,cfg); auto pg=bz.get_pointgroup_symmetry(); auto G=pg.getall(); auto S=ir::solid(ir::cart(B,bz.get_ir_vertices().hkl()),bz.get_ir_vertices_per_face(),z.radius); vf::trace(); VF_CHECK(S.wrong.empty(),"harness: irreducible zone",id);
  // the wedge: faces of the irreducible zone through the origin
  auto in_wedge=[&](const V& q){ double w=-1e300; for(size_t i=0;i<S.n.size();++i) if(std::abs(S.d[i])<1e-9*z.radius) w=std::max(w,lat::dot(S.n[i],q)); return w; };
  std::vector<V> base,Q; base.push_back({0,0,0}); base.push_back({-0.,-0.,0.}); auto add=[&](const V& x){ base.push_back(lat::mv(iB,x)); };
  for(auto& v:S.v) for(double f:{0.3,0.999,1.}) add(lat::mul(v,f)); V cen{}; for(auto& v:S.v) cen=lat::add(cen,lat::mul(v,1./S.v.size())); add(cen); for(auto& v:S.v){ add(lat::mul(lat::add(cen,v),0.5)); add(lat::add(lat::mul(cen,0.001),lat::mul(v,0.999))); } for(size_t i=0;i<S.v.size();++i) for(size_t j=0;j<i;++j) add(lat::mul(lat::add(S.v[i],S.v[j]),0.5));
  // equivalent points: every operation and some translations
  std::vector<V> shift{{0,0,0}}; for(auto& h:z.hkl) shift.push_back(h); shift.push_back(lat::mv(zone::basis(eff),{3,-4,2})); struct Link { size_t base; }; std::vector<int> from; for(size_t b=0;b<base.size();++b) for(size_t o=0;o<G.size();++o) for(size_t k=0;k<shift.size();++k){ if(!vf::thorough() && (b+o+k)%(G.size()>16?23:G.size()>6?9:4) && !(k==0&&b%7==o%7)) continue; Q.push_back(lat::add(turned(G[o],base[b]),shift[k])); from.push_back(int(b)); }
  size_t nq=Q.size(); int N=vf::thorough()?9:4; for(int i=-N;i<=N;++i) for(int j=-N;j<=N;++j) for(int k=-N;k<=N;++k){ if(!vf::thorough()&&(i+j+k)%3) continue; Q.push_back({i*6./N/4,j*6./N/4,k*6./N/4}); from.push_back(-1); }
  auto r=move(bz,L,Q,1); VF_CHECK(r.size()==Q.size(),"a result for every point",id); if(r.size()!=Q.size()) return; vf::state(Q.size());
  std::array<int,9> one{1,0,0,0,1,0,0,0,1}; auto mul=[](const std::array<int,9>& a, const std::array<int,9>& b){ std::array<int,9> m{}; for(int i=0;i<3;++i) for(int j=0;j<3;++j) for(int k=0;k<3;++k) m[3*i+j]+=a[3*i+k]*b[3*k+j]; return m; };
  for(size_t i=0;i<Q.size();++i){ auto& x=r[i]; std::string e=id+" "+lat::show(Q[i])+" gives "+lat::show(x.q)+vf::fmt(" (%d %d %d) %zu %zu",x.t[0],x.t[1],x.t[2],x.r,x.i); if(x.r>=G.size()||x.i>=G.size()){ vf::fail("operation index",e); return; } V y=turned(G[x.r],x.q); bool ok=true; for(int j=0;j<3;++j) ok&=std::abs(y[j]+x.t[j]-Q[i][j])<1e-11*(1+std::abs(Q[i][j])); VF_CHECK(ok,"operation and translation give back the point",e); VF_CHECK(mul(G[x.r],G[x.i])==one,"the inverse operation undoes the operation",e); VF_CHECK(zone::allowed(eff,x.t[0],x.t[1],x.t[2]),"the translation is a reciprocal lattice vector",e); double b=S.beyond(lat::mv(B,x.q))/z.radius; VF_CHECK(b<1e-6,"the reduced point is in the irreducible zone",e+vf::fmt(" beyond %g",b)); if(S.beyond(lat::mv(B,Q[i]))/z.radius<-1e-8) VF_CHECK(lat::norm(lat::sub(x.q,Q[i]))<1e-12&&x.t==(I3{0,0,0})&&G[x.r]==one,"a point inside the irreducible zone stays",e);
    if(from[i]>=0){ V bs=base[from[i]]; if(S.beyond(lat::mv(B,bs))<-1e-6*z.radius) VF_CHECK(lat::norm(lat::sub(lat::mv(B,x.q),lat::mv(B,bs)))<1e-9*z.radius,"equivalent points reduce to the same point",e+" expected "+lat::show(bs)); } }
  std::vector<V> W; for(size_t i=0;i<Q.size();i+=2) W.push_back(Q[i]); auto w=wedge(bz,L,W,1); VF_CHECK(w.size()==W.size(),"a wedge result for every point",id); if(w.size()!=W.size()) return;
  for(size_t i=0;i<W.size();++i){ auto& x=w[i]; std::string e=id+" wedge "+lat::show(W[i])+" gives "+lat::show(x.q)+vf::fmt(" %zu",x.r); if(x.r>=G.size()){ vf::fail("wedge operation index",e); return; } V y=turned(G[x.r],x.q); bool ok=true; for(int j=0;j<3;++j) ok&=std::abs(y[j]-W[i][j])<1e-11*(1+std::abs(W[i][j])); VF_CHECK(ok,"the operation gives back the point",e); V cq=lat::mv(B,x.q); double sc=std::max(lat::norm(cq),z.radius); VF_CHECK(in_wedge(cq)<1e-6*sc,"the rotated point is in the irreducible wedge",e); if(in_wedge(lat::mv(B,W[i]))<-1e-8*sc) VF_CHECK(x.q==W[i]&&G[x.r]==one,"a point inside the wedge stays",e); }
  for(int th: {2,3,0}){ if(th!=2+(s.hall+opt)%2&&!vf::thorough()) continue; std::vector<V> q2; size_t step=vf::thorough()?1:5; for(size_t i=0;i<Q.size();i+=step) q2.push_back(Q[i]); auto a=move(bz,L,q2,th); bool ok=a.size()==q2.size(); for(size_t i=0;ok&&i<a.size();++i) ok&=a[i]==r[i*step]; VF_CHECK(ok,"the number of threads changes nothing",id+vf::fmt(" %d",th)); auto b=wedge(bz,L,W,th); ok=b.size()==w.size(); for(size_t i=0;ok&&i<b.size();++i) ok&=b[i]==w[i]; VF_CHECK(ok,"the number of threads changes nothing in the wedge",id+vf::fmt(" %d",th)); }
  for(size_t i=0;i<Q.size();i+=97){ auto a=move(bz,L,{Q[i]},1); VF_CHECK(a.size()==1&&a[0]==r[i],"a point on its own",id+" "+lat::show(Q[i])); }
  { LVec<double> bad(LengthUnit::inverse_angstrom,Direct(V{3.3,4.4,5.5},V{90,90,91},std::string("P 1"),Basis(),true,AngleUnit::degree),1u), q(bad); LVec<int> t(LengthUnit::inverse_angstrom,L,0u); std::vector<size_t> a,b; VF_CHECK(vf::throws([&]{ bz.ir_moveinto(bad,q,t,a,b,1); })&&vf::throws([&]{ bz.ir_moveinto_wedge(bad,q,a,1); })&&vf::throws([&]{ bz.moveinto(bad,q,t,1); }),"points of another lattice are refused",id); }
  (void)nq; vf::outcome(vf::fmt("%zu %zu",G.size(),S.v.size())); }
void vf_explore(){
  for(auto& s: ir::settings()) for(size_t c=0;c<ir::shapes().size();++c) for(int tr=0;tr<(s.inversion?1:2);++tr) for(int opt=0;opt<2;++opt){ if(opt&&s.centring=='P') continue; if(!vf::thorough()&&(!s.first||c>1||(opt&&c)||(opt&&tr)||(c&&tr))) continue; std::string id=vf::fmt("setting %d %s%s option %d",s.hall,ir::shapes()[c].name,tr?" time-reversal":"",opt); vf::run(id,[&]{ one(s,ir::shapes()[c],tr,opt,id); }); }
}
