// L04: atom sites, their maps under the operations, and snapping of sites, lengths, angles and vectors, for all tabulated settings
#define VF_SPGDATA
#include "S01.hpp"
#include "lat.hpp"
#include <memory>
#include <map>
#include "spg_database.hpp"
#include "hall_symbol.hpp"
#include "basis.hpp"
#include "lattice_dual.hpp"
using namespace brille; using namespace brille::lattice;
using lat::V; using lat::M;
static const LengthUnit LU[2]={LengthUnit::angstrom,LengthUnit::inverse_angstrom};
typedef std::array<long,3> P; static const long N=2400; // positions in 2400ths
static P app(const ex::Op& o, const P& p){ P r; for(int i=0;i<3;++i){ long x=long(o.t[i])*(N/24); for(int j=0;j<3;++j) x+=o.W[3*i+j]*p[j]; r[i]=((x%N)+N)%N; } return r; }
struct Atom { P p; unsigned type; };
//! every image of the sites, one type for every site
static std::vector<Atom> crystal(const std::vector<ex::Op>& g, const std::vector<P>& sites){ std::vector<Atom> a; for(unsigned t=0;t<sites.size();++t){ std::set<P> s; for(auto& o:g) s.insert(app(o,sites[t])); for(auto& p:s) a.push_back({p,t}); } return a; }
static std::vector<std::array<double,3>> coords(const std::vector<Atom>& a, int style){ std::vector<std::array<double,3>> r; int k=0; for(auto& x:a){ std::array<double,3> c; for(int i=0;i<3;++i){ c[i]=double(x.p[i])/double(N); ++k; if(style==1) c[i]-=1; else if(style==2){ if(x.p[i]==0) c[i]=1; } else if(style==3) c[i]+= (k*7)%5-2; else if(style==4){ if(x.p[i]==0) c[i]=-1e-16; else c[i]=std::nextafter(c[i],k%2?1.:0.); } } r.push_back(c); } return r; }
static std::vector<ind_t> types(const std::vector<Atom>& a){ std::vector<ind_t> t; for(auto& x:a) t.push_back(3+2*x.type); return t; }
static std::vector<Motion<int,double>> motions(const std::vector<ex::Op>& g){ std::vector<Motion<int,double>> m; for(auto& o:g){ std::array<int,9> W; std::copy(o.W.begin(),o.W.end(),W.begin()); std::array<double,3> t; for(int i=0;i<3;++i) t[i]=o.t[i]/24.; m.push_back(Motion<int,double>(W,t)); } return m; }

static void maps(const std::vector<ex::Op>& g, const std::vector<Atom>& a, const std::string& id, int turn){
  auto ty=types(a); auto mo=motions(g); size_t n=a.size(); std::map<std::pair<P,unsigned>,size_t> where; for(size_t i=0;i<n;++i) where[{a[i].p,a[i].type}]=i;
  for(int style=0;style<5;++style){ if(n*g.size()>600 && !vf::thorough() && style!=turn%5) continue; Basis B(coords(a,style),ty); std::vector<std::vector<size_t>> f(g.size(),std::vector<size_t>(n)); vf::state(); vf::trace();
    for(size_t o=0;o<g.size();++o) { std::set<size_t> seen; for(size_t k=0;k<n;++k){ vf::trans(); auto [ok,to]=B.equivalent_after_operation(k,mo[o]); size_t want=where.at({app(g[o],a[k].p),a[k].type}); VF_CHECK(ok&&to==want,"atom an operation carries an atom to",id+vf::fmt(" style %d atom %zu operation %zu: found %d atom %u expected %zu",style,k,o,int(ok),unsigned(to),want)); f[o][k]=to; seen.insert(to);
        // the operation without its translation
        P q; for(int i=0;i<3;++i){ long x=0; for(int j=0;j<3;++j) x+=g[o].W[3*i+j]*a[k].p[j]; q[i]=((x%N)+N)%N; } auto it=where.find({q,a[k].type}); std::array<int,9> W; std::copy(g[o].W.begin(),g[o].W.end(),W.begin()); auto [ok2,to2]=B.equivalent_after_operation(k,W); VF_CHECK(ok2==(it!=where.end()) && to2==(ok2?it->second:n),"atom a point operation carries an atom to",id); }
      VF_CHECK(seen.size()==n,"atom map of an operation is a permutation",id); }
    if(style==turn%5) for(size_t i=0;i<g.size();i+= g.size()>24?5:1) for(size_t j=0;j<g.size();j+= g.size()>48?7:1){ auto m=mo[i]*mo[j]; for(size_t k=0;k<n;k+= n>24?5:1){ vf::trans(); auto [ok,to]=B.equivalent_after_operation(k,m); VF_CHECK(ok&&to==f[i][f[j][k]],"atom maps compose like the operations",id); } }
    // displaced a little, and atoms that are not there
    for(size_t k=0;k<n;k+= n>24?3:1){ auto c=B.position(k); std::array<double,3> d=c; d[k%3]+=1e-4; auto [no,at]=B.equivalent_to(ty[k],d); VF_CHECK(!no&&at==n,"a displaced position is not an atom",id); auto [yes,at2]=B.equivalent_to(ty[k],d,2e-4); VF_CHECK(yes&&at2==k,"a displaced position within a given tolerance is the atom",id); auto [other,at3]=B.equivalent_to(ty[k]+1,c); VF_CHECK(!other&&at3==n,"an atom of another type is not equivalent",id); d=c; d[(k+1)%3]+=1e-4; auto [f0,cl,dv]=B.closest_to(ty[k],d); VF_CHECK(!f0&&cl==k&&std::abs(dv[(k+1)%3]-1e-4)<1e-9&&std::abs(dv[k%3])<1e-9,"closest atom and the difference",id); auto [f1,cl1,dv1]=B.closest_to(ty[k],c); VF_CHECK(f1&&cl1==k,"closest atom of an atom",id); vf::trans(5); }
    VF_CHECK(vf::throws([&]{ B.equivalent_after_operation(n,mo[0]); })&&vf::throws([&]{ (void)B.position(n); }),"an atom that does not exist",id);
    Basis C=B; bool ok=C.snap_to(mo); bool same=C.positions()==B.positions()&&C.types()==B.types(); VF_CHECK(ok&&same,"sites that obey the symmetry are left alone",id+vf::fmt(" style %d",style)); } }

//! sites whose own symmetry fixes the point completely
static bool fixed_site(const std::vector<ex::Op>& g, const P& p){ std::vector<ex::Mat> st; for(auto& o:g) if(app(o,p)==p) st.push_back(o.W); std::array<long,9> s{}; for(auto& m:st) for(int i=0;i<9;++i) s[i]+=m[i]; for(auto x:s) if(x) return false; return true; }
static void snap_sites(const std::vector<ex::Op>& g, const std::vector<Atom>& a, const std::string& id){
  auto ty=types(a); auto mo=motions(g); size_t n=a.size(); static const double D[3]={1e-3,-2e-4,3e-6}; for(int style=0;style<4;++style) for(int pat=0;pat<6;++pat){ auto x=coords(a,style); bool moved=false; for(size_t k=0;k<n;++k) if(fixed_site(g,a[k].p)){ if(pat==0&&moved) break; for(int i=0;i<3;++i) if(pat!=1||i==int(k%3)) x[k][i]+=D[(i+pat+k)%3]*((pat+int(k))%2?1:-1); moved=true; if(pat==4&&k%2) break; } if(!moved) return; auto exact=coords(a,style); Basis B(x,ty); bool ok=B.snap_to(mo); vf::state(); vf::trans(); vf::trace(); std::string w=id+vf::fmt(" style %d displacement %d",style,pat); VF_CHECK(ok,"displaced sites are snapped",w); double worst=0; for(size_t k=0;k<n;++k) for(int i=0;i<3;++i) worst=std::max(worst,std::abs(B.position(k)[i]-exact[k][i])); VF_CHECK(worst<1e-12,"displaced sites are snapped to their positions",w+vf::fmt(" off by %g",worst));
      for(size_t k=0;k<n;++k) for(auto& m:mo) VF_CHECK(std::get<0>(B.equivalent_after_operation(k,m)),"snapped sites obey the symmetry",w); VF_CHECK(B.types()==ty,"snapping keeps the types",w);
      Symmetry S; for(auto& m:mo) S.add(m); if(g.size()<=(vf::thorough()?48:16)||(pat==5&&style==3&&g.size()<=48)){ Lattice<double> L=Direct(V{5,5,5},V{90,90,90},S,Basis(x,ty),true,AngleUnit::degree), U=Direct(V{5,5,5},V{90,90,90},S,Basis(x,ty),false,AngleUnit::degree); vf::trans(2); double off=0; for(size_t k=0;k<n;++k) for(int i=0;i<3;++i) off=std::max(off,std::abs(L.basis().position(k)[i]-exact[k][i])); VF_CHECK(off<1e-12&&U.basis().positions()==x,"the sites of a lattice are snapped when asked to",w); } } }
//! sites on symmetry elements that leave some freedom: an answer that claims success obeys the symmetry
static void snap_free(const std::vector<ex::Op>& g, const std::vector<Atom>& a, const std::string& id){ auto ty=types(a); auto mo=motions(g); size_t n=a.size(); for(size_t k=0;k<n;k+=n>12?5:1) for(int i=0;i<3;++i){ auto x=coords(a,0); x[k][i]+=1e-3; Basis B(x,ty); vf::state(); vf::trans(); bool ok=B.snap_to(mo); bool obeys=true; for(size_t j=0;j<n&&obeys;++j) for(auto& m:mo) if(!std::get<0>(B.equivalent_after_operation(j,m))){ obeys=false; break; } VF_CHECK(ok==obeys,"snapping reports whether the sites obey the symmetry",id+vf::fmt(" atom %zu component %d: reported %d",k,i,int(ok))); double far=0; for(size_t j=0;j<n;++j) for(int c=0;c<3;++c) far=std::max(far,std::abs(B.position(j)[c]-x[j][c])); VF_CHECK(far<5e-3,"snapping moves sites only a little",id); } }

// ---- lattice parameters
static M avg(const std::vector<ex::Mat>& g, const M& G){ M r{}; for(auto& w:g){ M W; for(int i=0;i<9;++i) W[i]=w[i]; M t=lat::mm(lat::tr(W),lat::mm(G,W)); for(int i=0;i<9;++i) r[i]+=t[i]; } for(auto& x:r) x/=double(g.size()); return r; }
static double broken(const std::vector<ex::Mat>& g, const M& G){ double b=0; for(auto& w:g){ M W; for(int i=0;i<9;++i) W[i]=w[i]; M t=lat::mm(lat::tr(W),lat::mm(G,W)); for(int i=0;i<3;++i) for(int j=0;j<3;++j) b=std::max(b,std::abs(t[3*i+j]-G[3*i+j])/std::sqrt(G[4*i]*G[4*j])); } return b; }
static V lens(const M& G){ return {std::sqrt(G[0]),std::sqrt(G[4]),std::sqrt(G[8])}; }
static V angs(const M& G){ V l=lens(G),a; for(int i=0;i<3;++i){ int j=(i+1)%3,k=(i+2)%3; double c=G[3*j+k]/l[j]/l[k]; a[i]= std::abs(c)<1e-15?90.:std::abs(c+0.5)<1e-15?120.:std::abs(c-0.5)<1e-15?60.:std::acos(c)*180/lat::PI; } return a; }
static double apart(const M& X, const M& G){ double b=0; for(int i=0;i<3;++i) for(int j=0;j<3;++j) b=std::max(b,std::abs(X[3*i+j]-G[3*i+j])/std::sqrt(G[4*i]*G[4*j])); return b; }
static void snap_lattice(const std::vector<ex::Op>& g, const Symmetry& S, const std::string& id, const std::vector<M>& rots, int turn, bool full){
  std::set<ex::Mat> ws; for(auto& o:g) ws.insert(o.W); std::vector<ex::Mat> pg(ws.begin(),ws.end());
  for(int gi=0;gi<(full?2:1);++gi){ V l0=gi?V{6,3.3,4.1}:V{3,4,5}, a0=gi?V{102,87,111}:V{75,105,80}; M G=avg(pg,lat::metric(lat::cell(l0,a0))); V l=lens(G), a=angs(G); M C=lat::cell(l,a); if(broken(pg,lat::metric(C))>1e-10) { vf::fail("harness",id+" cell"); return; }
    for(int s=0;s<2;++s){ if(!full && s==turn%2) continue; M A=s?lat::dual(C):C; M m=lat::metric(A); V L=lens(m), X=angs(m); std::string w=id+(s?" reciprocal ":" real ")+lat::show(L)+lat::show(X);
      auto params=[&](const V& ll, const V& aa, bool snap){ return s?Reciprocal(ll,aa,S,Basis(),snap,AngleUnit::degree):Direct(ll,aa,S,Basis(),snap,AngleUnit::degree); };
      auto vecs=[&](const M& v, bool snap){ return s?Reciprocal(v,MatrixVectors::column,S,Basis(),snap):Direct(v,MatrixVectors::column,S,Basis(),snap); };
      { auto P=params(L,X,true); vf::trans(); vf::state(); VF_CHECK(lat::near_all(P.lengths(LU[s]),L,1e-11)&&lat::near_all(P.angles(LU[s],AngleUnit::degree),X,1e-10)&&apart(P.metric(LU[s]),m)<1e-11,"parameters that obey the symmetry are left alone",w+" became "+lat::show(P.lengths(LU[s]))+lat::show(P.angles(LU[s],AngleUnit::degree))); }
      for(int d=0;d<10;++d){ if(!full && d!=turn%10) continue; V dl=L, da=X; if(d<3) dl[d]*=1+1e-4; else if(d==3){ dl[0]*=1+1e-4; dl[1]*=1-2e-5; dl[2]*=1+3e-5; } else if(d<7) da[d-4]+=0.01; else if(d==7){ da[0]+=0.01; da[1]-=0.02; da[2]+=0.005; } else { dl[0]*=1-1e-4; dl[1]*=1+2e-6; da[(d)%3]-=0.01; da[(d+1)%3]+=0.003; } const char* k=d<4?"displaced lengths":d<8?"displaced angles":"displaced lengths and angles"; auto P=params(dl,da,true); M x=P.metric(LU[0]); vf::trans(2); vf::state(2); vf::trace(); VF_CHECK(broken(pg,x)<1e-10,std::string(k)+" obey the symmetry after snapping",w+vf::fmt(" displacement %d breaks it by %g: ",d,broken(pg,x))+lat::show(P.lengths(LU[0]))+lat::show(P.angles(LU[0],AngleUnit::degree))); VF_CHECK(apart(P.metric(LU[s]),m)<3e-3,std::string(k)+" change little",w+vf::fmt(" displacement %d ",d)+lat::show(P.lengths(LU[s]))+lat::show(P.angles(LU[s],AngleUnit::degree))); auto U=params(dl,da,false); VF_CHECK(lat::near_all(U.lengths(LU[s]),dl,1e-11),"parameters are left alone unless asked",w); }
      for(size_t r=turn%3;r<rots.size();r+=3){ if(!full && r!=size_t(turn)%rots.size()/3*3+turn%3) continue; M v=lat::mm(rots[r],A); auto P=vecs(v,true); vf::trans(); vf::state(); M got=P.vectors(LU[s]); VF_CHECK(lat::near_all(got,v,1e-10),"basis vectors that obey the symmetry are left alone",w+vf::fmt(" orientation %zu ",r)+lat::show(v)+" became "+lat::show(got));
        for(int d=0;d<4;++d){ if(!full && d!=turn%4) continue; M x=v; for(int i=0;i<9;++i){ if(d<3? i%3==d : true) x[i]*=1+((d<3)?1e-4:1e-4*((i*5)%7-3)); } if(d==2) { x[1]+=2e-4; x[3]-=1e-4; } auto Q=vecs(x,true); vf::trans(); vf::state(); vf::trace(); M gr=Q.metric(LU[0]); M y=Q.vectors(LU[s]); const char* k=d<2?"stretched basis vectors":"displaced basis vectors"; VF_CHECK(broken(pg,gr)<1e-10,std::string(k)+" obey the symmetry after snapping",w+vf::fmt(" orientation %zu displacement %d breaks it by %g ",r,d,broken(pg,gr))+lat::show(x)+" became "+lat::show(y)); double far=0; for(int i=0;i<9;++i) far=std::max(far,std::abs(y[i]-v[i])); double sc=*std::max_element(L.begin(),L.end()); VF_CHECK(far<0.01*sc,std::string(k)+" change little",w+vf::fmt(" orientation %zu displacement %d ",r,d)+lat::show(x)+" became "+lat::show(y)); auto U=vecs(x,false); VF_CHECK(U.vectors(LU[s])==x,"basis vectors are left alone unless asked",w); } }
    } }
}
void vf_explore(){
  std::vector<M> rots=lat::cube_rotations(); rots.push_back(lat::rotation({1,2,3},37)); rots.push_back(lat::rotation({-3,1,1},111)); rots.push_back(lat::rotation({0,1,0},40));
  std::map<std::vector<ex::Mat>,std::pair<size_t,int>> first; for(int h=1;h<=530;++h){ auto g=ex::spacegroup(h); std::set<ex::Mat> ws; for(auto& o:g) ws.insert(o.W); std::vector<ex::Mat> k(ws.begin(),ws.end()); auto it=first.find(k); if(it==first.end()||g.size()<it->second.first) first[k]={g.size(),h}; }
  std::set<int> full; for(auto& f:first) full.insert(f.second.second);
  for(int h=1;h<=530;++h){ auto g=ex::spacegroup(h); std::string id=vf::fmt("setting %d",h);
    vf::run(vf::fmt("atoms-%d",h),[&]{ std::vector<std::vector<P>> xs{ {{0,0,0}}, {{300,600,1200},{0,0,0}}, {{0,0,0},{1200,1200,1200},{1200,0,0}}, {{600,600,600},{0,1200,1200}}, {{800,1600,600},{800,1600,1800}}, {{0,500,0},{130,130,130}} }; if(g.size()<=48) xs.push_back({{100,347,811}}); size_t lim=vf::thorough()?400:48; for(size_t i=0;i<xs.size();++i){ auto a=crystal(g,xs[i]); while(a.size()>lim&&xs[i].size()>1){ xs[i].pop_back(); a=crystal(g,xs[i]); } if(a.size()>lim) continue; std::string w=id+vf::fmt(" crystal %zu",i); maps(g,a,w,h+int(i)); if(!vf::thorough()&&g.size()*a.size()>1200) continue; snap_sites(g,a,w); if(!vf::thorough()&&g.size()*a.size()>600) continue; snap_free(g,a,w); } vf::outcome(h); });
    vf::run(vf::fmt("lattice-%d",h),[&]{ Symmetry S=Spacegroup(h).get_spacegroup_symmetry(); if(vf::thorough()) for(int k=0;k<3;++k) snap_lattice(g,S,id,rots,k,full.count(h)||k==0); else snap_lattice(g,S,id,rots,h,full.count(h)>0); vf::outcome(1000+h); });
  }
}
