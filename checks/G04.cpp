// G04: interpolation reproduces linear fields, whatever the request and the number of threads
#include "cells.hpp"
#include "nest.hpp"
#include "mesh.hpp"
#include "bz_nest.hpp"
#include "bz_mesh.hpp"
#include <omp.h>
#include <optional>
using namespace brille; using namespace brille::lattice; using namespace brille::polytrellis; using lat::V; using tets::Domain;
typedef std::complex<double> C;
struct Layout { const char* name; std::vector<ind_t> tail; std::array<ind_t,3> el; ind_t modes, span; };
static const std::vector<Layout>& layouts(){ static const std::vector<Layout> l{{"one scalar",{},{1,0,0},1,1},{"modes of scalars, flat",{6},{2,0,0},3,2},{"modes of scalars",{3,2},{2,0,0},3,2},{"modes of vectors",{2,2,3},{0,6,0},2,6},{"modes of matrices",{2,1,3,3},{0,0,9},2,9},{"everything",{2,13},{1,3,9},2,13}}; return l; }
//! a field that is linear in the position; steady fields keep a positive overlap between any two points so that no phase is arbitrary
template<class T> struct Field { std::vector<T> a; std::vector<std::array<T,3>> g; V c; double size;
  static T num(double x, double y);
  Field(const Domain& d, size_t n, bool steady, int seed, size_t span=0): c(d.c), size(d.size){ for(size_t i=0;i<n;++i){ double q=std::fmod((i+1)*0.7548776662+seed*0.31,1.0)-0.5, r=std::fmod((i+1)*0.5698402909+seed*0.17,1.0)-0.5; if(steady){ a.push_back(num(2+q,0.5*(2+q))); std::array<T,3> w; for(int k=0;k<3;++k) w[k]=num(0.3*std::cos(i+k),0.15*std::cos(i+k)); g.push_back(w); } else { a.push_back(num(q,r)); std::array<T,3> w; for(int k=0;k<3;++k) w[k]=num(std::cos(3*i+k+seed),std::sin(2*i-k+seed)); g.push_back(w); } if(span) a.back()+=num(20.*double(i/span),steady?10.*double(i/span):0); } }
  T at(size_t i, const V& x) const { T r=a[i]; for(int k=0;k<3;++k) r+=g[i][k]*((x[k]-c[k])/size); return r; } };
template<> double Field<double>::num(double x, double){ return x; } template<> C Field<C>::num(double x, double y){ return {x,y}; }
template<class T> static std::shared_ptr<Interpolator<T>> store(const Field<T>& f, const std::vector<V>& v, const Layout& l){ std::vector<ind_t> sh{ind_t(v.size())}; for(auto x:l.tail) sh.push_back(x); Array<T> a(sh); ind_t n=l.modes*l.span; Array2<T> b(ind_t(v.size()),n); for(ind_t i=0;i<v.size();++i) for(ind_t j=0;j<n;++j) b.val(i,j)=f.at(j,v[i]); return std::make_shared<Interpolator<T>>(b,sh,l.el,RotatesLike::vector,LengthUnit::real_lattice); }
template<class T> static bool close(const T& a, const T& b){ return std::abs(a-b)<=1e-8*(1+std::abs(b)); }
template<class T> static std::vector<T> flat(const Array<T>& a){ std::vector<T> r; Array2<T> b(a); for(ind_t i=0;i<b.size(0);++i) for(ind_t j=0;j<b.size(1);++j) r.push_back(b.val(i,j)); return r; }
template<class T> static void same(const std::vector<T>& a, const std::vector<T>& b, const char* what, const std::string& id){ bool ok=a.size()==b.size(); size_t at=0; for(size_t i=0;ok&&i<a.size();++i) if(!(std::abs(a[i]-b[i])<=1e-11*(1+std::abs(a[i])))){ ok=false; at=i; } VF_CHECK(ok,what,id+vf::fmt(" element %zu",at)); }
template<class T> static void equals(const std::vector<T>& got, const Field<T>& f, ind_t n, const std::vector<V>& xs, const char* what, const std::string& id){ if(got.size()!=xs.size()*n) return vf::fail("the shape of the result",id); for(size_t i=0;i<xs.size();++i) for(ind_t j=0;j<n;++j) if(!close(got[i*n+j],f.at(j,xs[i]))) return vf::fail(what,id+vf::fmt(" point %zu element %u ",i,j)+lat::show(xs[i])+vf::fmt(" off by %g",std::abs(got[i*n+j]-f.at(j,xs[i])))); }
//! every way of asking for the values at points; `ask(points, threads)` with threads<0 for the serial operation
template<class T, class R, class G, class A> static void ways(G& g, const Domain& d, const std::vector<V>& v, const std::vector<V>& xs, const std::vector<V>& out, bool deep, const std::string& id, A ask){
  auto& ls=layouts(); for(size_t k=0;k<ls.size();++k){ if(!deep&&k!=1&&k!=3) continue; auto& lv=ls[k]; auto& lw=ls[(k==0)?0:(k==1)?2:(k==2)?1:(k==3)?5:(k==4)?3:4]; std::string tag=id+" "+lv.name+" with "+lw.name; Field<T> f(d,lv.modes*lv.span,false,int(k)); Field<R> h(d,lw.modes*lw.span,true,int(k)+1); auto a=store(f,v,lv); auto b=store(h,v,lw); g.replace_data(*a,*b); ind_t n=lv.modes*lv.span,m=lw.modes*lw.span;
    for(int sorted=0;sorted<2;++sorted){ if(sorted){ if(!deep&&k!=3) break; f=Field<T>(d,n,false,int(k),lv.span); h=Field<R>(d,m,true,int(k)+1,lw.span); a=store(f,v,lv); b=store(h,v,lw); g.replace_data(*a,*b); g.set_value_cost_info(0, 0, std::array<double,3>{1, 1, 1}); g.set_vector_cost_info(0, 1, std::array<double,3>{1, 1, 1}); g.sort(); tag+=" sorted"; } vf::state(); std::vector<T> v0; std::vector<R> w0;
      for(int th=-1;th<=3;++th){ if(th==0) continue; std::string tt=tag+vf::fmt(" threads %d",th); vf::trans(xs.size()); try { auto [p,q]=ask(g,xs,th); auto pv=flat(p); auto qv=flat(q); std::vector<ind_t> ps=p.shape(), qs=q.shape(); std::vector<ind_t> es{ind_t(xs.size())}, fs{ind_t(xs.size())}; for(auto x:lv.tail) es.push_back(x); for(auto x:lw.tail) fs.push_back(x); size_t pe=1,qe=1; for(auto x:ps) pe*=x; for(auto x:qs) qe*=x; VF_CHECK(pe==xs.size()*n&&qe==xs.size()*m&&ps[0]==xs.size()&&qs[0]==xs.size(),"the shape of the result",tt); if(pv.size()!=xs.size()*n||qv.size()!=xs.size()*m) return; if(th==-1){ v0=pv; w0=qv; equals(pv,f,n,xs,"a linear field is reproduced",tt+" values"); equals(qv,h,m,xs,"a linear field is reproduced",tt+" vectors"); } else { same(v0,pv,"the number of threads does not change the values",tt); same(w0,qv,"the number of threads does not change the vectors",tt); } } catch(const std::exception& e){ vf::fail("interpolation succeeds inside",tt+" "+e.what()); return; } }
      // in reverse, one by one, and two by two
      std::vector<V> rev(xs.rbegin(),xs.rend()); for(int th:{-1,2}){ auto [p,q]=ask(g,rev,th); auto pv=flat(p); auto qv=flat(q); std::vector<T> pe; std::vector<R> qe; for(size_t i=xs.size();i--;){ pe.insert(pe.end(),v0.begin()+i*n,v0.begin()+(i+1)*n); qe.insert(qe.end(),w0.begin()+i*m,w0.begin()+(i+1)*m); } same(pe,pv,"the position in a request does not matter",tag); same(qe,qv,"the position in a request does not matter",tag); }
      for(size_t i=0;i<xs.size();i+=deep?3:11){ int th=(i/11)%2?1:-1; auto [p,q]=ask(g,{xs[i]},th); auto pv=flat(p); auto qv=flat(q); same(std::vector<T>(v0.begin()+i*n,v0.begin()+(i+1)*n),pv,"one point alone gives what it gives among others",tag); same(std::vector<R>(w0.begin()+i*m,w0.begin()+(i+1)*m),qv,"one point alone gives what it gives among others",tag); vf::trans(); }
      // stored points
      { auto [p,q]=ask(g,v,2); equals(flat(p),f,n,v,"a stored value is returned at its point",tag+" values"); equals(flat(q),h,m,v,"a stored value is returned at its point",tag+" vectors"); } }
    // a point outside anywhere in the request is reported
    if(k==1) for(auto& o:out) for(int th=-1;th<=3;++th){ if(th==0) continue; for(size_t at:{size_t(0),size_t(2),size_t(4)}){ std::vector<V> y(xs.begin(),xs.begin()+4); y.insert(y.begin()+at,o); vf::trans(); bool threw=false; try { ask(g,y,th); } catch(const std::exception&){ threw=true; } VF_CHECK(threw,"a point outside is reported",tag+vf::fmt(" threads %d place %zu ",th,at)+lat::show(o)); } }
    // one kind of data only
    if(k==2){ G e(g); std::vector<ind_t> sh{ind_t(v.size())}; for(auto x:lv.tail) sh.push_back(x); e.replace_value_data(Array2<T>(a->data()),sh,lv.el); auto [p,q]=ask(e,xs,1); equals(flat(p),f,n,xs,"a linear field is reproduced",tag+" after replacing the values"); } } }
static std::vector<V> points(const Domain& d, const std::vector<V>& v, size_t limit){ std::vector<V> xs; V lo{1e300,1e300,1e300},hi{-1e300,-1e300,-1e300}; for(auto& x:d.v) for(int k=0;k<3;++k){ lo[k]=std::min(lo[k],x[k]); hi[k]=std::max(hi[k],x[k]); } int m=6; for(int i=0;i<=m;++i) for(int j=0;j<=m;++j) for(int k=0;k<=m;++k){ V x{lo[0]+(hi[0]-lo[0])*(i+0.1)/(m+.2),lo[1]+(hi[1]-lo[1])*(j+0.1)/(m+.2),lo[2]+(hi[2]-lo[2])*(k+0.1)/(m+.2)}; if(d.beyond(x)<0) xs.push_back(x); }
  for(size_t i=0;i<v.size();++i) for(size_t j:{(i*7+1)%v.size(),(i*3+2)%v.size()}) xs.push_back(lat::mul(lat::add(v[i],v[j]),0.5)); for(auto& f:d.f){ V m{}; for(auto i:f) m=lat::add(m,lat::mul(d.v[i],1./f.size())); xs.push_back(m); } if(xs.size()>limit){ std::vector<V> y; double st=double(xs.size())/limit; for(double i=0;i<xs.size();i+=st) y.push_back(xs[size_t(i)]); xs=y; } return xs; }
static std::vector<V> outs(const Domain& d){ std::vector<V> r; size_t i=0; for(auto& p:d.p) { if(i++%3) continue; V m{}; auto& f=d.f[i-1]; for(auto k:f) m=lat::add(m,lat::mul(d.v[k],1./f.size())); r.push_back(lat::add(m,lat::mul(p.n,(i%2?1e-2:0.5)*d.size))); } return r; }
struct Ask { template<class G> auto operator()(G& g, const std::vector<V>& x, int th) const { auto a=Domain::array(x); return th<0?g.interpolate_at(a):g.interpolate_at(a,th); } };
template<class T, class R> static void all(const Domain& d, bool deep, const std::string& id){ vf::trace(); size_t lim=deep?400:120; auto o=outs(d); Ask ask;
  for(int always=0;always<2;++always){ if(!deep&&always) continue; PolyTrellis<T,R,double,Array2> t(d.poly(),0.06*d.volume,bool(always)); auto v=tets::points(t.vertices()); ways<T,R>(t,d,v,points(d,v,lim),o,deep,id+(always?" triangulated trellis":" trellis"),ask); }
  for(int levels:{1,3}){ if(!deep&&levels==3) continue; Mesh3<T,R,double,Array2> t(Domain::array(d.v),d.f,0.06*d.volume,levels,-1); auto v=tets::points(t.get_mesh_xyz()); ways<T,R>(t,d,v,points(d,v,lim),o,deep,id+vf::fmt(" mesh %d",levels),ask); }
  { Nest<T,R,double,Array2> t(d.poly(),0.06*d.volume,5); auto v=tets::points(t.vertices()); ways<T,R>(t,d,v,points(d,v,lim),o,deep,id+" nest",ask); } }
//! grids of zones, without reduction: the point moves into the first zone and the field is that of the moved point
template<class G> static void bz(const BrillouinZone& b, G& t, const Domain& d, const std::vector<V>& v, const std::string& id, bool folds){ vf::state(); Layout l=layouts()[5]; Field<double> f(d,26,false,1); Field<C> h(d,26,true,2); auto a=store(f,v,l); auto c=store(h,v,l); t.replace_data(*a,*c); auto q=b.get_lattice(); std::vector<V> in; for(auto& x:points(d,v,60)) if(d.beyond(x)<-1e-6*d.size) in.push_back(x); auto hk=from_xyz_like(LengthUnit::inverse_angstrom,q,Domain::array(in)); if(!folds){ for(int th=-1;th<=2;++th){ if(!th) continue; vf::trans(in.size()); auto [p,r]= th<0?t.template ir_interpolate_at<true>(hk):t.template ir_interpolate_at<true>(hk,th); equals(flat(p),f,26,in,"a linear field is reproduced",id+vf::fmt(" unmoved %d",th)); equals(flat(r),h,26,in,"a linear field is reproduced",id+vf::fmt(" unmoved %d",th)); } return; } }
//! what a data array of any shape means: the number of modes per point and of scalars, vector and matrix parts per mode, stated or left to the shape
static void meaning(){ typedef std::array<ind_t,3> E; typedef std::vector<ind_t> Sh; struct Want { bool ok; ind_t b; E e; };
  auto model=[](const Sh& s, const E& e)->Want { ind_t x=e[0]+e[1]+e[2]; switch(s.size()){ case 1: return {x<2,1,x?e:E{1,0,0}}; case 2: return {x==0||s[1]%x==0,x?s[1]/x:1u,x?e:E{s[1],0,0}}; case 3: return {x==0||x==s[2],s[1],x?e:E{s[2],0,0}}; case 4: return {s[3]==3&&(x==0||x==3*s[2]),s[1],x?e:E{0,3*s[2],0}}; case 5: return {s[3]==3&&s[4]==3&&(x==0||x==9*s[2]),s[1],x?e:E{0,0,9*s[2]}}; default: return {false,0,e}; } };
  std::vector<Sh> shapes; for(ind_t P=1;P<4;++P){ shapes.push_back({P}); for(ind_t B=1;B<13;++B) shapes.push_back({P,B}); shapes.push_back({P,18}); for(ind_t B=1;B<4;++B){ for(ind_t Y:{1,2,3,4,6,9,10,12,13}) shapes.push_back({P,B,Y}); for(ind_t V=1;V<4;++V) for(ind_t d=2;d<5;++d){ shapes.push_back({P,B,V,d}); for(ind_t f=2;f<5;++f) shapes.push_back({P,B,V,d,f}); } } shapes.push_back({P,1,1,1,3,3}); }
  std::vector<E> es{{0,0,0}}; for(ind_t s=0;s<5;++s) for(ind_t v=0;v<4;++v) for(ind_t m=0;m<3;++m) if(s+v+m) es.push_back({s,3*v,9*m});
  for(auto& s:shapes) for(auto& e:es){ auto w=model(s,e); ind_t n=1; for(auto x:s) n*=x; std::string id="data of shape "+vf::vec(s)+" elements "+vf::vec(e); if(w.ok&&((s.size()==4&&e[1]!=w.e[1])||(s.size()==5&&e[2]!=w.e[2]))&&(e[0]+e[1]+e[2])) continue; vf::state();
    for(int way=0;way<4;++way){ Array<double> nd(s); bArray<double> d2(s[0],n/s[0]); for(ind_t i=0;i<d2.size(0);++i) for(ind_t j=0;j<d2.size(1);++j) d2.val(i,j)=i*1000.+j; { double x=0; for(auto& v: nd.valItr()) v=std::floor(x/(n/s[0]))*1000.+std::fmod(x,n/s[0]), x+=1; }
      std::optional<Interpolator<double>> t; vf::trans(); bool threw=vf::throws([&]{ if(way==0) t.emplace(d2,s,e,RotatesLike::vector,LengthUnit::real_lattice); else if(way==1) t.emplace(nd,e,RotatesLike::vector,LengthUnit::real_lattice); else { t.emplace(0,0); if(way==2) t->replace_data(d2,s,e); else t->replace_data(nd,e); } });
      VF_CHECK(threw==!w.ok,"data of a shape that fits its elements is taken, other data refused",id+vf::fmt(" way %d refused %d",way,threw)); if(!w.ok||threw) continue;
      VF_CHECK(t->branches()==w.b&&t->elements()==w.e&&t->size()==s[0]&&t->branch_span()==w.e[0]+w.e[1]+w.e[2]&&t->branches()*t->branch_span()==n/s[0],"modes and elements of a data array",id+vf::fmt(" way %d: %u modes of ",way,t->branches())+vf::vec(t->elements())); VF_CHECK(t->shape()==s&&t->bytes_per_point()==n/s[0]*sizeof(double),"shape of a data array",id);
      auto& d=t->data(); bool ok=d.size(0)==s[0]&&d.size(1)==n/s[0]; for(ind_t i=0;ok&&i<d.size(0);++i) for(ind_t j=0;j<d.size(1);++j) ok&=d.val(i,j)==i*1000.+j; VF_CHECK(ok,"rows of a data array",id+vf::fmt(" way %d",way)); } } }
void vf_explore(){ vf::run("meaning of shapes",meaning);  int level=vf::thorough(); auto bs=tets::bodies(); for(size_t i=0;i<bs.size();++i){ auto& d=bs[i]; vf::run(d.name+" real",[&]{ all<double,double>(d,level,d.name+" real"); }); vf::run(d.name+" mixed",[&]{ all<double,C>(d,level||i%4==0,d.name+" mixed"); }); if(level||i%4==1) vf::run(d.name+" complex",[&]{ all<C,C>(d,true,d.name+" complex"); }); }
  for(int hn: tets::halls()) for(int shape=0;shape<(level?3:1);++shape){ std::string id=vf::fmt("hall %d shape %d",hn,shape); vf::run(id,[&]{ auto b=tets::zone(hn,shape); auto d=tets::from(id,b.get_ir_polyhedron()); all<double,C>(d,false,id);
    { BrillouinZoneTrellis3<double,C,double> t(b,0.06*d.volume,false); bz(b,t,d,tets::points(t.get_xyz()),id+" zone trellis",false); } { BrillouinZoneNest3<double,C,double> t(b,0.06*d.volume,ind_t(5)); bz(b,t,d,tets::points(t.get_xyz()),id+" zone nest",false); } { BrillouinZoneMesh3<double,C,double> t(b,0.06*d.volume,1); bz(b,t,d,tets::points(t.get_mesh_xyz()),id+" zone mesh",false); } }); } }
