// I02: mode matching pairs modes at least cost; interpolation undoes any order and phase of the stored modes
#include "turns.hpp"
#include "tets.hpp"
#include "interpolatordual.hpp"
#include "nest.hpp"
#include "mesh.hpp"
#include "trellis_poly.hpp"
#include <omp.h>
using namespace brille; using turns::num; using turns::C; using turns::Row; using turns::same; using lat::V;
typedef std::array<ind_t,3> El; typedef std::array<double,3> Wt;
static ind_t span(const El& e){ return e[0]+e[1]+e[2]; }
static double re(double x){ return x; } static double re(C x){ return x.real(); } static double cj(double x){ return x; } static C cj(C x){ return std::conj(x); }
template<class T> static T dot(const T* a, const T* b, size_t n){ T r(0); for(size_t i=0;i<n;++i) r+=cj(a[i])*b[i]; return r; }
template<class T> static double dist(const T* a, const T* b, size_t n){ double r=0; for(size_t i=0;i<n;++i) r+=std::norm(a[i]-b[i]); return std::sqrt(r); }
static double unit(double c){ return std::max(-1.0,std::min(1.0,c)); }
//! the documented cost of pairing two modes
template<class T> static double cost(const T* a, const T* b0, const El& e, int kind, const Wt& w, bool phase){ size_t n=span(e); std::vector<T> b(b0,b0+n); if constexpr(std::is_same_v<T,C>) if(phase){ C h=dot(a,b0,n); if(std::abs(h)>0) for(auto& x:b) x*=std::conj(h)/std::abs(h); } double s=0,v=0,m=0; for(size_t i=0;i<e[0];++i) s+=std::abs(a[i]-b[i]); if(e[1]){ const T* x=a+e[0]; const T* y=b.data()+e[0]; size_t k=e[1]; double nx=std::sqrt(re(dot(x,x,k))), ny=std::sqrt(re(dot(y,y,k))); auto angle=[&](double c){ return std::acos(nx>0&&ny>0?unit(c/(nx*ny)):(nx>0||ny>0)?0:1); }; T h=dot(x,y,k); bool cplx=std::is_same_v<T,C>; double herm=cplx?std::abs(h):re(h); switch(kind){ case 1: v=dist(x,y,k); break; case 2: v=1-(cplx?std::norm(h):re(h)); break; case 3: v=angle(re(h)); break; case 4: v=angle(herm); break; default: { double z=std::sin(angle(herm)); v=z*z; } } } for(size_t i=0;i<e[2]/9;++i) m+=dist(a+e[0]+e[1]+9*i,b.data()+e[0]+e[1]+9*i,9); return w[0]*s+w[1]*v+w[2]*m; }
template<class T> static Interpolator<T> store(const std::vector<Row<T>>& d, ind_t modes, const El& e){ std::vector<ind_t> sh{ind_t(d.size()),modes,span(e)}; auto arr=turns::array(d); return Interpolator<T>(arr,sh,e,RotatesLike::vector,LengthUnit::real_lattice); }
static std::vector<std::vector<int>> orders(int n){ std::vector<std::vector<int>> r; std::vector<int> p(n); for(int i=0;i<n;++i) p[i]=i; do r.push_back(p); while(std::next_permutation(p.begin(),p.end())); return r; }
//! ---- costs and permutations for arbitrary data, equal modes, and zero vectors
template<class T> static T plain(int i, int j){ if constexpr(std::is_same_v<T,C>) return turns::value<C>(i,j); else return num(i,j); }
template<class T, class R> static void matching(int N, int kind, int what, int style, const std::string& id){ static const El els[]={{1,0,0},{0,3,0},{1,3,9},{0,6,0},{2,0,18}}; static const Wt ws[]={{1,1,1},{0,1,0},{1,0,0},{2,3,0.5}}; int P=3; for(int k=0;k<5;++k) for(int j=0;j<5;++j) for(int w=0;w<4;++w){ if((k+j+w+kind)%2!=what%2&&!vf::thorough()) continue; const El &ea=els[k], &eb=els[j]; const Wt &wa=ws[w], &wb=ws[(w+kind)%4]; vf::state(); std::string tag=id+vf::fmt(" elements %d %d weights %d",k,j,w);
    std::vector<Row<T>> a(P); std::vector<Row<R>> b(P); for(int p=0;p<P;++p){ for(ind_t i=0;i<N*span(ea);++i) a[p].push_back(style==1?T((p*3+i*7+kind)%3-1.0):plain<T>(p*29+i,kind*7+what)); for(ind_t i=0;i<N*span(eb);++i) b[p].push_back(style==1?R((p*5+i*3+what)%3-1.0):turns::value<R>(p*31+i,kind+13*what)); if(style==2){ for(ind_t i=0;i<span(eb);++i) b[p][(p%N)*span(eb)+i]=R(0); for(ind_t i=0;i<span(ea);++i) a[p][((p+1)%N)*span(ea)+i]=a[0][i]; } if(style==3){ a[p]=a[0]; b[p]=b[0]; for(auto& x:b[p]) x*=R(p+1); } }
    auto ia=store(a,N,ea); auto ib=store(b,N,eb); DualInterpolator<T,R> d(ia,ib); std::set<size_t> keys; std::vector<ind_t> idx{0,1,2}; keys=permutation_table_keys_from_indicies(idx.begin(),idx.end(),size_t(P)); d.initialize_permutation_table(P,keys); d.set_value_cost_info(0,(kind+what)%5,wa); d.set_vector_cost_info(0,kind,wb); d.sort(); vf::trans();
    for(ind_t x=0;x<ind_t(P);++x) for(ind_t y=0;y<ind_t(P);++y){ std::vector<double> c(N*N,0.0); double scale=0; for(int i=0;i<N;++i) for(int l=0;l<N;++l){ c[i*N+l]=x==y?(i==l?-1:0):cost(&a[x][i*span(ea)],&a[y][l*span(ea)],ea,(kind+what)%5,wa,false)+cost(&b[x][i*span(eb)],&b[y][l*span(eb)],eb,kind,wb,true); scale+=std::abs(c[i*N+l]); } auto got=d.cost_matrix(x,y); bool ok=got.size()==c.size(); for(size_t i=0;ok&&i<c.size();++i) ok&=std::abs(got[i]-c[i])<1e-6*(1+scale); VF_CHECK(ok,"the cost of every pair of modes",tag+vf::fmt(" points %u %u ",x,y)+vf::vec(c)+" "+vf::vec(got)); auto p=d.get_permutation(x,y); auto q=d.get_permutation(y,x); ok=p.size()==size_t(N)&&q.size()==size_t(N); std::vector<int> seen(N,0); for(int i=0;ok&&i<N;++i){ ok&=p[i]<ind_t(N)&&q[i]<ind_t(N); if(ok){ seen[p[i]]++; ok&=q[p[i]]==ind_t(i); } } for(auto s:seen) ok&=s==1; VF_CHECK(ok,"a permutation and its inverse",tag); if(!ok) continue; double s=0,best=1e300; for(int i=0;i<N;++i) s+=c[i*N+p[i]]; for(auto& o:orders(N)){ double t=0; for(int i=0;i<N;++i) t+=c[i*N+o[i]]; best=std::min(best,t); } VF_CHECK(s<=best+1e-6*(1+scale)+(x==y?0:N*1e-4*scale),"modes are paired at least cost",tag+vf::fmt(" points %u %u cost %.12g least %.12g ",x,y,s,best)+vf::vec(c)); } } }
//! ---- a smooth set of distinguishable modes
static double phases[]={0,1.5707963267948966,3.141592653589793,2.0943951023931953,-2.5};
template<class R> struct Modes { int N; El ea, eb; Row<double> value(int m, const V& x) const { Row<double> r; for(ind_t i=0;i<span(ea);++i) r.push_back((i==0||i>=ea[0]?10.0*(m+1)*(i<ea[0]||i%3==ind_t(m%3)):3.0*m)+0.3*(num(i,m)*x[0]+num(i,m+5)*x[1]+num(i,m+9)*x[2])); return r; }
  Row<R> vect(int m, const V& x) const { Row<R> r; R f; if constexpr(std::is_same_v<R,C>) f=std::polar(1.0,0.7+m); else f=1; for(ind_t i=0;i<span(eb);++i){ double h; if(i<eb[0]) h=0.1+0.05*m; else h=((i-eb[0])%3==ind_t(m%3)?1.0:0.1)+0.05*(num(i,m)*x[0]+num(i,m+3)*x[1]+num(i,m+7)*x[2]); r.push_back(f*h); } return r; } };
template<class R> static R turnby(int k){ if constexpr(std::is_same_v<R,C>) return std::polar(1.0,phases[k%5]); else return 1; }
struct Cost { const char* name; int kind; Wt a, b; }; static const Cost costs[]={{"values",0,{1,1,1},{0,0,0}},{"sine",0,{0,0,0},{1,1,1}},{"distance",1,{0,0,0},{0,1,0}},{"product",2,{0,0,0},{0,1,0}},{"angle",3,{0,0,0},{0,1,1}},{"hermitian angle",4,{0,0,0},{0,1,0}},{"all",1,{1,1,1},{1,1,1}}};
//! ---- one cell: all orders of the modes at its corners
template<class R> static void cell(int N, int nv, int layout, int level, const std::string& id){ static const El as[]={{1,0,0},{1,3,0},{2,0,9}}, bs[]={{0,3,0},{0,6,0},{1,3,18}}; Modes<R> M{N,as[layout],bs[layout]}; auto pm=orders(N); std::vector<V> x; for(int i=0;i<nv;++i) x.push_back(nv==8?V{double(i&1),double(i>>1&1),double(i>>2)}:V{double(i==1),double(i==2),double(i==3)}); std::vector<double> w; double t=0; for(int i=0;i<nv;++i){ w.push_back(0.3+std::abs(num(i,77))); t+=w.back(); } for(auto& y:w) y/=t; V at{}; for(int i=0;i<nv;++i) at=lat::add(at,lat::mul(x[i],w[i])); ind_t sa=span(M.ea), sb=span(M.eb);
  std::vector<std::pair<Row<double>,Row<R>>> truth; std::vector<std::vector<std::pair<Row<double>,Row<R>>>> base(nv); for(int m=0;m<N;++m){ truth.push_back({M.value(m,at),M.vect(m,at)}); for(int i=0;i<nv;++i) base[i].push_back({M.value(m,x[i]),M.vect(m,x[i])}); }
  std::set<size_t> keys; { std::vector<ind_t> idx; for(int i=0;i<nv;++i) idx.push_back(i); keys=permutation_table_keys_from_indicies(idx.begin(),idx.end(),size_t(nv)); }
  size_t all=1; for(int i=0;i<nv;++i) all*=pm.size(); size_t step=level?1:(all>3000?all/1500+1:all>400?3:1); if(all>200000) step=all/(level?20000:1500)+1; if(step%2==0&&step>1) ++step; size_t count=0; for(size_t code=0;code<all;code+=step){ std::vector<int> which; size_t c=code; for(int i=0;i<nv;++i){ which.push_back(int(c%pm.size())); c/=pm.size(); } const Cost& k=costs[count++%7]; vf::state(); std::string tag=id+vf::fmt(" orders %zu cost %s",code,k.name); auto ph=[&](int i, int m){ return int((code/3+i*(m+2)+m*3)%5); };
    std::vector<Row<double>> a(nv,Row<double>(N*sa)); std::vector<Row<R>> b(nv,Row<R>(N*sb)); for(int i=0;i<nv;++i) for(int m=0;m<N;++m){ int at2=pm[which[i]][m]; for(ind_t j=0;j<sa;++j) a[i][at2*sa+j]=base[i][m].first[j]; for(ind_t j=0;j<sb;++j) b[i][at2*sb+j]=base[i][m].second[j]*turnby<R>(ph(i,m)); }
    auto ia=store(a,N,M.ea); auto ib=store(b,N,M.eb); DualInterpolator<double,R> d(ia,ib); d.initialize_permutation_table(nv,keys); d.set_value_cost_info(0,0,k.a); d.set_vector_cost_info(0,k.kind,k.b); omp_set_num_threads(count%16==0?2+int(count/16)%3:1); d.sort(); omp_set_num_threads(1); vf::trans(nv);
    for(int piv=0;piv<nv;piv+=(nv==8&&!level)?3:1){ std::vector<std::pair<ind_t,double>> iw; for(int i=0;i<nv;++i) iw.push_back({ind_t((i+piv)%nv),w[(i+piv)%nv]}); bArray<double> oa(1u,N*sa,0.0); bArray<R> ob(1u,N*sb,R(0)); d.interpolate_at(iw,oa,ob,0u); auto ra=turns::rows(oa)[0]; auto rb=turns::rows(ob)[0]; for(int m=0;m<N;++m){ int at2=pm[which[piv]][m]; bool ok=true; for(ind_t j=0;j<sa;++j) ok&=std::abs(ra[at2*sa+j]-truth[m].first[j])<1e-9*(1+std::abs(truth[m].first[j])); VF_CHECK(ok,"every mode has the values of the common order",tag+vf::fmt(" first %d mode %d",piv,m)); ok=true; for(ind_t j=0;j<sb;++j) ok&=std::abs(rb[at2*sb+j]-truth[m].second[j]*turnby<R>(ph(piv,m)))<1e-9*2; VF_CHECK(ok,"every mode has the vectors of the common order and phase",tag+vf::fmt(" first %d mode %d",piv,m)); } } } omp_set_num_threads(1); }
//! ---- whole grids
template<class G, class R> static void grid(G& g, const std::vector<V>& v, const tets::Domain& d, int level, const std::string& id){ vf::state(); int N=3; Modes<R> M{N,{1,0,0},{0,6,0}}; ind_t sa=1,sb=6; auto pm=orders(N); auto scaled=[&](const V& x){ return lat::mul(lat::sub(x,d.c),1/d.size); }; for(int pat=0;pat<(level?24:6);++pat){ const Cost& k=costs[pat%7]; int threads=1+pat%4; std::string tag=id+vf::fmt(" pattern %d cost %s threads %d",pat,k.name,threads); std::vector<Row<double>> a; std::vector<Row<R>> b; for(size_t i=0;i<v.size();++i){ auto& o=pm[pat==0?0:(i*(pat+1)+i/3+i*i/5)%6]; Row<double> x(N*sa); Row<R> y(N*sb); for(int m=0;m<N;++m){ auto p=M.value(m,scaled(v[i])); auto q=M.vect(m,scaled(v[i])); for(ind_t j=0;j<sa;++j) x[o[m]*sa+j]=p[j]; for(ind_t j=0;j<sb;++j) y[o[m]*sb+j]=q[j]*turnby<R>(int(i*(pat+2)+m*(i%4))); } a.push_back(x); b.push_back(y); }
    auto ia=store(a,N,M.ea); auto ib=store(b,N,M.eb); g.replace_data(ia,ib); g.set_value_cost_info(0,0,k.a); g.set_vector_cost_info(0,k.kind,k.b); omp_set_num_threads(threads); g.sort(); omp_set_num_threads(1);
    std::vector<V> xs; for(size_t i=0;i<v.size();++i) for(int s=1;s<4;++s){ V y=lat::add(lat::mul(v[i],0.37),lat::add(lat::mul(v[(i+s)%v.size()],0.33),lat::mul(v[(i*5+3)%v.size()],0.3))); if(d.beyond(y)<-1e-9*d.size) xs.push_back(y); } if(!level&&xs.size()>60) xs.resize(60); for(int th=1;th<=3;th+=2){ vf::trans(xs.size()); auto [p,q]=g.interpolate_at(tets::Domain::array(xs),th); Array2<double> p2(p); Array2<R> q2(q); auto get=[&](auto& z, size_t i, size_t j){ size_t per=z.size(1)*size_t(z.size(0))/xs.size(), flat=i*per+j; return z.val(ind_t(flat/z.size(1)),ind_t(flat%z.size(1))); }; for(size_t i=0;i<xs.size();++i){ std::vector<int> used(N,0); for(int o=0;o<N;++o){ int hit=-1; for(int m=0;m<N;++m){ auto t=M.value(m,scaled(xs[i])); auto u=M.vect(m,scaled(xs[i])); bool ok=true; for(ind_t j=0;j<sa;++j) ok&=std::abs(get(p2,i,o*sa+j)-t[j])<1e-8; Row<R> z; for(ind_t j=0;j<sb;++j) z.push_back(get(q2,i,o*sb+j)); R h=dot(u.data(),z.data(),sb); if(ok&&std::abs(h)>1e-9){ R f=h/std::abs(h); for(ind_t j=0;j<sb;++j) ok&=std::abs(z[j]-u[j]*f)<1e-8; } if(ok) hit=m; } if(hit>=0) used[hit]++; } bool ok=true; for(auto u:used) ok&=u==1; VF_CHECK(ok,"every mode is interpolated in the common order and phase",tag+" "+lat::show(xs[i])); if(!ok) return; } } } vf::outcome(vf::fmt("%zu vertices",v.size())); }
template<class R> static void grids(const tets::Domain& d, int level, const std::string& id){ vf::trace(); { polytrellis::PolyTrellis<double,R,double,Array2> t(d.poly(),0.06*d.volume,false); grid<decltype(t),R>(t,tets::points(t.vertices()),d,level,id+" trellis"); } { Mesh3<double,R,double,Array2> t(tets::Domain::array(d.v),d.f,0.06*d.volume,3,-1); grid<decltype(t),R>(t,tets::points(t.get_mesh_xyz()),d,level,id+" mesh"); } { Nest<double,R,double,Array2> t(d.poly(),0.06*d.volume,5); grid<decltype(t),R>(t,tets::points(t.vertices()),d,level,id+" nest"); } }
void vf_explore(){ omp_set_num_threads(1); int level=vf::thorough();
  for(int N=1;N<=(level?5:4);++N) for(int kind=0;kind<5;++kind) for(int what=0;what<(level?8:3);++what) for(int style=0;style<4;++style){ std::string id=vf::fmt("matching %d modes kind %d data %d style %d",N,kind,what,style); vf::run(id+" real",[&]{ vf::trace(); matching<double,double>(N,kind,what,style,id+" real"); }); vf::run(id+" complex",[&]{ vf::trace(); matching<double,C>(N,kind,what,style,id+" complex"); }); vf::run(id+" complex values",[&]{ vf::trace(); matching<C,C>(N,kind,what,style,id+" complex values"); }); }
  for(int N=1;N<=3;++N) for(int nv:{1,2,3,4,8}) for(int layout=0;layout<3;++layout){ std::string id=vf::fmt("cell of %d corners %d modes layout %d",nv,N,layout); vf::run(id+" real",[&]{ vf::trace(); cell<double>(N,nv,layout,level,id+" real"); }); vf::run(id+" complex",[&]{ vf::trace(); cell<C>(N,nv,layout,level,id+" complex"); }); }
  auto bs=tets::bodies(); for(size_t i=0;i<bs.size();++i){ auto& d=bs[i]; vf::run(d.name+" complex",[&]{ grids<C>(d,level,d.name+" complex"); }); if(level||i%4==0) vf::run(d.name+" real",[&]{ grids<double>(d,level,d.name+" real"); }); } }
