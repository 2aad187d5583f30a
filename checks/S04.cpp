// S04: classification of point groups, for every setting, many bases and orders of listing
#define VF_SPGDATA
#include "S01.hpp"
#include <numeric>
#include "spg_database.hpp"
#include "hall_symbol.hpp"
#include "symmetry.hpp"
#include "pointsymmetry.hpp"
#include "pointgroup.hpp"
using namespace brille;
using ex::Mat; using ex::Vec;
static const char* HM[]={"","1","-1","2","m","2/m","222","mm2","mmm","4","-4","4/m","422","4mm","-42m","4/mmm","3","-3","32","3m","-3m","6","-6","6/m","622","6mm","-6m2","6/mmm","23","m-3","432","-43m","m-3m"};
static const char* SF[]={"","C1","Ci","C2","Cs","C2h","D2","C2v","D2h","C4","S4","C4h","D4","C4v","D2d","D4h","C3","C3i","D3","C3v","D3d","C6","C3h","C6h","D6","C6v","D3h","D6h","T","Th","O","Td","Oh"};
static Holohedry hol(int n){ return n<=2?Holohedry::triclinic:n<=5?Holohedry::monoclinic:n<=8?Holohedry::orthogonal:n<=15?Holohedry::tetragonal:n<=20?Holohedry::trigonal:n<=27?Holohedry::hexagonal:Holohedry::cubic; }
static Laue laue(int n){ return n<=2?Laue::_1:n<=5?Laue::_2m:n<=8?Laue::_mmm:n<=11?Laue::_4m:n<=15?Laue::_4mmm:n<=17?Laue::_3:n<=20?Laue::_3m:n<=23?Laue::_6m:n<=27?Laue::_6mmm:n<=29?Laue::_m3:Laue::_m3m; }
static int pg_of_number(int n){ static const int last[]={1,2,5,9,15,24,46,74,80,82,88,98,110,122,142,146,148,155,161,167,173,174,176,182,186,190,194,199,206,214,220,230}; for(int i=0;i<32;++i) if(n<=last[i]) return i+1; return 0; }
struct Grp { std::string name; int pg; std::vector<Mat> ops; };
static std::vector<Grp> groups(){ std::vector<Grp> g; std::set<std::vector<Mat>> seen; for(int h=1;h<=530;++h){ std::set<Mat> s; for(auto& o: ex::spacegroup(h)) s.insert(o.W); std::vector<Mat> v(s.begin(),s.end()); if(seen.insert(v).second) g.push_back({vf::fmt("%s-%d",HM[pg_of_number(Spacegroup(h).number)],h),pg_of_number(Spacegroup(h).number),v}); } return g; }
static Mat proper(const Mat& m){ return ex::det(m)<0?ex::neg(m):m; }
static int ord(const Mat& m){ Mat p=m; int n=1; while(!(p==ex::one()) && n<20){ p=ex::mul(p,m); ++n; } return n; }
static int gcd3(const Vec& v){ return std::gcd(std::gcd(std::abs(v[0]),std::abs(v[1])),std::abs(v[2])); }
static Vec mv(const Mat& m, const Vec& v){ Vec r; for(int i=0;i<3;++i) r[i]=m[3*i]*v[0]+m[3*i+1]*v[1]+m[3*i+2]*v[2]; return r; }
static bool parallel(const Vec& a, const Vec& b){ return a[0]*b[1]==a[1]*b[0] && a[1]*b[2]==a[2]*b[1] && a[0]*b[2]==a[2]*b[0]; }
static std::string sh(const std::vector<Mat>& v){ std::string s; for(size_t i=0;i<v.size()&&i<4;++i) s+="["+vf::join(v[i].begin(),v[i].end())+"]"; return s+(v.size()>4?"...":""); }
static PointSymmetry make(const std::vector<Mat>& v){ PointSymmetry p(0); for(auto& m:v) p.add(m.data()); return p; }

//! everything reported for a list of the operations of a group
static void classify(const std::vector<Mat>& v, int pg, const std::string& id){
  vf::state(); vf::trace(); vf::trans(3); PointSymmetry p=make(v); Pointgroup g=get_pointgroup(p);
  VF_CHECK(g.get_number()==pg,"point group number",id+vf::fmt(" found %d expected %d ",g.get_number(),pg)+sh(v)); VF_CHECK(g.get_symbol()==HM[pg],"Hermann-Mauguin symbol",id+" "+g.get_symbol()); VF_CHECK(g.get_schoenflies()==SF[pg],"Schoenflies symbol",id+" '"+g.get_schoenflies()+"'"); VF_CHECK(g.get_holohedry()==hol(pg),"crystal system family",id+" "+g.get_holohedry_string()); VF_CHECK(g.get_laue()==laue(pg),"Laue class",id+" "+g.get_laue_string()); }
static void details(const std::vector<Mat>& v, const std::string& id){
  PointSymmetry p=make(v); auto O=p.orders(), I=p.isometries(); auto A=p.axes(), B=p.perpendicular_axes(); VF_CHECK(O.size()==v.size()&&I.size()==v.size()&&A.size()==v.size()&&B.size()==v.size(),"number of values",id);
  bool inv=false; std::map<Vec,int> best; std::map<Vec,Mat> rep;
  for(size_t i=0;i<v.size();++i){ vf::trans(6); auto q=proper(v[i]); int d=ex::det(v[i]), o=ord(q), iso=(d<0?-1:1)*o; std::string w=id+vf::fmt(" operation %zu ",i)+sh({v[i]}); if(d<0&&o==1) inv=true;
    VF_CHECK(O[i]==o && p.order(i)==o && rotation_order(v[i].data())==o,"order of the rotation part",w+vf::fmt(" %d",O[i])); VF_CHECK(I[i]==iso && p.isometry(i)==iso && isometry_value(v[i].data())==iso,"isometry",w+vf::fmt(" %d",I[i])); VF_CHECK(p.get_proper(i)==q,"rotation part",w);
    Vec a=A[i], b=B[i]; auto all=rotation_axis_and_perpendicular_vectors(v[i].data()); VF_CHECK(p.axis(i)==a && p.perpendicular_axis(i)==b && all[0]==a && all[1]==b,"axis one by one",w); std::string aw=w+" axis "+vf::join(a.begin(),a.end())+" perpendicular "+vf::join(b.begin(),b.end());
    if(o==1) VF_CHECK(a==(Vec{0,0,0}),"axis of the identity or inversion",aw); else { VF_CHECK(gcd3(a)==1,"axis is the shortest integer vector along it",aw); VF_CHECK(mv(q,a)==a,"axis is left alone by the rotation",aw); Vec c=all[2]; VF_CHECK(gcd3(b)==1 && gcd3(c)==1 && !parallel(b,c) && a[0]*b[0]+a[1]*b[1]+a[2]*b[2]==0 && a[0]*c[0]+a[1]*c[1]+a[2]*c[2]==0,"vectors perpendicular to the axis",aw+" "+vf::join(c.begin(),c.end())); for(size_t j=0;j<i;++j) if(parallel(A[j],a)&&A[j]!=(Vec{0,0,0})) VF_CHECK(A[j]==a,"operations about one line report one axis",aw+" and "+sh({v[j]})+vf::join(A[j].begin(),A[j].end())); }
    auto it=best.find(a); if(it==best.end()||o>it->second) best[a]=o; }
  VF_CHECK(p.has_space_inversion()==inv,"inversion",id); PointSymmetry full=p.add_space_inversion(); std::set<Mat> both(v.begin(),v.end()), got(full.getall().begin(),full.getall().end()); for(auto& m:v) both.insert(ex::neg(m)); VF_CHECK(got==both && full.size()==both.size(),"group with inversion",id);
  for(int m=0;m<=6;++m){ vf::trans(2); PointSymmetry h=p.higher(m), n=p.nfolds(m); std::multiset<Mat> want, have(h.getall().begin(),h.getall().end()); for(auto& x:v) if(ord(proper(x))>m) want.insert(x); VF_CHECK(want==have,"operations of higher order",id+vf::fmt(" above %d: %zu",m,h.size())); bool srt=true; for(size_t i=1;i<h.size();++i) srt&=h.order(i-1)<=h.order(i); for(size_t i=1;i<n.size();++i) srt&=n.order(i-1)<=n.order(i); VF_CHECK(srt,"operations sorted by order",id);
    std::map<Vec,int> wn, gn; for(auto& b: best) if(b.second>m) wn[b.first]=b.second; bool once=true, prop=true; for(size_t i=0;i<n.size();++i){ Mat x=n.get(i); prop &= ex::det(x)==1 && both.count(x); once &= gn.emplace(n.axis(i),ord(x)).second; } VF_CHECK(once&&prop&&gn==wn,"one rotation of the highest order about every axis",id+vf::fmt(" above %d: %zu of %zu",m,gn.size(),wn.size())); }
  for(int mode: {-2,-1,1,2}){ vf::trans(); PointSymmetry s=p; s.sort(mode); bool ok=std::multiset<Mat>(s.getall().begin(),s.getall().end())==std::multiset<Mat>(v.begin(),v.end()); for(size_t i=1;i<s.size();++i){ int x=(mode==1||mode==-1)?s.order(i-1):s.isometry(i-1), y=(mode==1||mode==-1)?s.order(i):s.isometry(i); ok&= mode>0? x<=y : x>=y; } VF_CHECK(ok,"sorted operations",id+vf::fmt(" mode %d",mode)); }
}
static std::vector<Mat> conj(const std::vector<Mat>& v, const Mat& P){ Mat Q=ex::inv(P); std::vector<Mat> r; for(auto& m:v) r.push_back(ex::mul(ex::mul(Q,m),P)); return r; }
static std::vector<int> flat(const std::vector<Mat>& v){ std::vector<int> f; for(auto& m:v) f.insert(f.end(),m.begin(),m.end()); return f; }
void vf_explore(){
  std::vector<Mat> uni; vf::power(3,9,[&](const std::vector<int>& x){ Mat m; for(int i=0;i<9;++i) m[i]=x[i]-1; int d=ex::det(m); if(d==1||d==-1) uni.push_back(m); });
  vf::tally("bases",uni.size()); std::vector<Mat> wide; { Mat a{1,2,0,0,1,0,0,0,1}, b{1,0,0,0,1,3,0,0,1}, c{1,0,0,0,1,0,-2,0,1}; std::vector<Mat> gens{a,b,c}; for(auto& x:gens) for(auto& y:gens) for(auto& z:gens) wide.push_back(ex::mul(x,ex::mul(y,z))); }
  auto G=groups(); vf::tally("groups",G.size());
  for(auto& g: G){
    vf::run("listing-"+g.name,[&]{ auto v=g.ops; size_t n=v.size(); details(v,g.name); classify(v,g.pg,g.name); for(size_t k=0;k<n;++k){ std::rotate(v.begin(),v.begin()+1,v.end()); classify(v,g.pg,g.name+vf::fmt(" shifted %zu",k+1)); auto w=v; std::reverse(w.begin(),w.end()); classify(w,g.pg,g.name+vf::fmt(" shifted %zu and reversed",k+1)); details(w,g.name); } for(size_t i=0;i<n;++i) for(size_t j=0;j<i;++j){ auto w=v; std::swap(w[i],w[j]); classify(w,g.pg,g.name+vf::fmt(" exchanged %zu %zu",i,j)); if(i-j<3) details(w,g.name); }
      vf::outcome(g.name); });
    // from a list of matrices, also with repeats
    vf::run("list-"+g.name,[&]{ for(int rep=1;rep<=2;++rep) for(size_t k=0;k<g.ops.size();++k){ auto v=g.ops; std::rotate(v.begin(),v.begin()+k,v.end()); auto w=v; if(rep==2){ w.insert(w.end(),v.rbegin(),v.rend()); } auto f=flat(w); vf::state(); vf::trans(3); vf::trace(); int crash=vf::isolate([&]{ PointSymmetry p=ptg_get_pointsymmetry(f.data(),int(w.size())); std::set<Mat> s(p.getall().begin(),p.getall().end()); if(p.size()!=g.ops.size()||s!=std::set<Mat>(g.ops.begin(),g.ops.end())) return 1; int T[9]; Pointgroup q=ptg_get_transformation_matrix(T,f.data(),int(w.size())); if(q.get_number()!=g.pg) return 2; Mat t; std::copy(T,T+9,t.begin()); if(ex::det(t)<=0) return 3; return 0; }); VF_CHECK(crash==0,"point operations of a list",g.name+vf::fmt(" first %zu repeated %d: code %d ",k,rep,crash)+sh(v)); if(crash) break;
        for(int tr=0;tr<2;++tr){ auto u=get_unique_rotations(w,tr); std::set<Mat> s(u.begin(),u.end()), e(g.ops.begin(),g.ops.end()); if(tr) for(auto& m: g.ops) e.insert(ex::neg(m)); VF_CHECK(s==e && u.size()==e.size(),"rotations without repeats",g.name+vf::fmt(" time reversal %d",tr)); } } });
    // in other bases
    size_t step=vf::thorough()?1:7; const size_t nb=8;
    for(size_t b=0;b<nb;++b) vf::run("basis-"+g.name+vf::fmt("-%zu",b),[&]{ for(size_t i=b;i<uni.size();i+=nb) if((i/nb)%step==0){ auto v=conj(g.ops,uni[i]); std::string id=g.name+" basis ["+vf::join(uni[i].begin(),uni[i].end())+"]"; classify(v,g.pg,id); details(v,id); } if(b==0) for(auto& m: wide){ auto v=conj(g.ops,m); std::string id=g.name+" basis ["+vf::join(m.begin(),m.end())+"]"; classify(v,g.pg,id); details(v,id); auto f=flat(v); vf::trans(); int rc=vf::isolate([&]{ int T[9]; try { return ptg_get_transformation_matrix(T,f.data(),int(v.size())).get_number()==g.pg?0:1; } catch(const std::exception&){ return 0; } }); VF_CHECK(rc==0,"point group with a transformation",id+vf::fmt(" code %d",rc)); } });
    vf::run("links-"+g.name,[&]{ PointSymmetry p=make(g.ops); vf::power(3,6,[&](const std::vector<int>& x){ Vec a{x[0]-1,x[1]-1,x[2]-1}, b{x[3]-1,x[4]-1,x[5]-1}; vf::state(); vf::trans(4); std::vector<Mat> m, n; for(auto& r: p.getall()){ Vec c=mv(r,a); if(c==b) m.push_back(r); Vec d; for(int i=0;i<3;++i) d[i]=a[0]*r[i]+a[1]*r[3+i]+a[2]*r[6+i]; if(d==b) n.push_back(r); } VF_CHECK(p.mat_vec_links(a,b)==!m.empty() && p.mat_vec_linking_operations(a,b)==m,"operations that carry a vector to another",g.name); VF_CHECK(p.vec_mat_links(a,b)==!n.empty() && p.vec_mat_linking_operations(a,b)==n,"operations that carry a row vector to another",g.name); }); });
  }
  vf::run("numbers",[&]{ for(int n=0;n<=32;++n){ vf::state(); Pointgroup g(n); VF_CHECK(g.get_number()==n && (n==0||(g.get_symbol()==HM[n]&&g.get_schoenflies()==SF[n]&&g.get_holohedry()==hol(n)&&g.get_laue()==laue(n))),"point group by number",vf::fmt("%d '%s' '%s'",n,g.get_symbol().c_str(),g.get_schoenflies().c_str())); } for(int n: {-1,33,100}) VF_CHECK(vf::throws([&]{ Pointgroup g(n); }),"point group number out of range",vf::fmt("%d",n));
    const char* hs[]={"triclinic","monoclinic","orthogonal","tetragonal","trigonal","hexagonal","cubic"}; Holohedry hh[]={Holohedry::triclinic,Holohedry::monoclinic,Holohedry::orthogonal,Holohedry::tetragonal,Holohedry::trigonal,Holohedry::hexagonal,Holohedry::cubic}; for(int i=0;i<7;++i) VF_CHECK(my_to_string(hh[i])==hs[i],"name of a crystal family",my_to_string(hh[i]));
    std::set<std::string> L; for(int n=1;n<=32;++n) L.insert(my_to_string(laue(n))); VF_CHECK(L.size()==11,"names of the Laue classes",""); });
  // sets that are not complete groups have the group of none, and incomplete counts are not mistaken for a group unless they form one
  vf::run("subsets",[&]{ for(auto ops: {ex::oh(),ex::d6h()}) for(size_t i=0;i<ops.size();++i) for(size_t j=0;j<i;++j) for(size_t k=0;k<j;++k){ std::vector<Mat> v{ops[i],ops[j],ops[k]}; bool haveE=false; for(auto& m:v) haveE|=m==ex::one(); if(haveE) continue; vf::state(); vf::trans(); VF_CHECK(get_pointgroup(make(v)).get_number()==0,"a set without the identity is no group",sh(v)); } });
}
