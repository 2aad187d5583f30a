// L03: lattice-vector algebra against Cartesian vector algebra
#include "lat.hpp"
#include <memory>
#include "lattice_dual.hpp"
#include "array_.hpp"
#include "array_l_.hpp"
#include "transform.hpp"
#include "array_functions.hpp"
using namespace brille; using namespace brille::lattice;
using lat::V; using lat::M;
static const LengthUnit LU[2]={LengthUnit::angstrom,LengthUnit::inverse_angstrom};
template<class T> static V at(const bArray<T>& a, ind_t i){ return {double(a.val(i,0)),double(a.val(i,1)),double(a.val(i,2))}; }
static bool near_v(const V& a, const V& b, double scale){ return lat::norm(lat::sub(a,b))<=1e-10*std::max(scale,1e-6); }
struct World { Lattice<double> L; M X[2]; std::string id; };
template<class T> static LVec<T> make(const World& w, int s, const std::vector<V>& v){ bArray<T> a(ind_t(v.size()),3u); for(ind_t i=0;i<v.size();++i) for(ind_t j=0;j<3;++j) a.val(i,j)=T(v[i][j]); return LVec<T>(LU[s],w.L,a); }
template<class T> static void is_in(const World& w, int s, const LVec<T>& v, const char* what, const std::string& id){ VF_CHECK(v.type()==LU[s]&&v.lattice()==w.L&&v.size(v.ndim()-1)==3u,std::string(what)+": space and lattice of the result",id); }

template<class T> static void singles(const World& w, int s, const std::vector<V>& vs, const std::string& id){
  auto a=make<T>(w,s,vs); auto x=a.xyz(), n=norm(a); auto st=a.star(), fs=brille::star(a); is_in(w,1-s,st,"star",id); is_in(w,1-s,fs,"free star",id); auto back=from_xyz_like(LVec<double>(a),x), back2=from_xyz_like(LU[s],w.L,x), h=hkl_to_xyz(w.L,LU[s],a.hkl()), hh=xyz_to_hkl(w.L,LU[s],x); is_in(w,s,back,"from Cartesian",id); is_in(w,s,back2,"from Cartesian",id); auto gx=get_xyz(LVec<double>(a)); auto ss=st.star(); is_in(w,s,ss,"star of star",id); auto ng=-a; is_in(w,s,ng,"negation",id); auto ab=abs(a); is_in(w,s,ab,"abs",id); auto rd=a.round(), fl=a.floor(), ce=a.ceil(); is_in(w,s,rd,"round",id); is_in(w,s,fl,"floor",id); is_in(w,s,ce,"ceil",id); auto su=sum(a,0); is_in(w,s,su,"sum",id); vf::trans(18); V total{}; auto nn=dot(a,a);
  M m1{0,-1,0,1,0,0,0,0,1}, m2{1,0.5,0,0,-2,0,0.25,0,1}; LVec<double> da(a); auto r1=m1*da, r2=m2*da; is_in(w,s,r1,"matrix times vector",id); LVec<double> dd(da); 
  for(ind_t i=0;i<vs.size();++i){ V c=lat::mv(w.X[s],vs[i]); double l=lat::norm(c); std::string e=id+" "+lat::show(vs[i]); vf::state(); total=lat::add(total,vs[i]);
    VF_CHECK(near_v(at(x,i),c,l)&&near_v(at(gx,i),c,l)&&near_v(at(h,i),c,l),"Cartesian value",e+" is "+lat::show(at(x,i))+" expected "+lat::show(c)); VF_CHECK(near_v(at(back,i),vs[i],1)&&near_v(at(back2,i),vs[i],1)&&near_v(at(hh,i),vs[i],1),"components from the Cartesian value",e+" "+lat::show(at(back,i)));
    VF_CHECK(lat::near(n.val(i,0),l)&&lat::near(a.norm(i),l,1e-9,1e-7),"norm",e+vf::fmt(" %g %g expected %g",n.val(i,0),a.norm(i),l)); VF_CHECK(lat::near(nn.val(i,0),l*l,1e-9,1e-9)&&lat::near(a.dot(i,i),l*l,1e-9,1e-9),"square",e);
    VF_CHECK(near_v(lat::mv(w.X[1-s],at(st,i)),c,l),"star has the same Cartesian value",e+" "+lat::show(lat::mv(w.X[1-s],at(st,i)))+" expected "+lat::show(c)); VF_CHECK(near_v(lat::mv(w.X[1-s],at(fs,i)),c,l),"free star has the same Cartesian value",e+" "+lat::show(lat::mv(w.X[1-s],at(fs,i)))+" expected "+lat::show(c)); VF_CHECK(near_v(at(ss,i),vs[i],1),"star of star",e);
    V k; for(int j=0;j<3;++j) k[j]=std::abs(vs[i][j]); VF_CHECK(near_v(at(ng,i),lat::mul(vs[i],-1),1)&&near_v(at(ab,i),k,1),"negation and absolute value",e); VF_CHECK(near_v(at(r1,i),lat::mv(m1,vs[i]),1)&&near_v(at(r2,i),lat::mv(m2,vs[i]),1),"matrix times vector",e);
    for(int j=0;j<3;++j) VF_CHECK(fl.val(i,ind_t(j))==int(std::floor(vs[i][j]))&&ce.val(i,ind_t(j))==int(std::ceil(vs[i][j]))&&rd.val(i,ind_t(j))==int(std::round(vs[i][j])),"rounding",e);
    auto o=a.view(i); is_in(w,s,o,"view",id); auto ox=o.xyz(); VF_CHECK(near_v(at(ox,0),c,l)&&near_v(lat::mv(w.X[1-s],at(o.star(),0)),c,l)&&lat::near(o.norm(0),l,1e-9,1e-7)&&lat::near(norm(o).val(0,0),l,1e-9,1e-7),"one vector of a list",e); }
  VF_CHECK(near_v(at(su,0),total,1),"sum of all",id); std::vector<ind_t> pick{ind_t(vs.size()-1),0u}; auto ex=a.extract(pick); is_in(w,s,ex,"extract",id); VF_CHECK(ex.size(0)==2&&near_v(at(ex,0),vs.back(),1)&&near_v(at(ex,1),vs[0],1),"extract",id); auto c2=cat(0,a,a); is_in(w,s,c2,"cat",id); VF_CHECK(c2.size(0)==2*vs.size()&&near_v(at(c2,ind_t(vs.size())),vs[0],1),"cat",id); (void)dd;
  for(double f: {2.,-0.5,3.}){ auto p=da*f, q=f*da, r=da/f; is_in(w,s,p,"scaling",id); is_in(w,s,q,"scaling",id); is_in(w,s,r,"scaling",id); LVec<double> ip=make<double>(w,s,vs), iq=make<double>(w,s,vs); ip*=f; iq/=f; vf::trans(5); bool ok=true; for(ind_t i=0;i<vs.size();++i){ ok&=near_v(at(p,i),lat::mul(vs[i],f),1)&&near_v(at(q,i),lat::mul(vs[i],f),1)&&near_v(at(r,i),lat::mul(vs[i],1/f),1)&&near_v(at(ip,i),lat::mul(vs[i],f),1)&&near_v(at(iq,i),lat::mul(vs[i],1/f),1); } VF_CHECK(ok,"scaling",id); }
  // columns: one number per vector
  { bArray<double> f(ind_t(vs.size()),1u); for(ind_t i=0;i<vs.size();++i) f.val(i,0)=1.5+double(i%5); auto p=da*f, q=da/f; is_in(w,s,p,"scaling by a column",id); bool ok=true; for(ind_t i=0;i<vs.size();++i) ok&=near_v(at(p,i),lat::mul(vs[i],f.val(i,0)),1)&&near_v(at(q,i),lat::mul(vs[i],1/f.val(i,0)),1); VF_CHECK(ok,"scaling by a column",id); }
}
template<class T, class R> static void pairs(const World& w, const std::vector<V>& A, const std::vector<V>& B, int s, int t, const std::string& id){
  auto a=make<T>(w,s,A); auto b=make<R>(w,t,B); ind_t na=ind_t(A.size()), nb=ind_t(B.size()), n=std::max(na,nb); auto ia=[&](ind_t i){ return na==1?0:i; }; auto ib=[&](ind_t i){ return nb==1?0:i; }; vf::trans(2);
  auto d=dot(a,b); VF_CHECK(d.size(0)==n&&d.size(1)==1,"shape of a dot product",id); VF_CHECK(a.same_lattice(b)==(s==t)&&a.star_lattice(b)==(s!=t)&&a.same_lattice(&b)==(s==t),"relation of the spaces",id);
  for(ind_t i=0;i<n;++i){ V x=lat::mv(w.X[s],A[ia(i)]), y=lat::mv(w.X[t],B[ib(i)]); vf::state(); VF_CHECK(std::abs(d.val(i,0)-lat::dot(x,y))<=1e-10*std::max(lat::norm(x)*lat::norm(y),1e-6),"dot product",id+" "+lat::show(A[ia(i)])+lat::show(B[ib(i)])+vf::fmt(" %g expected %g",double(d.val(i,0)),lat::dot(x,y))); }
  if(s==t){ auto c=cross(a,b); is_in(w,s,c,"cross",id); auto p=a+b, m=a-b; is_in(w,s,p,"sum",id); is_in(w,s,m,"difference",id); vf::trans(4); VF_CHECK(c.size(0)==n&&p.size(0)==n&&m.size(0)==n,"shape of the result",id);
    for(ind_t i=0;i<n;++i){ V x=lat::mv(w.X[s],A[ia(i)]), y=lat::mv(w.X[s],B[ib(i)]); std::string e=id+" "+lat::show(A[ia(i)])+lat::show(B[ib(i)]); V cc=lat::mv(w.X[s],at(c,i)); VF_CHECK(near_v(cc,lat::cross(x,y),lat::norm(x)*lat::norm(y)),"cross product",e+" "+lat::show(cc)+" expected "+lat::show(lat::cross(x,y))); VF_CHECK(near_v(at(p,i),lat::add(A[ia(i)],B[ib(i)]),1)&&near_v(at(m,i),lat::sub(A[ia(i)],B[ib(i)]),1),"sum and difference",e); }
    if constexpr(std::is_same_v<T,R>) if(na==n){ auto uu=make<T>(w,s,A), vv=make<T>(w,s,A); uu+=b; vv-=b; bool ok=true; for(ind_t i=0;i<n;++i) ok&=near_v(at(uu,i),lat::add(A[i],B[ib(i)]),1)&&near_v(at(vv,i),lat::sub(A[i],B[ib(i)]),1); VF_CHECK(ok,"adding in place",id); is_in(w,s,uu,"adding in place",id); } }
}
static void members(const World& w, int s, const std::vector<V>& A, const std::string& id){ auto a=make<double>(w,s,A); ind_t n=ind_t(A.size()); for(ind_t i=0;i<n;++i) for(ind_t j=0;j<n;++j){ V x=lat::mv(w.X[s],A[i]), y=lat::mv(w.X[s],A[j]); double sc=lat::norm(x)*lat::norm(y); vf::trans(2); vf::state(); VF_CHECK(std::abs(a.dot(i,j)-lat::dot(x,y))<=1e-10*std::max(sc,1e-6),"member dot product",id); auto c=a.cross(i,j); is_in(w,s,c,"member cross",id); V cc=lat::mv(w.X[s],at(c,0)); VF_CHECK(near_v(cc,lat::cross(x,y),sc),"member cross product",id+" "+lat::show(A[i])+lat::show(A[j])+" "+lat::show(cc)+" expected "+lat::show(lat::cross(x,y))); } VF_CHECK(vf::throws([&]{ (void)a.dot(0,n); })&&a.cross(0,n).size(0)==0,"members that do not exist",id); }

void vf_explore(){
  std::vector<World> W; auto add=[&](const Lattice<double>& L, const std::string& id){ W.push_back({L,{L.real_basis_vectors(),L.reciprocal_basis_vectors()},id}); }; M R=lat::rotation({1,2,3},37);
  for(auto& c: lat::cells()){ std::string n=c.name; add(Direct(c.l,c.a,std::string("P 1")),n); add(Reciprocal(c.l,c.a,std::string("P 1")),n+"-reciprocal"); M A=lat::mm(R,lat::cell(c.l,c.a)); add(Direct(A,MatrixVectors::column,std::string("-P 1"),Basis(),false),n+"-turned"); for(auto& x:A) x=-x; add(Direct(A,MatrixVectors::column,std::string("P 1"),Basis(),false),n+"-left"); add(Direct(lat::mm(R,lat::cell(c.l,c.a)),MatrixVectors::column,std::string("I 1"),Basis(),false).primitive(),n+"-primitive"); }
  std::vector<V> half, whole; for(int i=-3;i<=3;++i) for(int j=-3;j<=3;++j) for(int k=-3;k<=3;++k){ half.push_back({i*0.5,j*0.5,k*0.5}); if(std::abs(i)<3&&std::abs(j)<3&&std::abs(k)<3) whole.push_back({double(i),double(j),double(k)}); } half.push_back({0.1,0.7,-0.3}); half.push_back({12.3,-45.6,78.9});
  std::vector<V> some; for(size_t i=0;i<half.size();i+=vf::thorough()?5:13) some.push_back(half[i]);
  for(auto& w: W) for(int s=0;s<2;++s){ std::string id=w.id+(s?"-Q":"-D");
    vf::run("single-"+id,[&]{ singles<double>(w,s,half,id); singles<int>(w,s,whole,id+" int"); vf::trace(); vf::outcome(id); });
    vf::run("members-"+id,[&]{ members(w,s,some,id); vf::trace(); });
    for(int t=0;t<2;++t) vf::run(vf::fmt("pairs-%s%c",id.c_str(),"DQ"[t]),[&]{ vf::trace();
      pairs<double,double>(w,half,half,s,t,id+" N with N"); auto rev=half; std::reverse(rev.begin(),rev.end()); std::rotate(rev.begin(),rev.begin()+100,rev.end()); pairs<double,double>(w,half,rev,s,t,id+" N with N"); for(size_t k=0;k<half.size();k+=vf::thorough()?1:5){ pairs<double,double>(w,{half[k]},half,s,t,id+" 1 with N"); pairs<double,double>(w,half,{half[k]},s,t,id+" N with 1"); }
      for(auto& v: whole){ pairs<int,double>(w,{v},some,s,t,id+" int with double"); pairs<double,int>(w,some,{v},s,t,id+" double with int"); pairs<int,int>(w,whole,{v},s,t,id+" int with int"); } });
  }
  for(size_t i=0;i<W.size();++i) vf::run("unrelated-"+W[i].id,[&]{ std::vector<V> v{{1,0,0},{0,1,0.5}}; for(size_t j=0;j<W.size();++j){ bool related=lat::near_all(W[i].X[0],W[j].X[0],1e-9); if(related&&!(W[i].L==W[j].L)) vf::fail("equal lattices",W[i].id+" "+W[j].id); if(related) continue; for(int s=0;s<2;++s) for(int t=0;t<2;++t){ auto a=make<double>(W[i],s,v), b=make<double>(W[j],t,v); std::string id=W[i].id+" "+W[j].id; vf::state(); vf::trans(6); vf::trace(); VF_CHECK(vf::throws([&]{ dot(a,b); }),"dot product of unrelated vectors",id);
          auto refused=[&](auto f){ try { f(); } catch(const std::exception&){ return true; } return false; };
          VF_CHECK(refused([&]{ cat(0,a,b); }),"concatenation of unrelated vectors",id); VF_CHECK(refused([&]{ cross(a,b); }),"cross product of unrelated vectors",id); VF_CHECK(refused([&]{ auto c=a+b; }),"sum of unrelated vectors",id); VF_CHECK(refused([&]{ auto c=a-b; }),"difference of unrelated vectors",id); VF_CHECK(refused([&]{ a+=b; }),"adding an unrelated vector in place",id); VF_CHECK(refused([&]{ a-=b; }),"subtracting an unrelated vector in place",id); } }
      for(int s=0;s<2;++s){ auto a=make<double>(W[i],s,v), b=make<double>(W[i],1-s,v); auto refused=[&](auto f){ try { f(); } catch(const std::exception&){ return true; } return false; }; std::string id=W[i].id+" both spaces"; vf::trans(5); VF_CHECK(refused([&]{ cat(0,a,b); })&&refused([&]{ cross(a,b); })&&refused([&]{ auto c=a+b; })&&refused([&]{ auto c=a-b; })&&refused([&]{ a+=b; })&&refused([&]{ a-=b; }),"vectors of the two spaces cannot be combined",id); } });
}
