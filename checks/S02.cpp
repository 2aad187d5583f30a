// S02: generated groups against an exact closure; index operations against plain lists
#define VF_SPGDATA
#include "S01.hpp"
#include "symmetry.hpp"
#include "pointsymmetry.hpp"
#include "pointgroup.hpp"
using namespace brille;
using ex::Mat; using ex::Vec; using ex::Op;
typedef Motion<int,double> Mo;
static Mo mk(const Op& o){ return Mo(o.W,{o.t[0]/24.,o.t[1]/24.,o.t[2]/24.}); }
static bool toop(const Mo& m, Op& o){ o.W=m.getr(); auto w=m.gett(); for(int i=0;i<3;++i){ double x=w[i]*24, r=std::round(x); if(!(std::abs(x-r)<1e-6)) return false; o.t[i]=ex::md(int(r)); } return true; }
static std::string sh(const std::vector<Mat>& v){ std::string s; for(auto& m:v) s+=vf::vec(m); return s; }
static std::string sh(const std::vector<Op>& v){ std::string s; for(auto& m:v) s+=ex::str(m); return s; }
static PointSymmetry ps(const std::vector<Mat>& v){ PointSymmetry p; for(auto& m:v) p.add(m); return p; }
static Symmetry sy(const std::vector<Op>& v){ Symmetry p; for(auto& m:v) p.add(mk(m)); return p; }
static std::set<Mat> setof(const PointSymmetry& p){ std::set<Mat> s; for(auto& m: p.getall()) s.insert(m); return s; }
static bool setof(const Symmetry& p, std::set<Op>& s){ for(auto& m: p.getallm()){ Op o; if(!toop(m,o)) return false; s.insert(o); } return true; }

//! the checks on a complete point group
static void complete(const PointSymmetry& g, const std::vector<Mat>& want){
  for(size_t i=0;i<g.size();++i){ Mat m=g.get(i), w=ex::inv(m); vf::trans(5); VF_CHECK(g.get_inverse(i)==w,"inverse operation by index",vf::vec(m)); size_t k=g.get_inverse_index(i); VF_CHECK(k<g.size() && g.get(k)==w,"index of the inverse operation",vf::vec(m)+vf::fmt(" index %zu",k)); VF_CHECK(g.find_index(m)==i && g.has(m),"index of an operation",vf::vec(m)); int d[9]; VF_CHECK(g.get(i,d) && std::equal(d,d+9,m.begin()) && std::equal(d,d+9,g.data(i)),"operation copied out",vf::vec(m)); }
  Mat z{0,1,0,0,0,1,1,0,1}; VF_CHECK(!g.has(z) && g.find_index(z)==g.size(),"operation that is not in the group",""); size_t e=g.find_identity_index(); VF_CHECK(e<g.size() && g.get(e)==ex::one(),"index of the identity","");
  bool inv=std::find(want.begin(),want.end(),ex::neg(ex::one()))!=want.end(); VF_CHECK(g.has_space_inversion()==inv,"has_space_inversion",sh(want));
  PointSymmetry h=g.add_space_inversion(); std::vector<Mat> w2=want; if(!inv) for(auto& m: want) w2.push_back(ex::neg(m)); VF_CHECK(h.size()==w2.size() && setof(h)==std::set<Mat>(w2.begin(),w2.end()),"group extended by inversion",sh(want)+vf::fmt(" has %zu operations",h.size()));
  PointSymmetry gens=g.generators(), again=gens.generate(); VF_CHECK(again.size()==want.size() && setof(again)==std::set<Mat>(want.begin(),want.end()),"group from its generators",sh(want)+vf::fmt(" (%zu) from ",want.size())+sh(gens.getall())+vf::fmt(" (%zu)",again.size())); VF_CHECK(gens.size()<=7,"number of generators",vf::fmt("%zu",gens.size()));
}
static void gen_point(const std::vector<Mat>& g, bool full){
  vf::state(); vf::trans(); vf::trace(); auto want=ex::group(g); PointSymmetry p=ps(g), q=p.generate(); auto s=setof(q); vf::outcome(std::to_string(want.size()));
  VF_CHECK(s.size()==q.size(),"generated group repeats an operation",sh(g)); VF_CHECK(s==std::set<Mat>(want.begin(),want.end()),"generated group",sh(g)+vf::fmt(" generates %zu operations, found %zu",want.size(),q.size())); VF_CHECK(p.size()==g.size() && p.getall()==Matrices<int>(g.begin(),g.end()),"generating changed the generators",sh(g));
  if(full){ PointSymmetry w=p.generators(); VF_CHECK(setof(w.generate())==s,"generators of a set of operations",sh(g)); if(w.size()>1) for(size_t i=0;i<w.size();++i){ std::vector<Mat> rest; for(size_t j=0;j<w.size();++j) if(j!=i) rest.push_back(w.get(j)); VF_CHECK(setof(ps(rest).generate()).size()<s.size(),"a generator that is not needed",sh(g)); vf::trans(); } complete(q,want); vf::state(want.size()); } }
static void gen_space(const std::vector<Op>& g, bool full){
  vf::state(); vf::trans(); vf::trace(); auto want=ex::group(g); if(want.empty()) return; std::set<Op> ws(want.begin(),want.end()), s; Symmetry p=sy(g), q=p.generate(); bool ok=setof(q,s);
  VF_CHECK(ok && s.size()==q.size(),"generated space group repeats an operation",sh(g)); VF_CHECK(s==ws,"generated space group",sh(g)+vf::fmt(" generates %zu operations, found %zu",want.size(),q.size()));
  if(full){ Symmetry w=q.generators(), r=w.generate(); std::set<Op> rs; setof(r,rs); VF_CHECK(rs==ws && r.size()==ws.size(),"space group from its generators",sh(g)+vf::fmt(": %zu from %zu generators of a group of %zu",r.size(),w.size(),ws.size())); VF_CHECK(r==q && q==r && !(r!=q),"equality of groups",sh(g));
    { std::vector<Op> wo; for(size_t i=0;i<w.size();++i){ Op o; toop(w.getm(i),o); wo.push_back(o); } if(wo.size()>1) for(size_t i=0;i<wo.size();++i){ auto rest=wo; rest.erase(rest.begin()+i); VF_CHECK(ex::group(rest).size()<ws.size(),"a generator that is not needed",sh(g)+" "+ex::str(wo[i])); vf::trans(); } }
    VF_CHECK(q.getr(q.size())==Mat{} && q.getm(q.size()).getr()==Mat{} && q.gett(q.size()+3)==(std::array<double,3>{0,0,0}) && q.getm(q.size()).gett()==(std::array<double,3>{0,0,0}),"parts beyond the last operation are empty",sh(g));
    bool inv=ws.count(Op{ex::neg(ex::one()),{0,0,0}}); VF_CHECK(q.has_space_inversion()==inv,"space group has_space_inversion",sh(g)); auto g2=want; g2.push_back(Op{ex::neg(ex::one()),{0,0,0}}); auto w2=ex::group(g2); if(!w2.empty()){ Symmetry h=q.add_space_inversion(); std::set<Op> hs; setof(h,hs); VF_CHECK(hs==std::set<Op>(w2.begin(),w2.end()) && h.size()==hs.size(),"space group extended by inversion",sh(g)+vf::fmt(" %zu expected %zu",h.size(),w2.size())); }
    for(size_t i=0;i<q.size();++i){ Op o; toop(q.getm(i),o); VF_CHECK(q.has(mk(o)),"has an operation of the group",ex::str(o)); size_t k=q.find_matrix_index(o.W); VF_CHECK(k<=i && q.getr(k)==o.W,"find_matrix_index",ex::str(o)); VF_CHECK(q.getm(i).getr()==q.getr(i) && q.getm(i).gett()==q.gett(i),"parts by index",ex::str(o)); }
    Mat z{0,1,0,0,0,1,1,0,1}; VF_CHECK(q.find_matrix_index(z)==q.size(),"find_matrix_index of an absent matrix",""); VF_CHECK(q.getallr().size()==q.size() && q.getallt().size()==q.size(),"all parts","");
    if(q.size()>1){ Symmetry cut=q; Mo last=cut.pop(cut.size()-1); VF_CHECK(!cut.has(last) && cut!=q && q!=cut && cut.size()+1==q.size(),"group without one operation",sh(g)); Mo o=last; cut.add(o); VF_CHECK(cut==q,"operation put back",sh(g)); Symmetry dup=q; dup.pop(0); dup.add(q.getm(q.size()-1)); } } }

// histories of index operations
struct PModel { std::vector<Mat> v; };
static const int NP=17;
static const Mat MA{0,-1,0,1,0,0,0,0,1}, MB{0,0,1,1,0,0,0,1,0}, MC{-1,0,0,0,1,0,0,0,-1}, MZ{0,0,0,0,0,0,0,0,0};
static void step(int k, PointSymmetry& p, PModel& m, std::string& h, bool& good){ size_t n=m.v.size(); auto is=[&](bool b){ if(!b) good=false; };
  switch(k){ case 0: h+=" add(A)"; m.v.push_back(MA); is(p.add(MA)==n+1); break; case 1: h+=" add(B)"; m.v.push_back(MB); is(p.add(MB.data())==n+1); break; case 2: h+=" add(C)"; m.v.push_back(MC); is(p.add("-x,y,-z")==n+1); break;
   case 3: h+=" set(0,B)"; is(p.set(0,MB.data())==(n>0)); if(n) m.v[0]=MB; break; case 4: h+=" set(last,C)"; is(n? p.set(n-1,MC.data()):!p.set(0,MC.data())); if(n) m.v[n-1]=MC; break; case 5: h+=" set(size,A)"; is(!p.set(n,MA.data())); break;
   case 6: h+=" erase(0)"; if(n){ m.v.erase(m.v.begin()); is(p.erase(0)==n-1); } else is(vf::throws([&]{ p.erase(0); })); break; case 7: h+=" erase(last)"; if(n){ m.v.pop_back(); is(p.erase(n-1)==n-1); } break; case 8: h+=" erase(size)"; is(vf::throws([&]{ p.erase(n); })); break;
   case 9: h+=" pop()"; if(n){ Mat a=m.v[0]; m.v.erase(m.v.begin()); is(p.pop()==a); } else is(vf::throws([&]{ p.pop(); })); break; case 10: h+=" pop(1)"; if(n>1){ Mat a=m.v[1]; m.v.erase(m.v.begin()+1); is(p.pop(1)==a); } else is(vf::throws([&]{ p.pop(1); })); break;
   case 11: h+=" resize(+1)"; m.v.resize(n+1,MZ); is(p.resize(n+1)==n+1); break; case 12: h+=" resize(-1)"; if(n){ m.v.resize(n-1); is(p.resize(n-1)==n-1); } break;
   case 13: { h+=" permute(rotate)"; std::vector<size_t> q(n); for(size_t i=0;i<n;++i) q[i]=(i+1)%n; std::vector<Mat> w(n); for(size_t i=0;i<n;++i) w[i]=m.v[q[i]]; m.v=w; p.permute(q); break; }
   case 14: { h+=" permute(bad)"; std::vector<size_t> q(n,0); bool t=vf::throws([&]{ p.permute(q); }); is(t==(n>1)); q.resize(n+1); is(vf::throws([&]{ p.permute(q); })); break; }
   case 15: { h+=" copy"; PointSymmetry c(p); c.add(MA); if(n) c.set(0,MC.data()); break; } case 16: { h+=" assign"; PointSymmetry c; c=p; p=c; break; } } }
static void agree(const PointSymmetry& p, const PModel& m, const std::string& h){ vf::trans(); bool ok=p.size()==m.v.size(); for(size_t i=0;ok&&i<m.v.size();++i) ok=p.get(i)==m.v[i] && p.data(i) && std::equal(m.v[i].begin(),m.v[i].end(),p.data(i)); ok=ok&&p.get(m.v.size())==MZ && p.data(m.v.size())==nullptr; for(auto& x: {MA,MB,MC}){ size_t k=std::find(m.v.begin(),m.v.end(),x)-m.v.begin(); ok=ok&&p.find_index(x)==k && p.has(x)==(k<m.v.size()); } VF_CHECK(ok,"operations by index","after"+h+": "+sh(p.getall())+" expected "+sh(m.v)); }
static void walk(const PointSymmetry& p, const PModel& m, const std::string& h, int depth){ vf::state(); for(int k=0;k<NP;++k){ PointSymmetry q(p); PModel n(m); std::string g=h; bool good=true; step(k,q,n,g,good); VF_CHECK(good,"value returned",g); agree(q,n,g); vf::trace(); if(depth>1) walk(q,n,g,depth-1); } }
static void swalk(const Symmetry& p, const std::vector<Op>& m, const std::string& h, int depth){
  static const Op A{MA,{0,0,6}}, B{MB,{12,0,0}}, C{MC,{0,12,12}}; vf::state();
  for(int k=0;k<9;++k){ Symmetry q(p); std::vector<Op> n(m); std::string g=h; bool good=true; size_t z=m.size();
    switch(k){ case 0: g+=" add(A)"; n.push_back(A); good=q.add(mk(A))==z+1; break; case 1: { g+=" add(B)"; n.push_back(B); double t[3]{.5,0,0}; good=q.add(MB.data(),t)==z+1; break; } case 2: g+=" add(C)"; n.push_back(C); good=q.add("-x,1/2+y,1/2-z")==z+1; break; case 3: g+=" erase(0)"; if(z){ n.erase(n.begin()); good=q.erase(0)==z-1; } else good=vf::throws([&]{ q.erase(0); }); break; case 4: g+=" erase(size)"; good=vf::throws([&]{ q.erase(z); }); break;
     case 5: g+=" pop(last)"; if(z){ Op o; Mo x=q.pop(z-1); good=toop(x,o)&&o==n.back(); n.pop_back(); } break; case 6: g+=" pop(0)"; if(z){ Op o; Mo x=q.pop(0); good=toop(x,o)&&o==n.front(); n.erase(n.begin()); } break; case 7: g+=" resize(-1)"; if(z){ n.pop_back(); good=q.resize(z-1)==z-1; } break; case 8: { g+=" copy"; Symmetry c(q); c.add(mk(A)); break; } }
    VF_CHECK(good,"value returned by Symmetry",g); bool ok=q.size()==n.size(); for(size_t i=0;ok&&i<n.size();++i){ Op o; ok=toop(q.getm(i),o)&&o==n[i]; } for(auto& x: {A,B,C}) ok=ok&&q.has(mk(x))==(std::find(n.begin(),n.end(),x)!=n.end()); VF_CHECK(ok,"motions by index","after"+g); vf::trans(); vf::trace(); if(depth>1) swalk(q,n,g,depth-1); } }

void vf_explore(){
  for(int fam=0;fam<2;++fam){ auto G=fam?ex::d6h():ex::oh(); size_t N=G.size();
    for(size_t i=0;i<N;++i) vf::run(vf::fmt("point-%d-%zu",fam,i),[&]{ gen_point({G[i]},true); for(size_t j=0;j<N;++j){ gen_point({G[i],G[j]},vf::thorough()||(i+j)%4==0); for(size_t k=0;k<N;++k) if(vf::thorough()||fam||(i+j+k)%3==0) gen_point({G[i],G[j],G[k]},false); } });
  }
  vf::run("point-empty",[&]{ gen_point({},true); });
  // every order of the generators of every point group, and of the whole group listed in several orders
  for(auto& pg: ex::pointgroups()) vf::run("point-group-"+pg.first,[&]{ auto g=pg.second; std::sort(g.begin(),g.end()); do gen_point(g,true); while(std::next_permutation(g.begin(),g.end()));
    auto w=ex::group(g); vf::tally("operations of the point groups",w.size()); for(size_t r=0;r<w.size();++r){ std::rotate(w.begin(),w.begin()+1,w.end()); gen_point(w,r%4==0); auto u=w; std::reverse(u.begin(),u.end()); gen_point(u,false); PointSymmetry p(Matrices<int>(w.begin(),w.end())); auto keep=std::set<Mat>(w.begin(),w.end()); VF_CHECK(setof(p)==keep && p.size()==w.size(),"constructor keeps every operation",pg.first); complete(p,w);
      auto key=[](const Mat& m, int mode){ return std::abs(mode)==2? isometry_value(m.data()): rotation_order(m.data()); }; for(int mode: {-2,-1,0,1,2}){ PointSymmetry s=ps(w); s.sort(mode); bool ok=setof(s)==keep && s.size()==w.size(); for(size_t i=1;ok&&i<s.size();++i) ok=mode<0? key(s.get(i-1),mode)>=key(s.get(i),mode) : key(s.get(i-1),mode)<=key(s.get(i),mode); VF_CHECK(ok,"sorted operations",pg.first+vf::fmt(" mode %d",mode)); } }
    // other bases
    std::vector<Mat> P{Mat{1,1,0,0,1,0,0,0,1},Mat{0,1,1,1,0,1,1,1,1},Mat{1,0,0,0,1,-1,1,0,1}}; for(auto& b: P) if(std::abs(ex::det(b))==1){ auto h=g; for(auto& m:h) m=ex::mul(ex::mul(ex::inv(b),m),b); gen_point(h,true); } });
  // missing inverses are reported
  vf::run("incomplete",[&]{ for(auto& g: ex::oh()){ if(ex::order(g)<3) continue; PointSymmetry p=ps({ex::one(),g}); vf::state(); vf::trans(2); VF_CHECK(vf::throws([&]{ p.get_inverse(1); }) && vf::throws([&]{ p.get_inverse_index(1); }),"inverse of an operation of an incomplete group",vf::vec(g)); } });
  // linking operations
  for(auto& pg: ex::pointgroups()) vf::run("links-"+pg.first,[&]{ auto w=ex::group(pg.second); PointSymmetry p=ps(w); std::vector<Vec> v{{1,0,0},{0,1,0},{0,0,1},{1,1,0},{1,-1,0},{-1,0,0},{0,0,-1},{1,1,1},{0,-1,0},{2,1,0}}; for(auto& a:v) for(auto& b:v){ size_t n=0,m=0; for(auto& g:w){ if(ex::mul(g,a)==b) ++n; if(ex::mulT(g,a)==b) ++m; } vf::state(); vf::trans(4); auto l=p.mat_vec_linking_operations(a,b), k=p.vec_mat_linking_operations(a,b); bool ok=l.size()==n && k.size()==m; for(auto& g:l) ok=ok&&ex::mul(g,a)==b; for(auto& g:k) ok=ok&&ex::mulT(g,a)==b; VF_CHECK(ok && p.mat_vec_links(a,b)==(n>0) && p.vec_mat_links(a,b)==(m>0),"linking operations",pg.first+vf::vec(a)+vf::vec(b)); } });
  // space groups: generators from the operations of every tabulated setting
  for(int h=1;h<=530;++h) vf::run(vf::fmt("space-%d",h),[&]{ auto w=ex::spacegroup(h); size_t n=w.size(); vf::outcome(sh(w)); std::vector<Op> g; gen_space(w,true);
      std::reverse(w.begin(),w.end()); gen_space(w,n<=48||vf::thorough()); size_t cap=vf::thorough()?48:n<=8?8:n<=24?6:4; size_t st=std::max<size_t>(1,n/cap); for(size_t i=h%st;i<n;i+=st) for(size_t j=0;j<n;j+=st) gen_space({w[i],w[j]},(i+j)%3==0); });
  for(int h: {1,3,9,18,61,108,227,430,489,494}) vf::run(vf::fmt("space-triples-%d",h),[&]{ auto w=ex::spacegroup(h); size_t n=std::min<size_t>(w.size(),vf::thorough()?24:12); for(size_t i=0;i<n;++i) for(size_t j=0;j<n;++j) for(size_t k=0;k<n;++k) gen_space({w[i],w[j],w[k]},false); });
  { int nf=vf::thorough()?5:4; for(int k=0;k<NP;++k) vf::run(vf::fmt("point-history-%d",k),[&]{ for(int start=0;start<3;++start){ PModel m; if(start==1) m.v={MB}; if(start==2) m.v={MC,MA,MB}; PointSymmetry p=ps(m.v); std::string h=vf::fmt(" start%d",start); bool good=true; step(k,p,m,h,good); VF_CHECK(good,"value returned",h); agree(p,m,h); walk(p,m,h,start?nf-2:nf-1); } }); }
  vf::run("space-history",[&]{ swalk(Symmetry(),{},"",vf::thorough()?6:5); });
}
