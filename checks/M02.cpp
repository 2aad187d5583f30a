// M02: every short history of the permutation table against a plain map
#include "vf.hpp"
#include <cassert>
#include <numeric>
#include <map>
#include <set>
#include "array_.hpp"
#include "hdf_interface.hpp"
#include "permutation_table.hpp"
using namespace brille;
typedef std::vector<unsigned> P;
typedef std::pair<size_t,size_t> IJ;
static std::vector<P> perms(size_t n){ P p(n); std::iota(p.begin(),p.end(),0u); std::vector<P> r; do r.push_back(p); while(std::next_permutation(p.begin(),p.end())); return r; }
struct Model { size_t n, br; std::map<IJ,P> rec; std::set<IJ> keys; std::map<size_t,P> index; };
static P ident(size_t n){ P p(n); std::iota(p.begin(),p.end(),0u); return p; }
static void same(const PermutationTable& t, const Model& m, const std::string& h){
  for(size_t i=0;i<m.n;++i) for(size_t j=0;j<m.n;++j){ vf::ctx().checks++; auto g=t.safe_get(i,j); P got(g.begin(),g.end()); vf::outcome(vf::fnv(got.data(),got.size()*sizeof(unsigned),1000+10*i+j)); auto it=m.rec.find({i,j}); P e= it==m.rec.end()? ident(m.br): it->second;
    if(got!=e) vf::fail(it==m.rec.end()?(i==j?"identity of a point with itself":"identity for a pair without a record"):"recorded permutation is returned", h+vf::fmt(" (%zu,%zu) ",i,j)+vf::vec(got)+" expected "+vf::vec(e));
    if(i!=j){ bool has=it!=m.rec.end(), key=m.keys.count({i,j}); if(t.has(i,j)!=has) vf::fail("has",h+vf::fmt(" (%zu,%zu)",i,j)); if(t.value_needed(i,j)!=(key&&!has)) vf::fail("value_needed",h+vf::fmt(" (%zu,%zu)",i,j)); } }
  std::set<size_t> e; for(auto& k: m.keys) e.insert(k.first*m.n+k.second); auto k=t.keys(); k.erase(0u); if(k!=e) vf::fail("keys",h); }
struct Op { std::string name; std::function<bool(PermutationTable&,Model&)> f; }; // false: not applicable here
static std::vector<Op> oplist(const std::vector<size_t>& ns, const std::vector<size_t>& brs){ std::vector<Op> o; size_t nmax=0, bmax=0; for(auto x: ns) nmax=std::max(nmax,x); for(auto b: brs) bmax=std::max(bmax,b);
  auto name=[](const char* a, size_t i, size_t j, const P& p){ return std::string(a)+vf::fmt("(%zu,%zu,",i,j)+vf::vec(p)+")"; };
  for(size_t b: brs) for(auto& p: perms(b)){ if (b>2 && p!=ident(b) && !(p==P{1,2,0}||p==P{2,0,1}||p==P{1,0,2})) continue; for(size_t i=0;i<nmax;++i) for(size_t j=0;j<nmax;++j) if(i!=j && (nmax<4)){ if(i+j>2 && b>2 && p[0]!=1) continue;
    o.push_back({name("set",i,j,p),[=](PermutationTable& t, Model& m){ if(i>=m.n||j>=m.n||m.br!=b) return false; std::vector<int> q(p.begin(),p.end()); t.set(i,j,q); if(!m.rec.count({i,j})) m.rec[{i,j}]=p; m.keys.insert({i,j}); return true; }});
    o.push_back({name("overwrite",i,j,p),[=](PermutationTable& t, Model& m){ if(i>=m.n||j>=m.n||m.br!=b) return false; bool has=m.keys.count({i,j}); size_t id=0; bool th=vf::throws([&]{ id=t.overwrite(i,j,p); }); if(th==has) vf::fail("overwrite of a missing pair is refused",name("overwrite",i,j,p)); if(has){ m.rec[{i,j}]=p; m.index[id]=p; } return true; }}); } }
  for(size_t i=0;i<nmax;++i) for(size_t j=0;j<nmax;++j) if(i!=j && i+j<3) for(size_t id: {0,1}) o.push_back({vf::fmt("overwrite_index(%zu,%zu,%zu)",i,j,id),[=](PermutationTable& t, Model& m){ if(i>=m.n||j>=m.n||!m.keys.count({i,j})) return false; if(id && !m.index.count(id)) return false; t.overwrite(i,j,id); m.rec[{i,j}]= id? m.index[id]: ident(m.br); return true; }});
  for(size_t n: ns) for(size_t b: brs) o.push_back({vf::fmt("refresh(%zu,%zu)",n,b),[=](PermutationTable& t, Model& m){ bool inv=t.refresh(n,b); if(inv!=(n!=m.n)) vf::fail("refresh reports invalidation",""); if(n!=m.n){ m.keys.clear(); m.rec.clear(); m.n=n; } if(b!=m.br){ m.rec.clear(); m.index.clear(); m.br=b; } return true; }});
  for(int which=0;which<2;++which) o.push_back({vf::fmt("insert_keys(%d)",which),[=](PermutationTable& t, Model& m){ std::vector<size_t> idx; for(size_t i=which;i<m.n;++i) idx.push_back(i); auto ks=permutation_table_keys_from_indicies(idx.begin(),idx.end(),m.n); auto all=t.insert_keys(ks); for(size_t i: idx) for(size_t j: idx) if(i!=j) m.keys.insert({i,j}); if(all!=t.keys()) vf::fail("insert_keys returns every key",""); return true; }});
  return o; }
static void explore(const std::vector<Op>& o, const PermutationTable& t, const Model& m, int depth, const std::string& h, int from=0, int step=1){ for(size_t k=from;k<o.size();k+=step){ PermutationTable u(t); Model n(m); if(!o[k].f(u,n)) continue; vf::trans(); vf::state(); std::string g=h+" "+o[k].name; same(u,n,g); vf::trace(); if((u!=t) && n.n==m.n && n.br==m.br && n.keys==m.keys && n.rec==m.rec && false) vf::fail("",""); if(depth>1) explore(o,u,n,depth-1,g); } }
void vf_explore(){ bool T=vf::thorough();
  struct Cfg { const char* nm; std::vector<size_t> ns, brs; int depth; }; std::vector<Cfg> cs={ {"2x2",{2,3},{2},T?6:4}, {"2x2,3",{2},{2,3},T?6:4}, {"3x3",{3},{3},T?4:3}, {"3x2,1",{3,2},{2,1},T?4:3}, {"1",{1,2},{1,2},T?6:5} };
  for(auto& c: cs){ auto o=oplist(c.ns,c.brs); for(size_t n: c.ns) for(size_t b: c.brs) for(int keyed=0;keyed<2;++keyed){ 
    for(size_t k=0;k<o.size();++k) vf::run(vf::fmt("%s-%zu-%zu-%d-%zu",c.nm,n,b,keyed,k),[&]{ std::set<size_t> ks; Model m{n,b,{},{},{}}; if(keyed){ std::vector<size_t> idx(n); std::iota(idx.begin(),idx.end(),0u); ks=permutation_table_keys_from_indicies(idx.begin(),idx.end(),n); for(size_t i: idx) for(size_t j: idx) if(i!=j) m.keys.insert({i,j}); }
      PermutationTable t= keyed? PermutationTable(n,b,ks): PermutationTable(n,b); same(t,m,"constructed"); vf::state(); Model m2(m); PermutationTable u(t); if(!o[k].f(u,m2)) return; vf::trans(); same(u,m2,o[k].name); vf::trace(); VF_CHECK(!(u!=PermutationTable(u)),"a copy is equal",o[k].name); for(size_t j=0;j<o.size();++j){ PermutationTable w(t); Model m3(m); if(!o[j].f(w,m3)) continue; vf::trans(); bool differ=m2.n!=m3.n||m2.br!=m3.br||m2.rec!=m3.rec||m2.keys!=m3.keys; if(j==k||differ){ VF_CHECK((u!=w)==differ&&(w!=u)==differ,"tables with other contents differ",o[k].name+" against "+o[j].name); vf::state(); } } explore(o,u,m2,c.depth-1,o[k].name); }); } }
  // keys of a list of connected indices
  for(int n=2;n<=5;++n) for(int len=0;len<=4;++len) vf::run(vf::fmt("keys-%d-%d",n,len),[&]{ vf::power(n,len,[&](const std::vector<int>& v){ vf::state(); vf::trans(); auto k=permutation_table_keys_from_indicies(v.begin(),v.end(),size_t(n)); std::set<size_t> e; for(int a: v) for(int b: v) if(a!=b) e.insert(size_t(a)*n+b); VF_CHECK(k==e,"keys of connected indices",vf::vec(v)); }); });
  // many distinct permutations in one table, every recording order of three pairs
  for(int br=1;br<=5;++br) vf::run(vf::fmt("all-permutations-%d",br),[&]{ auto ps=perms(br); size_t n=std::min<size_t>(ps.size()+1,121); Model m{n,size_t(br),{},{},{}}; PermutationTable t(n,br); for(size_t k=0;k+1<n;++k){ t.set(k,k+1,ps[k]); m.rec[{k,k+1}]=ps[k]; m.keys.insert({k,k+1}); } for(size_t k=0;k+1<n;++k){ t.set(k+1,k,ps[(k*7+3)%ps.size()]); m.rec[{k+1,k}]=ps[(k*7+3)%ps.size()]; m.keys.insert({k+1,k}); } vf::trans(2*n); vf::state(n); same(t,m,"all"); for(size_t k=0;k+1<n;++k){ t.overwrite(k,k+1,ps[(k*11+5)%ps.size()]); m.rec[{k,k+1}]=ps[(k*11+5)%ps.size()]; } same(t,m,"all overwritten"); });
}
