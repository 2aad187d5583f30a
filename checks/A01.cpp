// A01: subscript and broadcast iteration, exhaustively over small shapes.
#include "vf.hpp"
#include <cassert>
#include "subscript.hpp"
#include "array_.hpp"
using namespace brille;

template<class T> std::vector<std::vector<T>> expected(const std::vector<T>& sh, const std::vector<long>& fix){
  // reference: recursive row-major enumeration; fix[i]<0 means free
  std::vector<std::vector<T>> out; std::vector<T> cur(sh.size());
  std::function<void(size_t)> rec=[&](size_t d){
    if (d==sh.size()){ out.push_back(cur); return; }
    for (T k=0;k<sh[d];++k){ if (fix[d]>=0 && static_cast<long>(k)!=fix[d]) continue; cur[d]=k; rec(d+1); }
  };
  rec(0); return out;
}
template<class C> std::string S(const C& c){ return vf::vec(c); }

template<class T, class It> void walk(It it, const std::vector<std::vector<T>>& exp, const std::string& what){
  size_t n=0; bool ok=true; std::string msg;
  auto e = it.end();
  for (auto b=it.begin(); b!=e; ++b){
    std::vector<T> s((*b).begin(), (*b).end());
    if (n>=exp.size() || s!=exp[n]){ ok=false; msg="at step "+std::to_string(n)+" got "+S(s)+(n<exp.size()?" expected "+S(exp[n]):" expected end"); break; }
    ++n; vf::trans();
  }
  if (ok && n!=exp.size()){ ok=false; msg="visited "+std::to_string(n)+" of "+std::to_string(exp.size()); }
  VF_CHECK(ok, what, msg); vf::trace(); vf::state(exp.size()); vf::outcome(what+std::to_string(n));
}

template<class T> void subscripts(const std::vector<int>& ishape, const char* tn){
  std::vector<T> sh(ishape.begin(), ishape.end());
  std::vector<long> nofix(sh.size(),-1);
  auto all = expected<T>(sh, nofix);
  walk<T>(SubIt<T>(sh), all, std::string("SubIt-")+tn);
  if (sh.size()==2) walk<T>(SubIt2<T>({{sh[0],sh[1]}}), all, std::string("SubIt2-")+tn);
  // copies and assignments of an iterator walk the same subscripts
  { SubIt<T> a(sh); SubIt<T> b(a); SubIt<T> c; c=a; walk<T>(b, all, "SubIt-copied"); walk<T>(c, all, "SubIt-assigned"); }
  // fixed dimensions: value v < extent is fixed; == extent is free
  std::vector<int> n; for (int x: ishape) n.push_back(x+1);
  vf::tuples(n, [&](const std::vector<int>& f){
    std::vector<long> fix(sh.size()); std::vector<T> in(sh.size()); bool anyfree=false;
    for (size_t i=0;i<sh.size();++i){ in[i]=static_cast<T>(f[i]); fix[i]= f[i]<ishape[i]? f[i] : -1; anyfree |= fix[i]<0; }
    if (!anyfree){ VF_CHECK(vf::throws([&]{ SubIt<T> x(sh,in); }), "SubIt-all-fixed-refused", S(in)); return; }
    auto ex = expected<T>(sh, fix);
    walk<T>(SubIt<T>(sh,in), ex, std::string("SubIt-fixed-")+tn+S(in));
    if (sh.size()==2) walk<T>(SubIt2<T>({{sh[0],sh[1]}},{{in[0],in[1]}}), ex, std::string("SubIt2-fixed-")+tn+S(in));
    if (std::is_signed<T>::value){ // negative also means free
      for (size_t i=0;i<sh.size();++i) if (fix[i]<0) in[i]=static_cast<T>(-1);
      walk<T>(SubIt<T>(sh,in), ex, std::string("SubIt-fixed-neg-")+tn+S(in));
    }
  });
}

template<class T> void broadcast(const std::vector<int>& a, const std::vector<int>& b){
  std::vector<T> A(a.begin(),a.end()), B(b.begin(),b.end()); bool ok=true; std::vector<T> O(A.size());
  for (size_t i=0;i<A.size();++i){ if (A[i]!=B[i] && A[i]!=1 && B[i]!=1) ok=false; O[i] = A[i]==1?B[i]:A[i]; }
  std::string id = S(a)+S(b);
  auto go=[&](auto make, const char* nm){
    if (!ok){ VF_CHECK(vf::throws([&]{ auto x=make(); (void)x; }), std::string(nm)+"-refuse"+id, "accepted shapes that cannot broadcast"); vf::trans(); return; }
    auto it = make();
    auto sO = it.shape(); std::vector<T> so(sO.begin(), sO.end());
    VF_CHECK(so==O, std::string(nm)+"-shape"+id, "shape "+S(so)+" expected "+S(O));
    T p=1; for (T x: O) p*=x;
    VF_CHECK(it.size()==p, std::string(nm)+"-size"+id, std::to_string(it.size()));
    if (so!=O) return;
    auto ex = expected<T>(O, std::vector<long>(O.size(),-1)); size_t n=0; bool good=true; std::string msg;
    auto e=it.end();
    for (auto k=it.begin(); k!=e; ++k){
      auto [o,x,y] = *k; vf::trans();
      if (n>=ex.size()){ good=false; msg="too many steps"; break; }
      for (size_t i=0;i<O.size();++i){
        T ei=ex[n][i];
        if (o[i]!=ei || x[i]!=(A[i]==1?T(0):ei) || y[i]!=(B[i]==1?T(0):ei)){ good=false; msg="step "+std::to_string(n)+" "+S(o)+S(x)+S(y); }
      }
      if (!good) break; ++n;
    }
    if (good && n!=ex.size()){ good=false; msg="visited "+std::to_string(n)+" of "+std::to_string(ex.size()); }
    VF_CHECK(good, std::string(nm)+id, msg); vf::trace(); vf::state(n); vf::outcome(std::string(nm)+S(O));
  };
  go([&]{ return BroadcastIt<T>(A,B); }, "BroadcastIt");
  if (A.size()==2) go([&]{ return BroadcastIt2<T>({{A[0],A[1]}},{{B[0],B[1]}}); }, "BroadcastIt2");
}

void linear(const std::vector<int>& ish){
  using I=ind_t; std::vector<I> sh(ish.begin(), ish.end()); size_t n=sh.size();
  for (I x: sh) if (!x) return;
  std::vector<I> row(n,1), col(n,1);
  for (size_t i=n-1;i-->0;) row[i]=row[i+1]*sh[i+1];
  for (size_t i=1;i<n;++i) col[i]=col[i-1]*sh[i-1];
  bool big=true; for (I x: sh) big &= x>1;
  std::set<I> seen_r, seen_c;
  auto all=expected<I>(sh, std::vector<long>(n,-1)); I k=0;
  for (auto& s: all){
    I lr=sub2lin(s,row), lc=sub2lin(s,col); vf::trans(4); vf::state();
    VF_CHECK(lr==k, "sub2lin-row-order", S(s)); ++k;
    seen_r.insert(lr); seen_c.insert(lc);
    VF_CHECK(lin2sub(lr,row)==s, "lin2sub-row"+S(sh), S(s)+"->"+S(lin2sub(lr,row)));
    auto bc=lin2sub(lc,col);
    if (big) VF_CHECK(bc==s, "lin2sub-col"+S(sh), S(s)+"->"+S(bc));
    VF_CHECK(bc.size()==n && sub2lin(bc,col)==lc, "lin2sub-col-linear"+S(sh), S(bc));
    if (n==2){
      std::array<I,2> s2{{s[0],s[1]}}, r2{{row[0],row[1]}}, c2{{col[0],col[1]}};
      VF_CHECK(sub2lin(s2,r2)==lr && sub2lin(s[0],s[1],r2)==lr, "sub2lin2-row", S(s));
      VF_CHECK(sub2lin(s2,c2)==lc, "sub2lin2-col", S(s));
      VF_CHECK(lin2sub(lr,r2)==s2, "lin2sub2-row"+S(sh), S(s));
      if (big) VF_CHECK(lin2sub(lc,c2)==s2, "lin2sub2-col"+S(sh), S(s));
      // padded rows: a row stride larger than the extent, as for a column view
      std::array<I,2> p2{{sh[1]+2,1}}; VF_CHECK(lin2sub(sub2lin(s2,p2),p2)==s2, "lin2sub2-padded"+S(sh), S(s));
      // the array object itself
    }
  }
  VF_CHECK(seen_r.size()==all.size() && seen_c.size()==all.size(), "sub2lin-injective", S(sh));
  vf::trace();
}

//! the same through the array types: iteration of subscripts and element look-up by subscript and position
void arrays(const std::vector<int>& ish){
  std::vector<ind_t> sh(ish.begin(), ish.end()); for (ind_t x: sh) if(!x) return;
  Array<int> a(sh); int k=0;
  auto all=expected<ind_t>(sh, std::vector<long>(sh.size(),-1));
  for (auto& s: all) a[s]=k++;
  k=0; for (auto s: a.subItr()){ VF_CHECK(k<(int)all.size() && s==all[k], "Array-subItr", S(s)); ++k; vf::trans(); }
  VF_CHECK(k==(int)all.size(), "Array-subItr-count", std::to_string(k));
  k=0; for (auto& x: a.valItr()){ VF_CHECK(x==k, "Array-valItr", std::to_string(x)); ++k; vf::trans(); }
  VF_CHECK(k==(int)all.size(), "Array-valItr-count", std::to_string(k));
  for (ind_t i=0;i<all.size();++i) VF_CHECK(a[i]==(int)i, "Array-linear-index", std::to_string(i));
  if (sh.size()==2){
    Array2<int> b(sh[0],sh[1]); k=0; for (auto& s: all) b.val(s[0],s[1])=k++;
    k=0; for (auto s: b.subItr()){ VF_CHECK(k<(int)all.size() && s[0]==all[k][0] && s[1]==all[k][1], "Array2-subItr", std::to_string(k)); ++k; vf::trans(); }
    VF_CHECK(k==(int)all.size(), "Array2-subItr-count", std::to_string(k));
    k=0; for (auto& x: b.valItr()){ VF_CHECK(x==k, "Array2-valItr", std::to_string(x)); ++k; }
    VF_CHECK(k==(int)all.size(), "Array2-valItr-count", std::to_string(k));
    // row and column views are visited in their own subscripts
    for (ind_t c=0;c<sh[1];++c){ k=0; for (ind_t r=0;r<sh[0];++r) VF_CHECK(b.view(r).val(0,c)==(int)(r*sh[1]+c), "Array2-row-view", std::to_string(r)); }
  }
  vf::trace();
}

void vf_explore(){
  int E = vf::thorough()?5:4;  // extents 0..E-1
  for (int nd=1; nd<=4; ++nd)
    vf::power(nd==4 ? std::min(E,4) : E, nd, [&](const std::vector<int>& sh){
      vf::run("shape"+S(sh), [&]{ subscripts<unsigned>(sh,"u"); subscripts<int>(sh,"i"); linear(sh); arrays(sh); });
    });
  for (int nd=1; nd<=(vf::thorough()?4:3); ++nd)
    vf::power(4, nd, [&](const std::vector<int>& a){
      vf::run("broadcast"+S(a), [&]{ vf::power(4, nd, [&](const std::vector<int>& b){ broadcast<unsigned>(a,b); broadcast<int>(a,b); }); });
    });
  if (!vf::thorough()) vf::power(3, 4, [&](const std::vector<int>& a){
      vf::run("broadcast"+S(a), [&]{ vf::power(3, 4, [&](const std::vector<int>& b){ broadcast<unsigned>(a,b); }); }); });
  vf::sample("shape [2,0,3]: expect no subscript; shape [2,3] fixed [2,1]: expect (0,1),(1,1)");
}
