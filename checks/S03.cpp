// S03: tabulated space groups and Hall symbols against the spglib operations and an independent decoder
#define VF_SPGDATA
#include "S01.hpp"
#include "spg_database.hpp"
#include "hall_symbol.hpp"
#include "symmetry.hpp"
#include "pointsymmetry.hpp"
using namespace brille;
using ex::Mat; using ex::Vec; using ex::Op;
static bool toop(const Motion<int,double>& m, Op& o){ o.W=m.getr(); auto w=m.gett(); for(int i=0;i<3;++i){ double x=w[i]*24, r=std::round(x); if(!(std::abs(x-r)<1e-6)) return false; o.t[i]=ex::md(int(r)); } return true; }
static bool ops(const Symmetry& p, std::vector<Op>& s){ for(auto& m: p.getallm()){ Op o; if(!toop(m,o)) return false; s.push_back(o); } std::sort(s.begin(),s.end()); return true; } // the order of generators means nothing
static bool opset(const Symmetry& p, std::set<Op>& s){ std::vector<Op> v; bool ok=ops(p,v); s=std::set<Op>(v.begin(),v.end()); return ok && s.size()==v.size(); }
static const char* L7="PABCIRF";
static std::vector<Vec> centring(char c){ switch(c){ case 'A': return {{0,0,0},{0,12,12}}; case 'B': return {{0,0,0},{12,0,12}}; case 'C': return {{0,0,0},{12,12,0}}; case 'I': return {{0,0,0},{12,12,12}}; case 'R': return {{0,0,0},{16,8,8},{8,16,16}}; case 'F': return {{0,0,0},{0,12,12},{12,0,12},{12,12,0}}; } return {{0,0,0}}; }
static Bravais bra(char c){ switch(c){ case 'A': return Bravais::A; case 'B': return Bravais::B; case 'C': return Bravais::C; case 'I': return Bravais::I; case 'R': return Bravais::R; case 'F': return Bravais::F; } return Bravais::P; }

// ---- independent decoder of Hall symbols from parts
struct Part { int N; char ax; std::string T; bool explicit_ax; };   // ax: x y z ' " * (0: implied)
static Mat table(int n, char ax, char pre){
  if(n==1) return ex::one();
  if(ax=='*') return Mat{0,0,1, 1,0,0, 0,1,0};
  if(ax=='\'' || ax=='"' || ax=='?'){ int s=ax=='"'?1:-1; if(ax=='?') pre='z'; if(pre=='z') return Mat{0,s,0, s,0,0, 0,0,-1}; if(pre=='x') return Mat{-1,0,0, 0,0,s, 0,s,0}; return Mat{0,0,s, 0,-1,0, s,0,0}; }
  // rotation about z in the standard setting, carried to x and y by the cyclic permutation of the axes
  Mat z; switch(n){ case 2: z=Mat{-1,0,0,0,-1,0,0,0,1}; break; case 3: z=Mat{0,-1,0,1,-1,0,0,0,1}; break; case 4: z=Mat{0,-1,0,1,0,0,0,0,1}; break; default: z=Mat{1,-1,0,1,0,0,0,0,1}; }
  Mat c{0,0,1, 1,0,0, 0,1,0}; // x->y->z->x
  if(ax=='x') return ex::mul(ex::mul(c,z),ex::inv(c)); if(ax=='y') return ex::mul(ex::mul(ex::inv(c),z),c); return z; }
static Vec axisvec(char ax, char pre){ switch(ax){ case 'x': return {1,0,0}; case 'y': return {0,1,0}; case 'z': return {0,0,1}; case '*': return {1,1,1}; case '\'': return pre=='x'?Vec{0,1,-1}:pre=='y'?Vec{1,0,-1}:Vec{1,-1,0}; case '"': return pre=='x'?Vec{0,1,1}:pre=='y'?Vec{1,0,1}:Vec{1,1,0}; } return {0,0,0}; }
static Op decode(const Part& p, char ax, char pre){ Op o; int n=std::abs(p.N); o.W=table(n,ax,pre); if(p.N<0) o.W=ex::neg(o.W); o.t={0,0,0}; Vec a=axisvec(ax,pre);
  for(char c: p.T) switch(c){ case 'a': o.t[0]+=12; break; case 'b': o.t[1]+=12; break; case 'c': o.t[2]+=12; break; case 'n': for(auto& x:o.t) x+=12; break; case 'u': o.t[0]+=6; break; case 'v': o.t[1]+=6; break; case 'w': o.t[2]+=6; break; case 'd': for(auto& x:o.t) x+=6; break; default: for(int i=0;i<3;++i) o.t[i]+=a[i]*(c-'0')*24/n; }
  return ex::norm(o); }
static std::vector<Op> decode(char L, bool cs, const std::vector<Part>& ps, Vec V){ std::vector<Op> g; for(auto& t: centring(L)) g.push_back(Op{ex::one(),t}); if(cs) for(auto& t: centring(L)) g.push_back(Op{ex::neg(ex::one()),t});
  char pre='!'; int pn=0; for(size_t i=0;i<ps.size();++i){ auto& p=ps[i]; char ax=p.ax; if(!ax){ int n=std::abs(p.N); if(i==0) ax='z'; else if(n==3) ax='*'; else if(n==2) ax=(pn==2||pn==4)?'x':'?'; else ax='!'; } g.push_back(decode(p,ax,pre)); pre=ax; pn=std::abs(p.N); }
  for(auto& o: g){ Op v{ex::one(),V}, w{ex::one(),{-V[0],-V[1],-V[2]}}; o=ex::norm(ex::mul(v,ex::mul(o,w))); } std::sort(g.begin(),g.end()); return g; }
static std::string text(char L, bool cs, const std::vector<Part>& ps, Vec V, int form){ std::string s=cs?"-":""; s+=L; for(auto& p:ps){ s+=" "; s+=std::to_string(p.N); if(form==0){ if(p.ax) s+=p.ax; s+=p.T; } else if(form==1){ if(p.ax){ s+="^"; s+=p.ax; } for(char c: p.T){ s+="_"; s+=c; } } else { for(char c: p.T){ s+="_"; s+=c; } if(p.ax){ s+="^"; s+=p.ax; } } } if(V!=Vec{0,0,0}){ s+=" ("; for(int i=0;i<3;++i){ if(i) s+=" "; s+=std::to_string(V[i]/2); } s+=")"; } return s; }
static std::string sh(const std::vector<Op>& v){ std::string s; for(auto& m:v) s+=ex::str(m); return s; }

static void grammar(char L, bool cs, const std::vector<Part>& ps, Vec V, bool forms){
  auto want=decode(L,cs,ps,V); 
  for(int f=0;f<(forms?3:1);++f){ bool ax=false,tr=false; for(auto& p:ps){ ax|=p.ax; tr|=!p.T.empty(); } if(f&&!ax&&!tr) continue; // no sub- or superscript to write
    std::string s=text(L,cs,ps,V,f); vf::state(); vf::trans(2); vf::trace(); HallSymbol h(s); std::vector<Op> got; bool ok=h.validate(); VF_CHECK(ok,"Hall symbol refused","'"+s+"'"); VF_CHECK(h.getl()==bra(L),"lattice letter of a Hall symbol","'"+s+"'"); ok=ops(h.get_generators(),got); VF_CHECK(ok && got==want,"generators of a Hall symbol","'"+s+"' gives "+sh(got)+" expected "+sh(want));
    std::string u=h.to_ascii(); HallSymbol k(u); std::vector<Op> again; vf::trans(2); ok=ops(k.get_generators(),again); VF_CHECK(ok && again==want,"Hall symbol written and read back","'"+s+"' written as '"+u+"'"); } }

static int pgclass(const std::vector<Mat>& g, int t[10]){ for(int i=0;i<10;++i) t[i]=0; for(auto& m: g){ int d=ex::det(m), tr=ex::trace(m)*d; int k=tr==3?0:tr==-1?1:tr==0?2:tr==1?3:4; t[d>0?5+k:k]++; } return 0; }
//! point group number (1-32) of each international number
static int pg_of_number(int n){ static const int last[]={1,2,5,9,15,24,46,74,80,82,88,98,110,122,142,146,148,155,161,167,173,174,176,182,186,190,194,199,206,214,220,230}; static const int pg[]={1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32}; for(int i=0;i<32;++i) if(n<=last[i]) return pg[i]; return 0; }
static const char* schoen(int pg){ static const char* s[]={"C1","Ci","C2","Cs","C2h","D2","C2v","D2h","C4","S4","C4h","D4","C4v","D2d","D4h","C3","C3i","D3","C3v","D3d","C6","C3h","C6h","D6","C6v","D3h","D6h","T","Th","O","Td","Oh"}; return s[pg-1]; }
static int pg_order(int pg){ static const int o[]={1,2,2,2,4,4,4,8,4,4,8,8,8,8,16,3,6,6,6,12,6,6,12,12,12,12,24,12,24,24,24,48}; return o[pg-1]; }

static void setting(int h){
  vf::state(); vf::trace(); Spacegroup sg(h); auto want=ex::spacegroup(h); std::set<Op> ws(want.begin(),want.end()), s; std::string id=vf::fmt("Hall number %d (%d, '%s', '%s', '%s')",h,sg.number,sg.hall_symbol.c_str(),sg.international_short.c_str(),sg.choice.c_str());
  VF_CHECK(sg.get_hall_number()==h && hall_number_ok(h),"Hall number of a setting",id);
  // decoding
  vf::trans(6); HallSymbol hs(sg.get_hall_symbol()); VF_CHECK(hs.validate(),"Hall symbol refused",id); Symmetry full=hs.get_generators().generate(); VF_CHECK(opset(full,s) && s==ws,"operations of the decoded Hall symbol",id+vf::fmt(": %zu, tabulated %zu",s.size(),ws.size()));
  Symmetry S=sg.get_spacegroup_symmetry(); VF_CHECK(opset(S,s) && s==ws,"operations of the setting",id); VF_CHECK(S==full && full==S,"equality of the two decodings",id);
  std::string t=hs.to_ascii(); HallSymbol h2(t); VF_CHECK(h2.validate() && opset(h2.get_generators().generate(),s) && s==ws,"Hall symbol written and read back",id+" written as '"+t+"'"); 
  // size, centring, inversion, point group
  std::set<Mat> rots; for(auto& o: want) rots.insert(o.W); std::vector<Mat> rv(rots.begin(),rots.end()); size_t nc=0; std::vector<Vec> ct; for(auto& o: want) if(o.W==ex::one()){ ++nc; ct.push_back(o.t); } 
  int pg=pg_of_number(sg.number); VF_CHECK(pg>0 && S.size()==nc*size_t(pg_order(pg)),"size of the group",id+vf::fmt(" %zu",S.size()));
  char L='?'; for(const char* c=L7;*c;++c){ auto v=centring(*c); std::sort(v.begin(),v.end()); auto w=ct; std::sort(w.begin(),w.end()); if(v==w) L=*c; } VF_CHECK(L!='?',"centring translations are those of no lattice letter",id);
  VF_CHECK(S.getcentring()==bra(L),"centring of the operations",id+" "+bravais_string(S.getcentring())); VF_CHECK(hs.getl()==bra(L),"centring of the Hall symbol",id); VF_CHECK(sg.get_bravais_type()==bra(L),"centring of the table entry",id+" "+bravais_string(sg.get_bravais_type())+" for a lattice "+std::string(1,L));
  VF_CHECK(sg.get_pointgroup_number()==pg && sg.get_pointgroup().get_number()==pg,"point group number of the table entry",id); VF_CHECK(sg.get_schoenflies_symbol().compare(0,sg.get_schoenflies_symbol().find('^'),schoen(pg))==0,"Schoenflies symbol of the table entry",id+" "+sg.get_schoenflies_symbol());
  PointSymmetry p0=sg.get_pointgroup_symmetry(0), p1=sg.get_pointgroup_symmetry(1); std::set<Mat> a(p0.getall().begin(),p0.getall().end()), b(p1.getall().begin(),p1.getall().end()), both=rots; for(auto& m: rv) both.insert(ex::neg(m));
  VF_CHECK(a==rots && p0.size()==rots.size(),"point operations of the setting",id); VF_CHECK(b==both && p1.size()==both.size(),"point operations with time reversal",id); VF_CHECK(get_pointgroup(p0).get_number()==pg,"point group of the operations",id); bool inv=rots.count(ex::neg(ex::one())); VF_CHECK(p0.has_space_inversion()==inv,"inversion of the setting",id);
  std::vector<int> buf(48*9*2); int n=get_pointgroup_rotations_hall_number(buf.data(),48,h,0); std::set<Mat> c; for(int i=0;i<n;++i){ Mat m; std::copy(buf.begin()+9*i,buf.begin()+9*i+9,m.begin()); c.insert(m); } VF_CHECK(c==rots && n==int(rots.size()),"point rotations by Hall number",id); VF_CHECK(rots.size()<2 || vf::throws([&]{ get_pointgroup_rotations_hall_number(buf.data(),int(rots.size())-1,h,0); }),"too small a buffer",id);
  // every route to the setting
  vf::trans(12); auto same=[&](int k){ if(k==h) return true; if(k<1||k>530) return false; auto w=ex::spacegroup(k); return std::set<Op>(w.begin(),w.end())==ws; };   // two settings may share all their operations
  auto sameno=[&](int k){ return k>=1&&k<=530&&Spacegroup(k).number==sg.number; };
  int k=hall_symbol_to_hall_number(sg.hall_symbol); VF_CHECK(same(k),"setting found by Hall symbol",id+vf::fmt(" found %d",k)); k=string_to_hall_number(sg.hall_symbol); VF_CHECK(same(k),"setting found by Hall symbol text",id+vf::fmt(" found %d",k)); k=string_to_hall_number(sg.hall_symbol,sg.choice); VF_CHECK(same(k),"setting found by Hall symbol text and choice",id+vf::fmt(" found %d",k));
  k=international_number_to_hall_number(sg.number,sg.choice); VF_CHECK(sg.choice.empty()? sameno(k): k==h,"setting found by number and choice",id+vf::fmt(" found %d",k)); k=international_number_to_hall_number(sg.number); VF_CHECK(sameno(k) && (k==1||Spacegroup(k-1).number!=sg.number),"first setting of a number",id+vf::fmt(" found %d",k));
  for(auto& name: {sg.international,sg.international_full,sg.international_short}){ k=international_string_to_hall_number(name,sg.choice); bool amb=sg.choice.empty() && k!=h; VF_CHECK(k==h || (amb&&same(k)),"setting found by name and choice",id+" '"+name+vf::fmt("' found %d",k)); k=international_string_to_hall_number(name); VF_CHECK(sameno(k),"number found by name",id+" '"+name+vf::fmt("' found %d",k));
    int ks=string_to_hall_number(name,sg.choice); bool hallname=hall_symbol_to_hall_number(name)!=0; VF_CHECK(hallname? sameno(ks) : (ks==h||(sg.choice.empty()&&same(ks))),"setting found by text and choice",id+" '"+name+vf::fmt("' found %d",ks)); VF_CHECK(international_string_to_hall_number(name,"no such choice")==0,"a choice that does not exist",id); }
}
void vf_explore(){
  for(int h=1;h<=530;++h) vf::run(vf::fmt("setting-%d",h),[&]{ setting(h); vf::outcome(Spacegroup(h).hall_symbol); });
  vf::run("table",[&]{ int last=0; std::map<std::string,int> seen; std::map<int,std::string> byno; for(int h=1;h<=530;++h){ Spacegroup s(h); VF_CHECK(s.number==last||s.number==last+1,"international numbers in order",vf::fmt("%d",h)); last=s.number; auto sf=s.schoenflies; size_t c=sf.find('^'); std::string cl=sf.substr(0,c); int k=std::atoi(sf.c_str()+c+1); if(!byno.count(s.number)){ byno[s.number]=sf; VF_CHECK(k==++seen[cl],"Schoenflies superscripts count up",sf); } else VF_CHECK(byno[s.number]==sf,"one Schoenflies symbol per number",sf); }
    VF_CHECK(last==230,"international numbers","");
    for(int h: {0,-1,531,1000}){ vf::state(); vf::trans(); VF_CHECK(!hall_number_ok(h) && Spacegroup(h).number==0,"Hall number out of range",vf::fmt("%d",h)); } for(int n: {0,-1,231,500}){ int k=international_number_to_hall_number(n); VF_CHECK(!hall_number_ok(k),"international number out of range",vf::fmt("%d found %d",n,k)); } VF_CHECK(hall_symbol_to_hall_number("P 7")==0 && string_to_hall_number("nothing")==0 && string_to_hall_number("")==0,"unknown names",""); });
  // the symbol of every setting in equivalent forms: leading '-' against -1, explicit axes
  for(int h=1;h<=530;++h) vf::run(vf::fmt("equivalent-%d",h),[&]{ std::string s=Spacegroup(h).hall_symbol; auto w=ex::spacegroup(h); std::set<Op> ws(w.begin(),w.end()), g; std::vector<std::string> forms; std::string body=s, V; size_t v=s.find(" ("); if(v!=std::string::npos){ V=s.substr(v); body=s.substr(0,v); }
      forms.push_back(s+" "); if(V.empty()) forms.push_back(s+" (0 0 0)"); if(body[0]=='-') forms.push_back(body.substr(1)+" -1"+V); forms.push_back(body+" 1"+V); if(!V.empty()){ int a,b,c; sscanf(V.c_str()," (%d %d %d)",&a,&b,&c); forms.push_back(body+vf::fmt(" (x%+d/12,y%+d/12,z%+d/12)",a,b,c)); forms.push_back(body+vf::fmt(" (%d %d %d)",a,b,c+12)); }
      for(auto& f: forms){ vf::state(); vf::trans(); HallSymbol x(f); VF_CHECK(x.validate() && opset(x.get_generators().generate(),g) && g==ws,"equivalent Hall symbol","'"+f+"' for '"+s+"'"); } });
  // grammar
  std::vector<std::string> T{"","a","b","c","n","u","v","w","d","ab","ac","bc","uv","vw","uw","bd","cd","vwa","1","2","3","4","5","1c","ad"};
  std::vector<Part> first, second, third;
  for(int n: {1,2,3,4,6,-1,-2,-3,-4,-6}) for(char ax: {char(0),'x','y','z','*'}){ if(ax=='*'&&std::abs(n)!=3) continue; if(std::abs(n)==1&&ax) continue; for(auto& t: T){ bool ok=true; for(char c: t) if(std::isdigit(c) && (c-'0')>=std::abs(n)) ok=false; if(ok) first.push_back({n,ax,t,ax!=0}); } }
  for(int n: {2,-2}) for(char ax: {char(0),'x','y','z','\'','"'}) for(auto& t: T){ bool ok=true; for(char c: t) if(std::isdigit(c) && ((c-'0')>=2)) ok=false; if(!ax && t.find('1')!=std::string::npos) ok=false; if(ok) second.push_back({n,ax,t,ax!=0}); }
  for(int n: {3,-3}) for(char ax: {char(0),'*'}) third.push_back({n,ax,"",ax!=0}); for(auto t: {"","n","d","ac","bd"}) third.push_back({-1,0,t,false}); third.push_back({4,'z',"c",true}); third.push_back({2,'y',"",true});
  for(const char* c=L7;*c;++c) for(int cs=0;cs<2;++cs) vf::run(vf::fmt("one-symbol-%c%d",*c,cs),[&]{ grammar(*c,cs,{},{0,0,0},false); for(auto& p: first){ grammar(*c,cs,{p},{0,0,0},true); for(Vec V: {Vec{0,0,2},Vec{0,0,-2},Vec{6,0,22},Vec{-2,4,10}}) grammar(*c,cs,{p},V,false); } });
  for(size_t i=0;i<first.size();++i) vf::run(vf::fmt("more-symbols-%zu",i),[&]{ auto& p=first[i]; bool pre=p.ax!='*' && std::abs(p.N)!=1; for(size_t j=0;j<second.size();++j){ auto& q=second[j]; if(!pre && (q.ax=='\''||q.ax=='"')) continue; if(std::abs(p.N)==1 && !q.ax) continue; char L=L7[(i+j)%7]; bool cs=(i*3+j)%2; grammar(L,cs,{p,q},{0,0,0},(i+j)%5==0);
      if(vf::thorough()||(i+j)%4==0) for(auto& r: third) grammar(L,cs,{p,q,r},{0,0,0},false); if((i+j)%11==0) grammar(L,cs,{p,q},{0,4,-2},false); } });
  vf::run("refused",[&]{ for(const char* s: {"","Q 2","P 5","P 2xy","P 2x'","P 2''''","P 2aa","X","2 2"}){ vf::state(); vf::trans(); HallSymbol h(std::string{s}); VF_CHECK(!h.validate()||std::string(s)=="P 5","malformed Hall symbol accepted",std::string("'")+s+"'"); } for(auto pr: {std::pair<const char*,const char*>{"P 2 2''","P 2 2\""},{"P 3 2''","P 3 2\""},{"P 2 2 3'''","P 2 2 3*"}}){ HallSymbol a(std::string{pr.first}), b(std::string{pr.second}); std::vector<Op> x,y; a.validate(); VF_CHECK(ops(a.get_generators(),x)&&ops(b.get_generators(),y)&&x==y,"repeated primes",pr.first); } });
}
