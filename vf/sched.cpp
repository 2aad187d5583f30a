#include "sched.hpp"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <new>
#include <unordered_map>
#include <map>
#include <set>
#include <chrono>
#include <pthread.h>
#include <sys/mman.h>
#include <cxxabi.h>
#include <typeinfo>
#include <unistd.h>
#include <malloc.h>
extern "C" { extern char __libc_single_threaded; extern char __executable_start, etext; void* __cxa_get_globals(); }
namespace sched {
static const int MAXT = 4;
template<class T> struct Own { typedef T value_type; Own()=default; template<class U> Own(const Own<U>&){} T* allocate(size_t n){ return (T*)malloc(n*sizeof(T)); } void deallocate(T* p,size_t){ free(p); } template<class U> bool operator==(const Own<U>&) const { return true; } template<class U> bool operator!=(const Own<U>&) const { return false; } };
template<class K,class V> using Map=std::unordered_map<K,V,std::hash<K>,std::equal_to<K>,Own<std::pair<const K,V>>>;
struct VC { uint32_t c[MAXT]; void join(const VC& o){ for(int i=0;i<MAXT;++i) if(o.c[i]>c[i]) c[i]=o.c[i]; } };
struct Work { bool set=false; long long start=0,end=0,incr=1,chunk=1,next=0; int kind=0; long count=0; bool claimed=false; };
struct Team { int n=1; std::vector<Work,Own<Work>> work; int arrived=0; long generation=0; int remaining=0; VC gather{}; VC release{}; void* copy=nullptr; };
struct Fiber { void* sp=nullptr; char* stack=nullptr; int id=0; enum State{idle,ready,on_mutex,on_barrier,on_join,on_guard,done} state=idle; void (*fn)(void*)=nullptr; void* data=nullptr; VC vc{}; uint64_t eh[2]={0,0}; Team* team=nullptr; int tid=0; size_t ws=0; const void* wait=nullptr; long gen=0; bool spared=false; };
struct Lock { int owner=-1; int depth=0; VC vc{}; };
static Fiber F[MAXT], outside; static Fiber* me=&outside; static void* home=nullptr; static uint64_t home_eh[2];
static bool running=false, tracking=false, internal=false; static int live_fibers=0, icv=1;
static Options opt; static Report rep; static std::vector<std::pair<int,int>,Own<std::pair<int,int>>> path; static size_t pos=0; static int preempted=0; static bool diverged=false;
static Map<const void*,Lock> locks; static Map<const void*,VC> clocks; static const std::function<void()>* body=nullptr;
struct In { bool was; In():was(internal){ internal=true; } ~In(){ internal=was; } };
bool inside(){ return running; }
// ---- switching
extern "C" void vf_switch(void** save, void* to);
asm(R"(
.text
.globl vf_switch
.type vf_switch,@function
vf_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size vf_switch,.-vf_switch
)");
static void fiber_main();
static const size_t STACK=size_t(16)<<20;
static void prepare(Fiber& f){ f.spared=false; if(!f.stack){ f.stack=(char*)mmap(nullptr,STACK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(f.stack==MAP_FAILED){ perror("mmap"); _exit(3);} } uint64_t* s=(uint64_t*)(f.stack+STACK-64); *--s=0; *--s=(uint64_t)&fiber_main; for(int i=0;i<6;++i) *--s=0; --s; uint32_t mx; uint16_t cw; asm volatile("stmxcsr %0":"=m"(mx)); asm volatile("fnstcw %0":"=m"(cw)); ((uint32_t*)s)[0]=mx; ((uint32_t*)s)[1]=cw; f.sp=s; f.eh[0]=f.eh[1]=0; }
static void load_eh(uint64_t* e){ uint64_t* g=(uint64_t*)__cxa_get_globals(); g[0]=e[0]; g[1]=e[1]; }
static void save_eh(uint64_t* e){ uint64_t* g=(uint64_t*)__cxa_get_globals(); e[0]=g[0]; e[1]=g[1]; }
static void to(Fiber* f){ Fiber* old=me; if(old==f) return; save_eh(old->eh); me=f; load_eh(f->eh); vf_switch(&old->sp,f->sp); }
[[noreturn]] static void leave(){ void* dummy; Fiber* old=me; (void)old; load_eh(home_eh); vf_switch(&dummy,home); abort(); }
static void finish(const std::string& how){ { In in; rep.ended=how; } leave(); }
static bool enabled(Fiber& f){ switch(f.state){ case Fiber::ready: return true; case Fiber::on_mutex: { auto i=locks.find(f.wait); return i==locks.end()||i->second.owner<0; } case Fiber::on_guard: { auto i=locks.find(f.wait); return i==locks.end()||i->second.owner<0; } case Fiber::on_barrier: return f.team->generation!=f.gen; case Fiber::on_join: return f.team->remaining==0; default: return false; } }
static void schedule(bool can){ ++rep.points; int list[MAXT], n=0; if(can) list[n++]=me->id; for(int i=0;i<MAXT;++i) if(!(can&&i==me->id)&&enabled(F[i])) list[n++]=i; if(!n) finish("deadlock"); int c=0; if(n>1&&!(can&&preempted>=opt.preemptions)){ if(pos<path.size()){ if(path[pos].first!=n){ diverged=true; c=0; path.resize(pos); path.push_back({n,0}); } else c=path[pos].second; } else path.push_back({n,0}); ++pos; } if(can&&c) ++preempted; to(&F[list[c]]); }
static void point(){ if(running&&live_fibers>1&&!internal) schedule(true); }
static void block(Fiber::State s, const void* on){ me->state=s; me->wait=on; while(!enabled(*me)) schedule(false); me->state=Fiber::ready; }
static void fault(const char* a, uint32_t x, const char* b, uint32_t y);
#define FAULT(a,x) fault(a,x,"",0)
static void note(const std::string& s){ if(rep.faults.size()<8) rep.faults.push_back(s); }
static std::string where(uint32_t off){ if(!off) return "?"; static std::map<uint32_t,std::string> memo; auto& r=memo[off]; if(!r.empty()) return r; bool was=internal; internal=true; char exe[512]; ssize_t k=readlink("/proc/self/exe",exe,511); exe[k>0?k:0]=0; char cmd[900]; snprintf(cmd,900,"addr2line -f -C -s -e %s 0x%x 2>/dev/null",exe,off-1); FILE* p=popen(cmd,"r"); char a[300]="?",b[300]=""; if(p){ if(fgets(a,300,p)) fgets(b,300,p); pclose(p);} a[strcspn(a,"\n(")]=0; b[strcspn(b,"\n (")]=0; r=std::string(a).substr(0,100)+" at "+b; internal=was; return r; }
static void fault(const char* a, uint32_t x, const char* b, uint32_t y){ In in; note(std::string(a)+where(x)+b+(*b?where(y):std::string())); }
// ---- memory accesses
struct alignas(8) Cell { uint64_t key; uint32_t gen; uint8_t wm[MAXT], rm[MAXT]; uint8_t freed; uint32_t w[MAXT], r[MAXT], wp[MAXT], rp[MAXT]; };
static const size_t CELLS=size_t(1)<<21; static Cell* cells=nullptr; static uint32_t gen=0; static size_t used=0; static long dropped=0;
static Cell* cell(uint64_t key){ size_t h=(key*0x9E3779B97F4A7C15ull)>>43; for(;;h=(h+1)&(CELLS-1)){ Cell& c=cells[h]; if(c.gen!=gen){ if(used>CELLS*7/10){ ++dropped; return nullptr; } ++used; { void* d=&c; size_t k=sizeof(c)/8; asm volatile("rep stosq":"+D"(d),"+c"(k):"a"(0):"memory"); } c.gen=gen; c.key=key; return &c; } if(c.key==key) return &c; } }
static inline void access(uintptr_t a, size_t n, bool write, uintptr_t pc){ if(!tracking||internal) return; Fiber* f=me; if(!f||!n) return; ++rep.accesses; uint32_t off=uint32_t(pc-(uintptr_t)&__executable_start); int t=f->id; uint32_t now=f->vc.c[t]; for(uintptr_t g=a>>3; g<=(a+n-1)>>3; ++g){ Cell* c=cell(g); if(!c) return; uintptr_t lo=g<<3; unsigned m=0xff; if(a>lo) m&=0xffu<<(a-lo); if(a+n<lo+8) m&=0xffu>>(lo+8-a-n); m&=0xff; if(c->freed&m){ c->freed=0; FAULT("storage is used after it was released: ",off); } for(int u=0;u<MAXT;++u) if(u!=t){ if((c->wm[u]&m)&&c->w[u]>f->vc.c[u]){ fault(write?"data race: write by ":"data race: read by ",off," and write by ",c->wp[u]); c->wm[u]=0; } if(write&&(c->rm[u]&m)&&c->r[u]>f->vc.c[u]){ fault("data race: write by ",off," and read by ",c->rp[u]); c->rm[u]=0; } } if(write){ c->wm[t]=c->w[t]==now?uint8_t(c->wm[t]|m):uint8_t(m); c->w[t]=now; c->wp[t]=off; } else { c->rm[t]=c->r[t]==now?uint8_t(c->rm[t]|m):uint8_t(m); c->r[t]=now; c->rp[t]=off; } } }
// ---- storage
struct alignas(16) Head { uint64_t size; uint32_t magic; uint32_t extra; };
static const uint32_t ALIVE=0xA11CE5ED, DEAD=0xDEADB10C; static std::vector<void*,Own<void*>>* quarantine=nullptr;
static bool refuse(uintptr_t pc){ if(!running||internal||!me||!me->team||me->team->n<2||me->spared) return false; { In in; rep.sites.push_back(pc-(uintptr_t)&__executable_start); } return opt.fail&&long(rep.sites.size())==opt.fail; }
static void* get(size_t n, uintptr_t pc){ if(refuse(pc)) throw std::bad_alloc(); Head* h=(Head*)malloc(n+sizeof(Head)); if(!h) throw std::bad_alloc(); h->size=n; h->magic=ALIVE; h->extra=0; if(running&&!internal) ++rep.live; return h+1; }
static void put(void* p, uintptr_t pc){ if(!p) return; Head* h=(Head*)p-1; if(running&&!internal){ if(h->magic!=ALIVE){ FAULT("storage is released twice: ",uint32_t(pc-(uintptr_t)&__executable_start)); return; } --rep.live; if(tracking){ if(h->size<=4096) access((uintptr_t)p,h->size,true,pc); else access((uintptr_t)p,4096,true,pc); for(uintptr_t g=(uintptr_t)p>>3; g<((uintptr_t)p+std::min<size_t>(h->size,4096)+7)>>3; ++g) if(Cell* c=cell(g)) c->freed=0xff; } h->magic=DEAD; internal=true; quarantine->push_back(h); internal=false; return; } h->magic=DEAD; free(h); }
static std::vector<void*,Own<void*>>* later=nullptr;
static void flush(){ for(auto p: *quarantine) free(p); quarantine->clear(); for(auto p: *later) free(p); later->clear(); }
// ---- teams
static int now_threads(unsigned asked){ return asked?int(asked):icv; }
static void barrier(Team* t){ if(t->n<2) return; point(); t->gather.join(me->vc); ++me->vc.c[me->id]; if(++t->arrived==t->n){ t->arrived=0; t->release=t->gather; ++t->generation; me->vc.join(t->release); } else { me->gen=t->generation; block(Fiber::on_barrier,t); me->vc.join(t->release); } }
static void fiber_main(){ Fiber* f=me; if(f->id==0){ try{ (*body)(); } catch(const std::exception& e){ In in; rep.ended=std::string("exception: ")+e.what(); } catch(...){ In in; rep.ended="exception: unknown"; } f->state=Fiber::done; leave(); } f->fn(f->data); --live_fibers; f->state=Fiber::done; --f->team->remaining; schedule(false); abort(); }
static void parallel(void (*fn)(void*), void* data, unsigned asked, const Work* w){ Team t; int n=now_threads(asked); if(!running||(me->team&&me->team->n>1)) n=1; if(n>MAXT) n=MAXT; t.n=n; if(w) t.work.push_back(*w); Fiber* f=me; Team* ot=f->team; int oi=f->tid; size_t ow=f->ws; f->team=&t; f->tid=0; f->ws=0; if(n==1){ try{ fn(data); } catch(...){ f->team=ot; f->tid=oi; f->ws=ow; throw; } f->team=ot; f->tid=oi; f->ws=ow; return; }
  tracking=true; t.remaining=n-1; live_fibers=n; for(int i=1;i<n;++i){ Fiber& g=F[i]; prepare(g); g.id=i; g.state=Fiber::ready; g.fn=fn; g.data=data; g.vc.join(f->vc); ++g.vc.c[i]; g.team=&t; g.tid=i; g.ws=0; } ++f->vc.c[0]; point(); fn(data); --live_fibers; block(Fiber::on_join,&t); for(int i=1;i<n;++i){ f->vc.join(F[i].vc); F[i].state=Fiber::idle; } ++f->vc.c[0]; live_fibers=1; f->team=ot; f->tid=oi; f->ws=ow; }
static bool take(long long* a, long long* b){ Fiber* f=me; Team* t=f->team; if(!t) return false; point(); Work& w=t->work[f->ws-1]; long long left=w.incr>0?(w.end-w.next+w.incr-1)/w.incr:(w.next-w.end-w.incr-1)/-w.incr; if(left<=0) return false; long long c=w.chunk>0?w.chunk:1; if(w.kind==1){ long long g=left/t->n; if(g<c) g=c; c=g; } if(c>left) c=left; *a=w.next; w.next+=c*w.incr; *b=w.next; return true; }
static Work& enter(Fiber* f){ Team* t=f->team; if(t->work.size()<=f->ws) t->work.resize(f->ws+1); return t->work[f->ws++]; }
static void lock(const void* m, bool recursive=false){ if(!running||internal) return; point(); Lock& l=locks[m]; if(l.owner==me->id){ if(recursive){ ++l.depth; return; } finish("deadlock"); } if(l.owner>=0) block(Fiber::on_mutex,m); Lock& k=locks[m]; k.owner=me->id; k.depth=1; me->vc.join(k.vc); }
static bool trylock(const void* m, bool recursive=false){ if(!running||internal) return true; point(); Lock& l=locks[m]; if(l.owner==me->id&&recursive){ ++l.depth; return true; } if(l.owner>=0) return false; l.owner=me->id; l.depth=1; me->vc.join(l.vc); return true; }
static void unlock(const void* m){ if(!running||internal) return; Lock& l=locks[m]; if(l.owner!=me->id) return; if(--l.depth) return; l.owner=-1; l.vc=me->vc; ++me->vc.c[me->id]; }
static void acquire(const void* a){ auto i=clocks.find(a); if(i!=clocks.end()) me->vc.join(i->second); }
static void release(const void* a, bool merge){ VC& v=clocks[a]; if(merge) v.join(me->vc); else v=me->vc; ++me->vc.c[me->id]; }
static void atomic(const volatile void* a, size_t n, int order, bool load, bool store, uintptr_t pc){ if(!running||internal||!me||!tracking) return; if(opt.atomics) point(); bool acq=order==__ATOMIC_ACQUIRE||order==__ATOMIC_ACQ_REL||order==__ATOMIC_SEQ_CST||order==__ATOMIC_CONSUME, rel=order==__ATOMIC_RELEASE||order==__ATOMIC_ACQ_REL||order==__ATOMIC_SEQ_CST; ++rep.accesses; Cell* c=cell((uintptr_t)a>>3); if(c&&c->freed){ c->freed=0; FAULT("storage is used after it was released: ",uint32_t(pc-(uintptr_t)&__executable_start)); } if(load&&acq) acquire((const void*)a); if(store&&rel) release((const void*)a,load); else if(store&&!load) clocks.erase((const void*)a); }
[[noreturn]] static void ended(){ In in; std::string m="terminated"; if(running){ if(auto p=std::current_exception()){ try{ std::rethrow_exception(p); } catch(const std::exception& e){ m+=std::string(": ")+e.what(); } catch(...){ m+=": unknown exception"; } } finish(m); } fprintf(stderr,"terminated outside a controlled run\n"); abort(); }
static void one(const Options& o){ static bool init=false; if(!init){ init=true; cells=(Cell*)mmap(nullptr,CELLS*sizeof(Cell),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); quarantine=new std::vector<void*,Own<void*>>(); later=new std::vector<void*,Own<void*>>(); }
  __libc_single_threaded=0; opt=o; ++gen; used=0; rep=Report(); pos=0; preempted=0; locks.clear(); clocks.clear(); for(int i=0;i<MAXT;++i){ F[i].state=Fiber::idle; F[i].vc=VC{}; F[i].team=nullptr; } prepare(F[0]); F[0].id=0; F[0].state=Fiber::ready; F[0].vc.c[0]=1; live_fibers=1; icv=o.threads; tracking=false; auto was=std::set_terminate(ended); save_eh(home_eh); running=true; me=&F[0]; load_eh(F[0].eh); vf_switch(&home,F[0].sp); running=false; tracking=false; me=&outside; internal=false; std::set_terminate(was); flush(); icv=1; rep.preemptions=preempted; for(size_t i=0;i<path.size()&&i<pos;++i){ rep.schedule+=char('0'+path[i].second); } }
Report once(int threads, const std::function<void()>& b){ path.clear(); body=&b; Options o; o.threads=threads; o.preemptions=0; one(o); path.clear(); return rep; }
Stats explore(const Options& o, const std::function<void()>& b, const std::function<bool(const Report&)>& judge){ Stats s; path.clear(); body=&b; auto t0=std::chrono::steady_clock::now(); while(true){ diverged=false; one(o); ++s.schedules; s.points+=rep.points; s.accesses+=rep.accesses; if(rep.points>s.most_points) s.most_points=rep.points; if(diverged) rep.faults.push_back("the operation behaves differently when the same schedule is repeated"); if(dropped){ dropped=0; s.complete=false; } Report r=rep; path.resize(pos); bool go=judge(r); while(!path.empty()&&path.back().second+1>=path.back().first) path.pop_back(); if(path.empty()) break; ++path.back().second; if(!go||s.schedules>=o.cap||std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count()>o.seconds){ s.complete=false; break; } } path.clear(); return s; }
}
using namespace sched;
#define PC ((uintptr_t)__builtin_return_address(0))
#define EXE (PC>=(uintptr_t)&__executable_start&&PC<(uintptr_t)&etext)
void* operator new(size_t n){ return get(n,PC); } void* operator new[](size_t n){ return get(n,PC); }
void* operator new(size_t n,const std::nothrow_t&) noexcept { try{ return get(n,PC);}catch(...){return nullptr;} } void* operator new[](size_t n,const std::nothrow_t&) noexcept { try{ return get(n,PC);}catch(...){return nullptr;} }
void operator delete(void* p) noexcept { put(p,PC); } void operator delete[](void* p) noexcept { put(p,PC); } void operator delete(void* p,size_t) noexcept { put(p,PC); } void operator delete[](void* p,size_t) noexcept { put(p,PC); }
extern "C" {
void __libc_free(void*);
// storage of the language run time (exceptions in flight) is not reused before a run ends either
void free(void* p){ if(p&&running&&!internal){ internal=true; later->push_back(p); internal=false; return; } __libc_free(p); }
// the vendored tetrahedraliser does not survive a refused allocation: it is spared, and fails as a whole instead
void __real__Z14tetrahedralizeP14tetgenbehaviorP8tetgenioS2_S2_S2_(void*,void*,void*,void*,void*) __attribute__((weak));
void __wrap__Z14tetrahedralizeP14tetgenbehaviorP8tetgenioS2_S2_S2_(void* a, void* b, void* c, void* d, void* e){ bool in=running&&!internal&&me&&me->team&&me->team->n>1; Fiber* f=me; if(in){ if(++rep.triangulations==-opt.fail) throw 1; f->spared=true; } try{ __real__Z14tetrahedralizeP14tetgenbehaviorP8tetgenioS2_S2_S2_(a,b,c,d,e); } catch(...){ f->spared=false; throw; } f->spared=false; }
void* sched_malloc(size_t n){ return get(n,PC); } void sched_free(void* p){ put(p,PC); }
// ---- OpenMP
typedef void (*body_t)(void*); typedef unsigned long long ull;
void GOMP_parallel(body_t fn, void* d, unsigned n, unsigned){ parallel(fn,d,n,nullptr); }
static Work mk(long long s, long long e, long long i, long long c, int kind){ Work w; w.set=true; w.start=w.next=s; w.end=e; w.incr=i; w.chunk=c; w.kind=kind; return w; }
struct PL { body_t fn; void* d; }; static void enter_pl(void* p){ PL* x=(PL*)p; ++me->ws; x->fn(x->d); }
#define PLOOP(name,kind) void GOMP_parallel_loop_##name(body_t fn, void* d, unsigned n, long s, long e, long i, long c, unsigned){ Work w=mk(s,e,i,c,kind); PL x{fn,d}; parallel(enter_pl,&x,n,&w); }
PLOOP(dynamic,0) PLOOP(nonmonotonic_dynamic,0) PLOOP(guided,1) PLOOP(nonmonotonic_guided,1) 
void GOMP_parallel_loop_runtime(body_t fn, void* d, unsigned n, long s, long e, long i, unsigned){ Work w=mk(s,e,i,1,0); PL x{fn,d}; parallel(enter_pl,&x,n,&w); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(body_t fn, void* d, unsigned n, long s, long e, long i, unsigned){ Work w=mk(s,e,i,1,0); PL x{fn,d}; parallel(enter_pl,&x,n,&w); }
}
namespace sched {
static bool loop_take(long long* a, long long* b){ return take(a,b); }
static bool loop_begin(long long s, long long e, long long i, long long c, int kind, long long* a, long long* b){ Fiber* f=me; if(!f->team){ static Team alone; alone.work.clear(); f->team=&alone; f->ws=0; if(running) alone.n=1; } Work& w=enter(f); if(!w.set){ w.set=true; w.start=w.next=s; w.end=e; w.incr=i; w.chunk=c; w.kind=kind; } return take(a,b); } }
extern "C" {
#define LOOP(name,kind) bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* a, long* b){ long long x,y; bool r=loop_begin(s,e,i,c,kind,&x,&y); if(r){*a=x;*b=y;} return r; } bool GOMP_loop_##name##_next(long* a, long* b){ long long x,y; bool r=loop_take(&x,&y); if(r){*a=x;*b=y;} return r; }\
 bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b){ long long x,y; bool r=loop_begin(s,e,i,c,kind,&x,&y); if(r){*a=x;*b=y;} return r; } bool GOMP_loop_ull_##name##_next(ull* a, ull* b){ long long x,y; bool r=loop_take(&x,&y); if(r){*a=x;*b=y;} return r; }
LOOP(dynamic,0) LOOP(nonmonotonic_dynamic,0) LOOP(guided,1) LOOP(nonmonotonic_guided,1) LOOP(static,0)
bool GOMP_loop_runtime_start(long s,long e,long i,long* a,long* b){ return GOMP_loop_dynamic_start(s,e,i,1,a,b); } bool GOMP_loop_runtime_next(long* a,long* b){ return GOMP_loop_dynamic_next(a,b); } bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s,long e,long i,long* a,long* b){ return GOMP_loop_dynamic_start(s,e,i,1,a,b); } bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* a,long* b){ return GOMP_loop_dynamic_next(a,b); }
void GOMP_barrier(){ if(me->team) barrier(me->team); } void GOMP_loop_end(){ if(me->team) barrier(me->team); } void GOMP_loop_end_nowait(){}
bool GOMP_single_start(){ if(!me->team) return true; point(); Work& w=enter(me); if(w.claimed) return false; w.claimed=true; return true; }
unsigned GOMP_sections_start(unsigned n){ Work& w=enter(me); if(!w.set){ w.set=true; w.next=1; w.end=n+1; w.incr=1; w.chunk=1; } long long a,b; return take(&a,&b)?unsigned(a):0; } unsigned GOMP_sections_next(){ long long a,b; return take(&a,&b)?unsigned(a):0; } void GOMP_sections_end(){ if(me->team) barrier(me->team); } void GOMP_sections_end_nowait(){}
static char crit, atom; void GOMP_critical_start(){ lock(&crit); } void GOMP_critical_end(){ unlock(&crit); } void GOMP_critical_name_start(void** p){ lock(p); } void GOMP_critical_name_end(void** p){ unlock(p); } void GOMP_atomic_start(){ lock(&atom); } void GOMP_atomic_end(){ unlock(&atom); }
int omp_get_thread_num(){ return me->team?me->tid:0; } int omp_get_num_threads(){ return me->team?me->team->n:1; } int omp_get_max_threads(){ return icv; } void omp_set_num_threads(int n){ if(n>0) icv=n; } int omp_in_parallel(){ return me->team&&me->team->n>1; } int omp_get_num_procs(){ return 4; } void omp_set_dynamic(int){} int omp_get_dynamic(){ return 0; } double omp_get_wtime(){ return 0; } int omp_get_level(){ return me->team?1:0; } int omp_get_thread_limit(){ return MAXT; } void omp_set_nested(int){} void omp_set_max_active_levels(int){}
void omp_init_lock(void*){} void omp_destroy_lock(void*){} void omp_set_lock(void* l){ lock(l); } void omp_unset_lock(void* l){ unlock(l); } int omp_test_lock(void* l){ return trylock(l); }
// ---- mutexes
int pthread_mutex_lock(pthread_mutex_t* m){ if(EXE) lock(m,(m->__data.__kind&3)==PTHREAD_MUTEX_RECURSIVE); return 0; } int pthread_mutex_unlock(pthread_mutex_t* m){ if(EXE) unlock(m); return 0; } int pthread_mutex_trylock(pthread_mutex_t* m){ if(EXE) return trylock(m,(m->__data.__kind&3)==PTHREAD_MUTEX_RECURSIVE)?0:16; return 0; }
// ---- static initialisation
int __cxa_guard_acquire(long long* g){ if(*(char*)g) { if(running) acquire(g); return 0; } if(running&&!internal){ lock(g); if(*(char*)g){ unlock(g); return 0; } } return 1; } void __cxa_guard_release(long long* g){ *(char*)g=1; if(running&&!internal){ release(g,true); unlock(g); } } void __cxa_guard_abort(long long* g){ if(running&&!internal) unlock(g); }
// ---- memory accesses
void __tsan_init(){} void __tsan_func_entry(void*){} void __tsan_func_exit(){}
#define RW(n) void __tsan_read##n(void* p){ access((uintptr_t)p,n,false,PC); } void __tsan_write##n(void* p){ access((uintptr_t)p,n,true,PC); } void __tsan_unaligned_read##n(void* p){ access((uintptr_t)p,n,false,PC); } void __tsan_unaligned_write##n(void* p){ access((uintptr_t)p,n,true,PC); } void __tsan_volatile_read##n(void* p){ access((uintptr_t)p,n,false,PC); } void __tsan_volatile_write##n(void* p){ access((uintptr_t)p,n,true,PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n){ access((uintptr_t)p,n,false,PC); } void __tsan_write_range(void* p, unsigned long n){ access((uintptr_t)p,n,true,PC); } void __tsan_vptr_update(void** p, void* v){ if(*p!=v) access((uintptr_t)p,8,true,PC); } void __tsan_vptr_read(void** p){ access((uintptr_t)p,8,false,PC); }
void* memcpy(void* d, const void* s, size_t n){ if(tracking&&n){ access((uintptr_t)s,n,false,PC); access((uintptr_t)d,n,true,PC); } void* r=d; asm volatile("rep movsb":"+D"(d),"+S"(s),"+c"(n)::"memory"); return r; }
void* memset(void* d, int v, size_t n){ if(tracking&&n) access((uintptr_t)d,n,true,PC); void* r=d; asm volatile("rep stosb":"+D"(d),"+c"(n):"a"(v):"memory"); return r; }
void* memmove(void* d, const void* s, size_t n){ if(tracking&&n){ access((uintptr_t)s,n,false,PC); access((uintptr_t)d,n,true,PC); } void* r=d; if((uintptr_t)d-(uintptr_t)s>=n) asm volatile("rep movsb":"+D"(d),"+S"(s),"+c"(n)::"memory"); else { char* a=(char*)d+n-1; const char* b=(const char*)s+n-1; asm volatile("std\n rep movsb\n cld":"+D"(a),"+S"(b),"+c"(n)::"memory"); } return r; }
// ---- atomics
#define AT(w,T) T __tsan_atomic##w##_load(const volatile T* a,int o){ atomic(a,w/8,o,true,false,PC); return *a; } void __tsan_atomic##w##_store(volatile T* a,T v,int o){ atomic(a,w/8,o,false,true,PC); *a=v; }\
 T __tsan_atomic##w##_exchange(volatile T* a,T v,int o){ atomic(a,w/8,o,true,true,PC); T x=*a; *a=v; return x; } T __tsan_atomic##w##_fetch_add(volatile T* a,T v,int o){ /* reference counts (libstdc++ adds one or minus one with acq_rel) only order the last release after all others */ bool count=w==32&&opt.counts&&o==__ATOMIC_ACQ_REL&&(v==T(1)||v==T(-1)); atomic(a,w/8,!count?o:v==T(1)?int(__ATOMIC_RELAXED):*a==T(1)?int(__ATOMIC_ACQ_REL):int(__ATOMIC_RELEASE),true,true,PC); T x=*a; *a=x+v; return x; } T __tsan_atomic##w##_fetch_sub(volatile T* a,T v,int o){ atomic(a,w/8,o,true,true,PC); T x=*a; *a=x-v; return x; }\
 T __tsan_atomic##w##_fetch_and(volatile T* a,T v,int o){ atomic(a,w/8,o,true,true,PC); T x=*a; *a=x&v; return x; } T __tsan_atomic##w##_fetch_or(volatile T* a,T v,int o){ atomic(a,w/8,o,true,true,PC); T x=*a; *a=x|v; return x; } T __tsan_atomic##w##_fetch_xor(volatile T* a,T v,int o){ atomic(a,w/8,o,true,true,PC); T x=*a; *a=x^v; return x; }\
 int __tsan_atomic##w##_compare_exchange_strong(volatile T* a,T* c,T v,int o,int){ atomic(a,w/8,o,true,true,PC); if(*a==*c){ *a=v; return 1; } *c=*a; return 0; } int __tsan_atomic##w##_compare_exchange_weak(volatile T* a,T* c,T v,int o,int f){ return __tsan_atomic##w##_compare_exchange_strong(a,c,v,o,f); } T __tsan_atomic##w##_compare_exchange_val(volatile T* a,T c,T v,int o,int){ atomic(a,w/8,o,true,true,PC); T x=*a; if(x==c) *a=v; return x; }
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
void __tsan_atomic_thread_fence(int){} void __tsan_atomic_signal_fence(int){}
}
