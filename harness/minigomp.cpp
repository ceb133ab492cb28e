// minigomp.cpp: an OpenMP runtime of plain threads, so that a race detector sees where parallel regions begin and end.
// (The system's libgomp is not instrumented.) It replaces libgomp for the harness and for libkokkoscore.
#include <pthread.h>
#include <atomic>
#include <cstdlib>
#include <vector>
namespace {
struct Loop { std::atomic<long> next{0}; long end=0, incr=1, chunk=1; };
struct Region { unsigned n; pthread_barrier_t bar; pthread_mutex_t m; Loop loop; };
struct Self { unsigned id=0, level=0; Region* reg=nullptr; };
thread_local Self self;
thread_local int want=0;
int defn () { static int n=[]{ const char* e=getenv("OMP_NUM_THREADS"); int k=e?atoi(e):4; return k>0?k:4; }(); return n; }
struct Start { void (*fn)(void*); void* data; Self s; };
// threads are kept, like those of libgomp (Kokkos gives each a number of its own)
struct Worker { pthread_mutex_t m=PTHREAD_MUTEX_INITIALIZER; pthread_cond_t c=PTHREAD_COND_INITIALIZER; Start* job=nullptr; };
void* entry (void* p) { Worker* w=(Worker*)p; for (;;) {
  pthread_mutex_lock(&w->m); while (!w->job) pthread_cond_wait(&w->c,&w->m); Start* s=w->job; pthread_mutex_unlock(&w->m);
  self=s->s; s->fn(s->data);
  pthread_mutex_lock(&w->m); w->job=nullptr; pthread_cond_broadcast(&w->c); pthread_mutex_unlock(&w->m); } }
std::vector<Worker*>& workers () { static auto* v=new std::vector<Worker*>; return *v; }
Worker* worker (unsigned i) { auto& v=workers(); while (v.size()<=i) { Worker* w=new Worker; pthread_t t; if (pthread_create(&t,nullptr,entry,w)) abort(); pthread_detach(t); v.push_back(w); } return v[i]; }
void start (unsigned i, Start* s) { Worker* w=worker(i); pthread_mutex_lock(&w->m); w->job=s; pthread_cond_broadcast(&w->c); pthread_mutex_unlock(&w->m); }
void join (unsigned i) { Worker* w=workers()[i]; pthread_mutex_lock(&w->m); while (w->job) pthread_cond_wait(&w->c,&w->m); pthread_mutex_unlock(&w->m); }
pthread_mutex_t crit=PTHREAD_MUTEX_INITIALIZER, atom=PTHREAD_MUTEX_INITIALIZER;
void region (void (*fn)(void*), void* data, unsigned nt, Region& r) {
  if (nt==0) nt=want>0?want:defn(); if (self.level>0) nt=1;
  r.n=nt; pthread_barrier_init(&r.bar,nullptr,nt); const Self old=self; std::vector<Start> st(nt);
  for (unsigned i=0;i<nt;++i) { st[i]={fn,data,{}}; st[i].s.id=i; st[i].s.level=old.level+1; st[i].s.reg=&r; }
  for (unsigned i=1;i<nt;++i) start(i-1,&st[i]);
  self=st[0].s; fn(data); for (unsigned i=1;i<nt;++i) join(i-1);
  self=old; pthread_barrier_destroy(&r.bar);
}
bool next (long* a, long* b) {
  Loop& l=self.reg->loop; const long step=l.chunk*l.incr, s=l.next.fetch_add(step); if (l.incr>0 ? s>=l.end : s<=l.end) return false;
  long e=s+step; if (l.incr>0 ? e>l.end : e<l.end) e=l.end; *a=s; *b=e; return true;
}
}
extern "C" {
void GOMP_parallel (void (*fn)(void*), void* data, unsigned nt, unsigned) { Region r; region(fn,data,nt,r); }
void GOMP_parallel_loop_dynamic (void (*fn)(void*), void* data, unsigned nt, long a, long b, long i, long c, unsigned) { Region r; r.loop.next=a; r.loop.end=b; r.loop.incr=i; r.loop.chunk=c; region(fn,data,nt,r); }
void GOMP_parallel_loop_nonmonotonic_dynamic (void (*fn)(void*), void* data, unsigned nt, long a, long b, long i, long c, unsigned f) { GOMP_parallel_loop_dynamic(fn,data,nt,a,b,i,c,f); }
bool GOMP_loop_dynamic_next (long* a, long* b) { return next(a,b); }
bool GOMP_loop_nonmonotonic_dynamic_next (long* a, long* b) { return next(a,b); }
void GOMP_loop_end_nowait (void) {}
void GOMP_barrier (void) { if (self.reg) pthread_barrier_wait(&self.reg->bar); }
void GOMP_critical_start (void) { pthread_mutex_lock(&crit); }
void GOMP_critical_end (void) { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start (void**) { pthread_mutex_lock(&crit); }
void GOMP_critical_name_end (void**) { pthread_mutex_unlock(&crit); }
void GOMP_atomic_start (void) { pthread_mutex_lock(&atom); }
void GOMP_atomic_end (void) { pthread_mutex_unlock(&atom); }
int omp_get_level (void) { return (int)self.level; }
int omp_get_num_threads (void) { return self.reg?(int)self.reg->n:1; }
int omp_get_thread_num (void) { return (int)self.id; }
int omp_get_max_threads (void) { return want>0?want:defn(); }
int omp_in_parallel (void) { return self.reg && self.reg->n>1; }
void omp_set_num_threads (int n) { want=n; }
int omp_get_num_procs (void) { return 8; }
int omp_get_nested (void) { return 0; }
int omp_get_max_active_levels (void) { return 1; }
int omp_get_proc_bind (void) { return 0; }
}
