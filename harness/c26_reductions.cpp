// C26: reductions over a team add up exactly the items of the range, whatever the team and the packs
#include "viewmon.hpp"
#include "ekat_reduction_utils.hpp"
#include <thread>
using namespace ekat; using Member=KT::MemberType;
static void lag (uint64_t h) { h=vm::mix(h); if (h%37==0) std::this_thread::sleep_for(std::chrono::microseconds(h>>32&63)); else if (h%11==0) std::this_thread::yield(); }
template<typename T> using U1=Kokkos::View<T*,KT::Layout,KT::Device,Kokkos::MemoryUnmanaged>;
struct Seen { std::unique_ptr<std::atomic<int>[]> n; int lo, hi; std::atomic<int> out{0}; Seen (int l, int h) : n(new std::atomic<int>[std::max(h-l,0)+1]), lo(l), hi(h) { for (int k=0;k<=std::max(h-l,0);++k) n[k]=0; } void hit (int k) { if (k<lo || k>=hi) ++out; else ++n[k-lo]; } };
// run f(team) on a league of teams; every thread records the result it got
template<typename V,typename F> std::vector<std::vector<V>> on_teams (int league, int ts, F f) {
  std::vector<std::vector<V>> res((size_t)league,std::vector<V>((size_t)ts)); auto* p=&res;
  Kokkos::parallel_for(Kokkos::TeamPolicy<KT::ExeSpace>(league,ts),[=](const Member& team) { V v=f(team); (*p)[(size_t)team.league_rank()][(size_t)team.team_rank()]=v; });
  return res;
}
template<typename T> T val (Rng& r, bool exact) { if constexpr (std::is_integral_v<T>) return (T)r.range(-100,100); else return exact?(T)r.range(-1000,1000):(T)(r.real(-1,1)*std::ldexp(1.0,(int)r.range(-20,20))); }
template<typename T> bool same (T a, T b) { return std::memcmp(&a,&b,sizeof a)==0; }
struct Range { int size, begin, end, ts, league; bool exact; uint64_t h; };
static Range range (Rng& r, int maxn) { Range q; const int nthr=KT::ExeSpace().concurrency(); q.size=(int)r.range(1,r.chance(0.02)?20*maxn:r.chance(0.2)?maxn:40); q.begin=r.chance(0.3)?0:(int)r.range(0,q.size); q.end=r.chance(0.3)?q.size:r.chance(0.3)?std::min(q.size,q.begin+(int)r.range(0,5)):(int)r.range(q.begin,q.size); if (q.end<q.begin) q.end=q.begin; q.ts=(int)r.range(1,nthr); q.league=(int)r.range(1,4); q.exact=r.range(0,1); q.h=r.u64();
  if (q.begin==q.end) vm::count("empty_ranges"); if (q.ts>1) vm::count("multi_thread_reductions"); return q; }
static string show (const Range& q) { return "["+vm::str(q.begin)+","+vm::str(q.end)+") of "+vm::str(q.size)+", team of "+vm::str(q.ts); }
// Judge what the threads got. serial: bits of the sum in order; otherwise exact for whole numbers, or within rounding
template<typename T> void judge (const char* key, const string& what, const Range& q, const std::vector<std::vector<T>>& got, const std::vector<T>& x, bool serial) {
  T want=0; long double l=0, a=0; for (int k=q.begin;k<q.end;++k) { want=(T)(want+x[(size_t)k]); l+=x[(size_t)k]; a+=std::fabs((long double)x[(size_t)k]); }
  const long double tol=std::is_integral_v<T>||q.exact?0:(long double)std::numeric_limits<std::conditional_t<std::is_integral_v<T>,double,T>>::epsilon()*(q.end-q.begin+2)*a;
  for (auto& t : got) for (auto& v : t) {
    if (serial) VM_CHECK(v==want,key,what << " over " << show(q) << ": " << v << " is not the sum in order, " << want); else VM_CHECK(std::fabs((long double)v-l)<=tol,key,what << " over " << show(q) << ": " << v << " is not the sum, " << (double)l);
    VM_CHECK(same(v,t[0]),key,what << " over " << show(q) << ": threads of a team got different sums " << v << " and " << t[0]);
  }
  vm::count(serial?"serial_sums":"parallel_sums");
}
template<typename T,bool Serial> void scalars (const char* tn) {
  using RU=ReductionUtils<KT::ExeSpace,Serial>; const string mode=Serial?" serialised":" parallel";
  vm::sub(string("scalars ")+tn+mode,vm::ncases(250,4000),[&](Rng& r, long long) {
    const Range q=range(r,300); std::vector<T> x((size_t)q.size); for (int k=0;k<q.size;++k) x[(size_t)k]=(k>=q.begin&&k<q.end)||std::is_integral_v<T>?val<T>(r,q.exact):(T)NAN; std::unique_ptr<T[]> m(new T[(size_t)q.size]); std::copy(x.begin(),x.end(),m.get()); U1<const T> v(m.get(),q.size); const uint64_t h=q.h; const int b=q.begin, e=q.end;
    judge<T>("view_reduction",string(tn)+mode+" view_reduction of a view",q,on_teams<T>(q.league,q.ts,[=](const Member& t) { lag(h+t.team_rank()); return RU::view_reduction(t,b,e,v); }),x,Serial);
    std::vector<std::unique_ptr<Seen>> seen; for (int k=0;k<q.league;++k) seen.emplace_back(new Seen(b,e)); auto* sp=&seen;
    judge<T>("view_reduction",string(tn)+mode+" view_reduction of a function",q,on_teams<T>(q.league,q.ts,[=](const Member& t) { auto& s=*(*sp)[(size_t)t.league_rank()]; return RU::view_reduction(t,b,e,[&](const int k) { s.hit(k); lag(h+k); return (T)v(k); }); }),x,Serial);
    auto visits=[&](const char* what) { for (auto& s : seen) { VM_CHECK(s->out==0,"reduction.range",tn << mode << " " << what << " over " << show(q) << " visits items outside the range"); for (int k=b;k<e;++k) VM_CHECK((Serial?s->n[k-b]>=1 && s->n[k-b]<=q.ts && s->n[k-b]==s->n[0]:s->n[k-b]==1),"reduction.visits",tn << mode << " " << what << " over " << show(q) << " visits item " << k << " " << s->n[k-b] << " times"); } };
    visits("view_reduction"); for (auto& s : seen) s.reset(new Seen(b,e));
    judge<T>("parallel_reduce",string(tn)+mode+" parallel_reduce",q,on_teams<T>(q.league,q.ts,[=](const Member& t) { auto& s=*(*sp)[(size_t)t.league_rank()]; return RU::template parallel_reduce<T>(t,b,e,[&](const int k, T& sum) { s.hit(k); lag(h+k); sum+=v(k); }); }),x,Serial); visits("parallel_reduce");
    if (Serial) {   // in order, by every thread
      std::vector<std::vector<std::vector<int>>> order((size_t)q.league,std::vector<std::vector<int>>((size_t)q.ts)); auto* op=&order; on_teams<T>(q.league,q.ts,[=](const Member& t) { auto& o=(*op)[(size_t)t.league_rank()][(size_t)t.team_rank()]; return RU::template parallel_reduce<T>(t,b,e,[&](const int k, T& sum) { o.push_back(k); sum+=v(k); }); });
      for (auto& t : order) for (auto& o : t) if (!o.empty()) { bool ok=(int)o.size()==e-b; for (size_t k=0;ok && k<o.size();++k) ok=o[k]==b+(int)k; VM_CHECK(ok,"reduction.order",tn << " serialised parallel_reduce over " << show(q) << " does not take the items in order: " << vm::list(o)); }
    }
    vm::nontrivial(vm::mix(q.h));
  });
}
template<typename T,int N,bool Serial> void packs (const char* tn) {
  using RU=ReductionUtils<KT::ExeSpace,Serial>; using P=Pack<T,N>; const string mode=Serial?" serialised":" parallel";
  vm::sub(string("packs ")+tn+vm::str(N)+mode,vm::ncases(200,4000),[&](Rng& r, long long icase) {
    Range q=range(r,300); if (icase<N*N) { q.size=3*N; q.begin=(int)(icase/N); q.end=q.begin+(int)(icase%N); }   // every short range over pack boundaries
    const int np=(q.size+N-1)/N; std::vector<T> x((size_t)np*N); for (int k=0;k<np*N;++k) x[(size_t)k]=(k>=q.begin&&k<q.end)||std::is_integral_v<T>?val<T>(r,q.exact):(T)NAN;
    std::unique_ptr<P[]> m(new P[(size_t)np]); for (int k=0;k<np*N;++k) m[(size_t)(k/N)][k%N]=x[(size_t)k]; U1<const P> v(m.get(),np); const uint64_t h=q.h; const int b=q.begin, e=q.end, p0=b/N, p1=(e+N-1)/N; const string name=string(tn)+vm::str(N)+mode;
    judge<T>("view_reduction.packs",name+" view_reduction of a view of packs",q,on_teams<T>(q.league,q.ts,[=](const Member& t) { lag(h+t.team_rank()); return RU::view_reduction(t,b,e,v); }),x,Serial);
    std::vector<std::unique_ptr<Seen>> seen; for (int k=0;k<q.league;++k) seen.emplace_back(new Seen(p0,b<e?p1:p0)); auto* sp=&seen;
    judge<T>("view_reduction.packs",name+" view_reduction of a function giving packs",q,on_teams<T>(q.league,q.ts,[=](const Member& t) { auto& s=*(*sp)[(size_t)t.league_rank()]; return RU::view_reduction(t,b,e,[&](const int k) { s.hit(k); lag(h+k); return (P)v(k); }); }),x,Serial);
    if (b<e) for (auto& s : seen) VM_CHECK(s->out==0,"reduction.range",name << " view_reduction over " << show(q) << " reads packs that hold no item of the range");
    if (b/N==e/N && b<e) vm::count("ranges_within_a_pack"); if (b%N && e%N) vm::count("partial_packs_at_both_ends"); if (!(b%N) && !(e%N) && b<e) vm::count("whole_packs"); vm::nontrivial(vm::mix(q.h));
    if (Serial) {   // the packing has no effect
      U1<const T> flat((const T*)m.get(),np*N); auto a=on_teams<T>(1,q.ts,[=](const Member& t) { return RU::view_reduction(t,b,e,flat); }), c=on_teams<T>(1,1,[=](const Member& t) { return RU::view_reduction(t,b,e,v); }); VM_CHECK(same(a[0][0],c[0][0]),"view_reduction.packing",name << " view_reduction over " << show(q) << " depends on the packing: " << a[0][0] << " and " << c[0][0]);
    }
    // packs can be summed lane by lane too
    std::vector<P> y((size_t)np); for (auto& w : y) for (int l=0;l<N;++l) w[l]=val<T>(r,true); U1<const P> yv(y.data(),np); const int pb=std::min(p0,np), pe=(int)r.range(pb,np); struct PS { T t[N]; }; auto got=on_teams<PS>(q.league,q.ts,[=](const Member& t) { P s=RU::template parallel_reduce<P>(t,pb,pe,[&](const int k, P& sum) { lag(h+k); sum+=yv(k); }); PS o; for (int l=0;l<N;++l) o.t[l]=s[l]; return o; });
    for (int l=0;l<N;++l) { T w=0; for (int k=pb;k<pe;++k) w=(T)(w+y[(size_t)k][l]); for (auto& t : got) for (auto& s : t) VM_CHECK(s.t[l]==w,"parallel_reduce.packs",name << " parallel_reduce of packs [" << pb << "," << pe << "): lane " << l << " is " << s.t[l] << ", not " << w); }
  });
}
int main (int argc, char** argv) {
  vm::init(argc,argv); KokkosMain km;
  scalars<double,true>("double"); scalars<double,false>("double"); scalars<float,true>("float"); scalars<float,false>("float"); scalars<int,false>("int"); scalars<long,true>("long");
  packs<double,8,true>("double"); packs<double,8,false>("double"); packs<double,1,false>("double"); packs<float,4,false>("float"); packs<float,2,true>("float"); packs<int,4,false>("int"); packs<double,2,false>("double"); packs<double,16,false>("double");
  // the default follows the build: serialised where answers must be the same bits everywhere
  vm::sub("default",vm::ncases(200,2000),[&](Rng& r, long long) {
    const Range q=range(r,200); std::vector<double> x((size_t)q.size); for (auto& v : x) v=val<double>(r,q.exact); U1<const double> v(x.data(),q.size); const int b=q.begin, e=q.end;
    judge<double>("default",string("default view_reduction"),q,on_teams<double>(q.league,q.ts,[=](const Member& t) { return ReductionUtils<KT::ExeSpace>::view_reduction(t,b,e,v); }),x,ekatBFB);
#ifdef EKAT_DEFAULT_BFB
    static_assert(ekatBFB);
#endif
    vm::count(ekatBFB?"default_serialised":"default_parallel");
  });
  return vm::finish();
}
