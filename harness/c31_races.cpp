// C31: inside kernels EKAT's utilities are free of data races. The race detector is the oracle, so nothing of the harness
// synchronises the threads within a kernel: no locks, counters or barriers of its own, except where the interface asks for one.
#include "viewmon.hpp"
#include "ekat_scalar_traits.hpp"
// A number that debug builds may fill from all threads of a team with the same value: those stores alone are atomic
struct Q { double v; Q () = default; Q (const Q&) = default; explicit Q (double x) : v(x) {}
  Q& operator= (const Q& o) { __atomic_store_n((uint64_t*)&v,o.bits(),__ATOMIC_RELAXED); return *this; } uint64_t bits () const { uint64_t b; memcpy(&b,&v,8); return b; } };
namespace ekat {
template<> struct ScalarTraits<Q> { using value_type=Q; using scalar_type=Q; static constexpr bool is_simd=false, is_floating_point=false, specialized=true; };
template<typename T> std::enable_if_t<std::is_same_v<T,Q>,Q> invalid () { return Q(-1e300); }
}
#include "tridiag.hpp"
#include "ekat_workspace.hpp"
#include "ekat_reduction_utils.hpp"
#include "ekat_lin_interp.hpp"
#include "ekat_subview_utils.hpp"
using ES=KT::ExeSpace; using TF=TeamPolicyFactory<ES>;
static int nthr () {
#ifdef EKAT_ENABLE_GPU
  return std::min(team_limit(),4);
#else
  return ES().concurrency();
#endif
}
// busy for a while, out of step with the other threads
static void lag (uint64_t h) { h=vm::mix(h); if (h%3==0) for (volatile int k=0;k<(int)(h>>40)%400;k=k+1); else if (h%97==1) usleep(20); }
// ---------------------------------------------------------------- workspaces
using WSM=WorkspaceManager<Q,KT::Device>; using WV=Unmanaged<KT::view_1d<Q>>;
struct Op { int kind, a; };   // 0 take; 1 release the a-th held; 2 two refs; 3 macro block of a; 4 reset; 5 contiguous 2; 6 many and reset; 7 take_many of 2; 8 release the last group together
struct Held { WV v; int slots, group; };
static std::vector<Op> script (Rng& r, int max_used, int steps) {
  std::vector<Op> o; struct H { int slots, group; }; std::vector<H> held; bool fresh=true; int ng=0; auto used=[&] { int u=0; for (auto& h : held) u+=h.slots; return u; };
  for (int i=0;i<steps;++i) {
    const int k=(int)r.range(0,8), room=max_used-used(); const bool contig=fresh;
    if (k==0 && room>=1) { o.push_back({0,0}); held.push_back({1,0}); }
    else if (k==1 && !held.empty()) { const int a=r.chance(0.6)?(int)held.size()-1:(int)r.range(0,(int)held.size()-1); if (held[(size_t)a].group) continue; if (a+1!=(int)held.size()) fresh=false; o.push_back({1,a}); held.erase(held.begin()+a); }
    else if (k==2 && room>=2) { o.push_back({2,0}); held.push_back({1,0}); held.push_back({1,0}); }
    else if (k==3 && room>=2 && contig) { const int n=(int)r.range(2,std::min(room,4)); o.push_back({3,n}); held.push_back({n,0}); }
    else if (k==4 && r.chance(0.3)) { o.push_back({4,0}); held.clear(); fresh=true; }
    else if (k==5 && room>=2 && contig) { o.push_back({5,0}); ++ng; held.push_back({1,ng}); held.push_back({1,ng}); }
    else if (k==6 && r.chance(0.4)) { o.push_back({6,0}); held.clear(); ++ng; held.push_back({1,ng}); held.push_back({1,ng}); fresh=true; }
    else if (k==7 && room>=2) { o.push_back({7,0}); held.push_back({1,0}); held.push_back({1,0}); }
    else if (k==8 && held.size()>=2 && held.back().group && held.back().group==held[held.size()-2].group) { o.push_back({8,0}); held.pop_back(); held.pop_back(); }
  }
  o.push_back({4,0}); return o;
}
struct Err { int step, what; char pad[56]; };
static void workspaces () {
  vm::sub("workspaces",vm::ncases(200,6000),[&](Rng& r, long long) {
    const int nt=nthr(), ts=(int)r.range(1,nt), league=(int)r.range(1,r.chance(0.2)?20:6), size=(int)r.range(1,r.chance(0.2)?200:24), max_used=(int)r.range(4,9); auto policy=TF::get_team_policy_force_team_size(league,ts);
    std::vector<Q> own; WSM wsm; if (r.range(0,1)) wsm.setup(size,max_used,policy); else { own.resize(WSM::get_total_bytes_needed(size,max_used,policy)/sizeof(Q)); wsm.setup(own.data(),size,max_used,policy); }
    std::vector<std::vector<Op>> sc; size_t ops=0; for (int t=0;t<league;++t) { sc.push_back(script(r,max_used,(int)r.range(4,30))); ops+=sc.back().size(); } std::vector<Err> errs((size_t)league*ts,Err{}); const auto* S=&sc; auto* E=errs.data(); const uint64_t seed=r.u64(); const WSM* W=&wsm;
    for (int round=0;round<2;++round) Kokkos::parallel_for("w",policy,[=](const Member& team) {
      const int me=team.team_rank(), n=team.team_size(); Err& e=E[team.league_rank()*n+me]; auto ws=W->get_workspace(team,"race"); std::vector<Held> held; int step=0, group=0;
      // each thread its own entries, but not the same ones in every space
      auto put=[&](const WV& v, int slots) { const long m=slots>1?(long)slots*size:(long)v.extent(0); for (long k=0;k<m;++k) if ((k+step)%n==me) v.data()[k].v=step*1000.0+k; };
      auto get=[&](const Held& h, int st) { const long m=h.slots>1?(long)h.slots*size:(long)h.v.extent(0); for (long k=0;k<m;++k) if ((k+st)%n==me && h.v.data()[k].v!=st*1000.0+k) { e.step=step; e.what=1; } };
      std::vector<int> born; auto add=[&](const WV& v, int slots, int g) { put(v,slots); held.push_back({v,slots,g}); born.push_back(step); if ((long)v.extent(0)!=size) { e.step=step; e.what=2; } };
      auto del=[&](size_t i) { get(held[i],born[i]); held.erase(held.begin()+(long)i); born.erase(born.begin()+(long)i); };
      for (const Op& o : (*S)[(size_t)team.league_rank()]) {
        ++step; lag(seed+(uint64_t)step*64+(uint64_t)me); const char* nm[]={"a","b","c","d","e"}; const char* c=nm[step%5];
        switch (o.kind) {
          case 0: add(ws.take(c),1,0); break;
          case 1: { const Held h=held[(size_t)o.a]; del((size_t)o.a); if (h.slots>1) ws.release_macro_block(h.v,h.slots); else ws.release(h.v); break; }
          case 2: { WV a,b; ws.take_many_refs({"p","q"},a,b); add(a,1,0); add(b,1,0); break; }
          case 3: add(ws.take_macro_block(c,o.a),o.a,0); break;
          case 4: while (!held.empty()) del(held.size()-1); ws.reset(); break;
          case 5: { WV a,b; ws.take_many_contiguous_unsafe<2>({"p","q"},{&a,&b}); ++group; add(a,1,group); add(b,1,group); break; }
          case 6: { while (!held.empty()) del(held.size()-1); team.team_barrier(); WV a,b; ws.take_many_and_reset<2>({"p","q"},{&a,&b}); ++group; add(a,1,group); add(b,1,group); break; }
          case 7: { WV a,b; ws.take_many<2>({"r","s"},{&a,&b}); add(a,1,0); add(b,1,0); break; }
          default: { Held x=held[held.size()-2], y=held.back(); del(held.size()-1); del(held.size()-1); ws.release_many_contiguous<2>({&x.v,&y.v}); }
        }
      }
    });
    bool ok=true; int st=0, wh=0; for (auto& e : errs) if (e.what) { ok=false; st=e.step; wh=e.what; } VM_CHECK(ok,"races.workspace",league << " teams of " << ts << ": at step " << st << (wh==1?" data of a space changed while it was in use":" a space had the wrong size"));
    vm::count("workspace_kernels",2); vm::count("workspace_operations",(long)ops*2); if (ts>1) vm::count("multi_thread_kernels"); vm::nontrivial(vm::mix(seed));
  });
}
// ---------------------------------------------------------------- workspace indices
static void indices () {
  vm::sub("indices",vm::ncases(200,6000),[&](Rng& r, long long) {
    const int ts=(int)r.range(1,nthr()), league=(int)r.range(1,40); 
#ifdef EKAT_ENABLE_GPU
    const bool forced=true;
#else
    const bool forced=r.range(0,3);
#endif
    auto policy=forced?TF::get_team_policy_force_team_size(league,ts):TF::get_default_team_policy(league,(int)r.range(1,64)); TeamUtils<double,ES> tu(policy); const int n=(int)r.range(1,40), slots=tu.get_num_ws_slots();
    std::vector<double> mem((size_t)slots*n,0); std::vector<int> bad((size_t)league,0); auto* M=mem.data(); auto* B=bad.data(); const uint64_t h=r.u64();
    Kokkos::parallel_for("i",policy,[=](const Member& t) {
      const int w=tu.get_workspace_idx(t), me=t.team_rank(), k=t.team_size(), l=t.league_rank(); double* d=M+(size_t)w*n; lag(h+(uint64_t)l*8+(uint64_t)me);
      for (int i=me;i<n;i+=k) d[i]=l*100.0+i; t.team_barrier(); bool ok=true; for (int i=0;i<n;++i) ok=ok && d[i]==l*100.0+i; if (!ok && me==0) B[l]=1; t.team_barrier(); tu.release_workspace_idx(t,w); });
    bool ok=true; for (int b : bad) ok=ok && !b; VM_CHECK(ok,"races.index",league << " teams of " << policy.team_size() << ": data at a team's workspace index changed while the team used it"); vm::count("index_kernels"); vm::nontrivial(h);
  });
}
// ---------------------------------------------------------------- solvers
template<typename A,typename X> static void solvers (const char* tn) {
  vm::sub(string("solvers ")+tn,vm::ncases(120,4000),[&](Rng& r, long long) {
    int m; do m=(int)r.range(0,NMETHODS-1); while (many_A(m) && !mm_ok<A,X>()); const int n=(int)r.range(1,r.chance(0.2)?200:40); int nx=rank1_X(m)?1:(int)r.range(1,9); if (m==BFB_M1 && nx==1) nx=2; const int na=many_A(m)?nx:1, league=(int)r.range(1,3), ts=(int)r.range(1,nthr()); const bool left=r.chance(0.3);
    std::vector<std::unique_ptr<Prob<A,X>>> ps; for (int k=0;k<league;++k) ps.emplace_back(new Prob<A,X>(r,n,na,nx,false)); run_problems(m,ps,ts,left); std::vector<double> a, b; auto all=[&](std::vector<double>& o) { for (auto& p : ps) for (int i=0;i<n;++i) for (int c=0;c<nx;++c) for (int l=0;l<Lanes<X>::n;++l) o.push_back(p->got(i,c,l)); };
    all(a); for (auto& p : ps) p->rewind(); run_problems(m,ps,1,left); all(b); bool ok=true; for (size_t k=0;k<a.size();++k) ok=ok && std::fabs(a[k]-b[k])<=1e-4*(1+std::fabs(b[k])); VM_CHECK(ok,"races.solver",tn << ", " << method_name[m] << ", " << n << " rows, " << nx << " right sides: teams of " << ts << " give another solution than teams of 1"); vm::count("solves"); if (ts>1) vm::count("multi_thread_solves"); vm::count(string("runs_")+method_name[m]); vm::nontrivial(r.u64());
  });
}
// ---------------------------------------------------------------- reductions, interpolation
template<typename T> static void reductions (const char* tn) {
  vm::sub(string("reductions ")+tn,vm::ncases(120,4000),[&](Rng& r, long long) {
    constexpr int N=Lanes<T>::n; const int n=(int)r.range(1,60), league=(int)r.range(1,5), ts=(int)r.range(1,nthr()), b=(int)r.range(0,n*N), e=(int)r.range(b,n*N); KT::view_2d<T> in("in",league,n); for (int t=0;t<league;++t) for (int i=0;i<n;++i) for (int l=0;l<N;++l) Lanes<T>::set(in(t,i),l,t+1);
    std::vector<double> out((size_t)league*ts*3,0); auto* O=out.data(); const uint64_t h=r.u64();
    Kokkos::parallel_for(Kokkos::TeamPolicy<ES>(league,ts),[=](const Member& t) { const int me=t.team_rank(), l=t.league_rank(); auto v=ekat::subview(in,l); double* o=O+((size_t)l*t.team_size()+me)*3; lag(h+(uint64_t)me); o[0]=ReductionUtils<ES,false>::view_reduction(t,b,e,v); lag(h+7+(uint64_t)me); o[1]=ReductionUtils<ES,true>::view_reduction(t,b,e,v); o[2]=ReductionUtils<ES,false>::view_reduction(t,b,e,[&](int k) { return v(k); }); });
    bool ok=true; for (size_t k=0;k<out.size();++k) ok=ok && out[k]==(double)(e-b)*(double)(k/3/(size_t)ts+1); VM_CHECK(ok,"races.reduction",tn << ": sum over " << b << " to " << e << " by teams of " << ts << " is wrong on some thread"); vm::count("reductions"); vm::nontrivial(h);
  });
}
template<int N> static void interp () {
  vm::sub("interpolation "+vm::str(N),vm::ncases(120,4000),[&](Rng& r, long long) {
    const int nc=(int)r.range(1,6), a=(int)r.range(2,50), b=(int)r.range(1,50), ts=(int)r.range(1,nthr()), pa=(a+N-1)/N, pb=(b+N-1)/N; using P=Pack<double,N>; KT::view_2d<P> x1("x1",nc,pa), y1("y1",nc,pa), x2("x2",nc,pb), y2("y2",nc,pb), z2("z2",nc,pb);
    for (int c=0;c<nc;++c) { for (int k=0;k<pa*N;++k) { x1(c,k/N)[k%N]=k; y1(c,k/N)[k%N]=2.0*k+c; } for (int k=0;k<pb*N;++k) x2(c,k/N)[k%N]=r.real(-2,a+1); }
    LinInterp<double,N> li(nc,a,b); const auto* L=&li; const uint64_t h=r.u64(); const int mode=(int)r.range(0,1);
    Kokkos::parallel_for(Kokkos::TeamPolicy<ES>(mode?1:nc,ts),[=](const Member& t) {
      auto s=[](auto v, int c) { return ekat::subview(v,c); }; lag(h+(uint64_t)t.team_rank());
      if (mode==0) { const int c=t.league_rank(); L->setup(t,s(x1,c),s(x2,c)); lag(h+9+(uint64_t)t.team_rank()); L->lin_interp(t,s(x1,c),s(x2,c),s(y1,c),s(y2,c)); L->lin_interp(t,s(x1,c),s(x2,c),s(y1,c),s(z2,c)); }
      else Kokkos::parallel_for(Kokkos::TeamThreadRange(t,nc),[&](int c) { const auto rg=Kokkos::ThreadVectorRange(t,L->km2_pack()); L->setup(t,rg,s(x1,c),s(x2,c),c); L->lin_interp(t,rg,s(x1,c),s(x2,c),s(y1,c),s(y2,c),c); L->lin_interp(t,rg,s(x1,c),s(x2,c),s(y1,c),s(z2,c),c); }); });
    bool ok=true; for (int c=0;c<nc;++c) for (int k=0;k<b;++k) { const double w=2*x2(c,k/N)[k%N]+c; ok=ok && std::fabs(y2(c,k/N)[k%N]-w)<1e-9 && std::fabs(z2(c,k/N)[k%N]-w)<1e-9; } VM_CHECK(ok,"races.interp","a value interpolated by teams of " << ts << " is wrong"); vm::count("interpolations"); vm::nontrivial(h);
  });
}
int main (int argc, char** argv) {
  vm::init(argc,argv); KokkosMain km;
  workspaces(); indices();
#ifndef EKAT_ENABLE_GPU
  solvers<double,double>("double"); solvers<double,Pack<double,4>>("double/pack4"); solvers<Pack<float,2>,Pack<float,2>>("pack2");
  reductions<double>("double"); reductions<Pack<double,4>>("pack4"); interp<1>(); interp<4>();
#endif
  return vm::finish();
}
