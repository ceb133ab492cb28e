// C23: team policies have the requested shape, and teams that run at the same time never share a workspace index
#include "viewmon.hpp"
#include "ekat_team_policy_utils.hpp"
#include <thread>
#include <memory>
using namespace ekat; using ES=KT::ExeSpace; using TF=TeamPolicyFactory<ES>; using Member=KT::MemberType;
struct Board { std::unique_ptr<std::atomic<long>[]> owner; std::unique_ptr<std::atomic<int>[]> idx, runs; std::atomic<int> bad_range{0}, shared{0}, split{0}, changed{0}, now{0}, peak{0}, released{0}; std::mutex m; std::set<std::pair<int,int>> seen;
  Board (int slots, int league) : owner(new std::atomic<long>[slots+1]), idx(new std::atomic<int>[league+1]), runs(new std::atomic<int>[league+1]) { for (int i=0;i<=slots;++i) owner[i]=0; for (int i=0;i<=league;++i) { idx[i]=-1; runs[i]=0; } } };
template<typename T> void teams (Rng& r) {
  const int conc=ES().concurrency(), league=(int)r.range(1,r.chance(0.3)?80:12); int ts=(int)r.range(1,conc); const int kind=(int)r.range(0,3);
  auto policy=kind==0?TF::get_default_team_policy(league,(int)r.range(1,500)):kind==1?TF::get_thread_range_parallel_scan_team_policy(league,(int)r.range(1,500)):TF::get_team_policy_force_team_size(league,ts);
  VM_CHECK(policy.league_size()==league && (kind<2 || policy.team_size()==ts),"policy-shape",kind<<": "<<policy.league_size()<<" teams of "<<policy.team_size());
#ifdef EKAT_MIMIC_GPU
  if (kind<2) { VM_CHECK(policy.team_size()==std::min(conc,7),"mimic-gpu",policy.team_size()<<" of "<<conc); }
#else
  if (kind<2) { VM_CHECK(policy.team_size()==1,"default-team-size",policy.team_size()); }
#endif
  ts=policy.team_size(); TeamUtils<T,ES> tu(policy,r.range(0,1)?1.0:1.5), copy; if (r.range(0,1)) { copy=tu; tu=copy; } const int fit=conc/ts, want=std::min(fit,league), slots=tu.get_num_ws_slots(); const string in=vm::str(league)+" teams of "+vm::str(ts)+" on "+vm::str(conc)+" threads";
  VM_CHECK(tu.get_num_concurrent_teams()==want && slots==want,"concurrent-teams",in<<": "<<tu.get_num_concurrent_teams()<<" teams at once, "<<slots<<" workspaces"); VM_CHECK(tu.get_max_concurrent_threads()==conc,"concurrent-threads",in<<": "<<tu.get_max_concurrent_threads());
  Board b(std::max(slots,1),league); auto* B=&b; const uint64_t seed=r.u64(); const bool slow=r.range(0,1); const int rounds=(int)r.range(1,3); const auto t=tu;
  for (int k=0;k<rounds;++k) Kokkos::parallel_for("t",policy,[=](const Member& team) {
    const int me=team.league_rank(), wi=t.get_workspace_idx(team); const bool ok=wi>=0&&wi<slots; if (!ok) ++B->bad_range; const uint64_t h=vm::mix(seed+(uint64_t)me*131+(uint64_t)k);
    if (team.team_rank()==0) { const int c=++B->now; int p=B->peak; while (p<c && !B->peak.compare_exchange_weak(p,c)); B->idx[me]=wi; ++B->runs[me]; if (ok) { long free=0; if (!B->owner[wi].compare_exchange_strong(free,me+1)) ++B->shared; } }
    team.team_barrier(); if (B->idx[me]!=wi) ++B->split; if (slow && h%4==0) std::this_thread::sleep_for(std::chrono::microseconds(h/8%60)); if (t.get_workspace_idx(team)!=wi) ++B->changed; if (ok && B->owner[wi]!=me+1) ++B->shared;
    team.team_barrier(); if (team.team_rank()==0) { --B->now; if (ok) B->owner[wi]=0; { std::lock_guard<std::mutex> g(B->m); B->seen.insert({me,wi}); } } team.team_barrier(); t.release_workspace_idx(team,wi);
  });
  bool once=true; for (int i=0;i<league;++i) once=once&&b.runs[i]==rounds; VM_CHECK(once,"each-team-once",in); VM_CHECK(b.bad_range==0,"index-range",in<<": a workspace index is outside 0.."<<slots-1); VM_CHECK(b.split==0 && b.changed==0,"index-of-team",in<<": the threads of a team got different indices"); VM_CHECK(b.shared==0,"index-shared",in<<": two teams that ran at once had the same index");
  VM_CHECK(b.peak<=want,"more-teams-than-said",in<<": "<<b.peak<<" teams ran at once"); vm::count("kernels"); vm::count("teams",(long)league*rounds); if (ts>1) vm::count("multi_thread_kernels"); if (b.peak>1) vm::count("kernels_with_concurrent_teams"); if (conc%ts) vm::count("idle_threads"); vm::nontrivial((uint64_t)league*1000+ts*10+kind); for (auto& q : b.seen) vm::nontrivial((uint64_t)league*7000000+ts*500000+q.first*100+q.second); vm::sample(in);
}
#ifdef EKAT_ENABLE_GPU
// EKAT's device code on the stand-in device: slots taken and given back with locks, by more teams than there are slots
template<typename T> void device_teams (Rng& r) {
  const bool single=sizeof(typename ScalarTraits<T>::scalar_type)==4; const int conc=ES().concurrency()/(single?1:2), league=(int)r.range(1,r.chance(0.3)?120:16), ts=(int)r.range(1,std::min(conc,4)); const double over=r.range(0,1)?1.0:r.real(1,4);
  auto policy=TF::get_team_policy_force_team_size(league,ts); VM_CHECK(policy.league_size()==league && policy.team_size()==ts,"policy-shape",policy.league_size()<<" teams of "<<policy.team_size());
  TeamUtils<T,ES> tu(policy,over), copy; if (r.range(0,1)) { copy=tu; tu=copy; } const int want=std::min(conc/ts,league), slots=tu.get_num_ws_slots(); const string in=vm::str(league)+" teams of "+vm::str(ts)+" on a device of "+vm::str(conc)+" threads, "+vm::str(over)+" slots for each";
  VM_CHECK(tu.get_num_concurrent_teams()==want && tu.get_max_concurrent_threads()==conc,"concurrent-teams",in<<": "<<tu.get_num_concurrent_teams()<<" teams and "<<tu.get_max_concurrent_threads()<<" threads at once"); VM_CHECK(slots>=want && slots<=league && std::fabs(slots-std::min((double)league,over*want))<1,"slots",in<<": "<<slots);
  const int rounds=(int)r.range(1,3); const size_t nt=(size_t)league*rounds; std::unique_ptr<std::atomic<int>[]> owner(new std::atomic<int>[slots]), left(new std::atomic<int>[nt]), idx(new std::atomic<int>[nt]); for (int i=0;i<slots;++i) owner[i]=0; for (size_t i=0;i<nt;++i) left[i]=0, idx[i]=-1;
  std::atomic<int> range{0}, shared{0}, split{0}, waits{0}, now{0}, peak{0}; auto *O=owner.get(), *L=left.get(), *I=idx.get(), *RA=&range, *SH=&shared, *SP=&split, *NO=&now, *PE=&peak; const uint64_t seed=r.u64(); const int pace=(int)r.range(0,2); const auto t=tu;
  auto lag=[pace](uint64_t h) { h=vm::mix(h); if (pace && h%3==0) std::this_thread::sleep_for(std::chrono::microseconds(h/8%(pace==1?20:120))); else if (h%5==0) std::this_thread::yield(); };
  for (int k=0;k<rounds;++k) Kokkos::parallel_for("d",policy,[=](const Member& team) {
    const int me=k*league+team.league_rank(); const uint64_t h=seed+(uint64_t)me*131+(uint64_t)team.team_rank()*7; lag(h);
    const int wi=t.get_workspace_idx(team); if (wi<0 || wi>=slots) { ++*RA; team.team_barrier(); return; }
    if (team.team_rank()==0) { const int prev=O[wi].exchange(me+1); if (prev && L[prev-1]!=ts) ++*SH; I[me]=wi; const int c=++*NO; int p=*PE; while (p<c && !PE->compare_exchange_weak(p,c)); }
    team.team_barrier(); if (I[me]!=wi) ++*SP; lag(h+1); if (O[wi]!=me+1) ++*SH; team.team_barrier(); if (team.team_rank()==0) --*NO;
    lag(h+2); if (O[wi]!=me+1) ++*SH; ++L[me]; t.release_workspace_idx(team,wi);     // each thread leaves when it likes: the slot is kept until all have
  });
  bool once=true; for (size_t i=0;i<nt;++i) once=once&&left[i]==ts; VM_CHECK(range==0,"index-range",in<<": a workspace index is outside 0.."<<slots-1); VM_CHECK(once,"each-team-once",in); VM_CHECK(split==0,"index-of-team",in<<": the threads of a team got different indices"); VM_CHECK(shared==0,"index-shared",in<<": two teams had the same index at once"); VM_CHECK(peak<=slots,"index-shared",in<<": "<<peak<<" teams at once on "<<slots<<" slots");
  vm::count("kernels",rounds); vm::count("teams",(long)nt); if (ts>1) vm::count("multi_thread_kernels"); if (peak>1) vm::count("kernels_with_concurrent_teams"); if (league>slots) vm::count("kernels_sharing_slots"); vm::nontrivial((uint64_t)league*1000+ts*10); for (size_t i=0;i<nt;++i) vm::nontrivial((uint64_t)league*7000000+ts*500000+i*1000+idx[i]); vm::sample(in);
}
#endif
int main (int argc, char** argv) {
  vm::init(argc,argv); KokkosMain k;
#ifdef EKAT_ENABLE_GPU
  vm::sub("device-teams",vm::ncases(1500,60000),[&](Rng& r, long long ic) { ic%3==0?device_teams<float>(r):ic%3==1?device_teams<double>(r):device_teams<Pack<double,2>>(r); });
#else
  vm::sub("teams",vm::ncases(1500,60000),[&](Rng& r, long long ic) { ic%3==0?teams<float>(r):ic%3==1?teams<double>(r):teams<Pack<double,2>>(r); });
#endif
  vm::sub("not-set-up",1,[&](Rng&, long long) { TeamUtils<double,ES> tu; (void)tu;
#ifndef NDEBUG
    VM_CHECK(vm::throws([&]{ tu.get_num_ws_slots(); }) && vm::throws([&]{ tu.get_num_concurrent_teams(); }) && vm::throws([&]{ tu.get_max_concurrent_threads(); }),"not-set-up","an object that is not set up gave an answer");
#endif
    vm::nontrivial(1); });
  return vm::finish();
}
