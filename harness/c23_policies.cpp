// C23, shapes of the team policies for devices (teams of whole warps, at most 128 threads)
#include "vmon.hpp"
#include "ekat_team_policy_utils.hpp"
using vm::Rng; using TF=ekat::TeamPolicyFactory<StandinDev>;
int main (int argc, char** argv) {
  vm::init(argc,argv);
  vm::sub("device-policies",vm::ncases(2000,20000),[&](Rng& r, long long) {
    const int league=(int)r.range(1,1000), n=(int)r.range(1,r.range(0,1)?140:2000), ts=(int)r.range(1,1024); const auto d=TF::get_default_team_policy(league,n), p=TF::get_thread_range_parallel_scan_team_policy(league,n), f=TF::get_team_policy_force_team_size(league,ts); const int s=p.team_size();
    VM_CHECK(f.league_size()==league && f.team_size()==ts,"policy-shape",f.league_size()<<" teams of "<<f.team_size());
    VM_CHECK(d.team_size()==std::min(128,(n+31)/32*32) && d.league_size()==league,"device-policy",d.league_size()<<" teams of "<<d.team_size()<<" threads for "<<league<<" of "<<n<<" items");
    // a scan needs a power of two: the largest that the items can keep busy, in whole warps
    VM_CHECK(p.league_size()==league && s>=32 && s<=128 && (s&(s-1))==0 && s<=std::max(32,n) && 2*s>std::min(127,n),"device-scan-policy",p.league_size()<<" teams of "<<s<<" threads for "<<league<<" of "<<n<<" items"); vm::count("device_policies"); vm::nontrivial((uint64_t)n*2000+(uint64_t)league);
  });
  return vm::finish();
}
