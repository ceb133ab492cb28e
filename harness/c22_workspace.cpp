// C22: workspaces hand out disjoint memory that stays intact until released, through every history of takes and releases
#include "viewmon.hpp"
#include "ekat_workspace.hpp"
#include <algorithm>
#include <memory>
#include <thread>
using namespace ekat; using TF=TeamPolicyFactory<KT::ExeSpace>; using Member=KT::MemberType;
// The log of what was owned when, judged after each kernel: recorded intervals lie inside the real ones
struct Ev { long t0, t1; const char *lo, *hi; int team; };
struct Board {   // shared by all threads of a kernel
  std::mutex m; std::vector<Ev> log; std::vector<string> errs; std::atomic<long> clock{0}, takes{0}, releases{0}, bulk{0}, bulk2{0}, wild{0}, full{0}; std::map<string,std::pair<long,long>> names; int high=0;
  std::unique_ptr<std::atomic<const char*>[]> pub; std::unique_ptr<std::atomic<int>[]> running; std::atomic<int> now{0}, peak{0}; std::set<uint64_t> histories;
  Board (int n) : pub(new std::atomic<const char*>[n]) {}
  void err (const string& s) { std::lock_guard<std::mutex> g(m); if (errs.size()<5) errs.push_back(s); }
};
static unsigned char pat (int team, long serial, long k) { return (unsigned char)(vm::mix((uint64_t)team*1000003u+(uint64_t)serial*7919u+(uint64_t)(k>>3))>>(8*(k&7))); }
struct Opts { uint64_t seed; int size, max_used, steps; bool clean_finish, leak; };
template<typename T,typename S2,typename WSM> struct Actor {
  template<typename S> using UV=Unmanaged<KT::view_1d<S>>;
  struct Act { int kind; UV<T> v; UV<S2> w; char* p; long bytes, serial, t0; string name; int slots, group; bool macro; };   // group: id of a contiguous group (0: none)
  const WSM& wsm; const Member& team; Board& b; const Opts& o; Rng r; typename WSM::Workspace& ws; std::vector<Act> act; long serial=0; int used=0, ngroup=0, high=0; bool seq; const int me, n; uint64_t hist=7; std::map<string,std::pair<long,long>> names;
  Actor (const WSM& m, const Member& t, Board& bb, const Opts& oo, typename WSM::Workspace& w) : wsm(m), team(t), b(bb), o(oo), r(vm::mix(oo.seed+(uint64_t)t.league_rank()*77773u)), ws(w), seq(oo.clean_finish), me(t.team_rank()), n(t.team_size()) {}
  string id () { return "team "+vm::str(team.league_rank())+" thread "+vm::str(me)+"/"+vm::str(n)+" step "+vm::str(serial)+", "+vm::str(o.size)+"x"+vm::str(o.max_used)+": "; }
  void lag () { if (r.u64()%4==0) { const auto w=vm::mix(r.s+(uint64_t)me)%100; if (w<4) std::this_thread::sleep_for(std::chrono::microseconds(w*20)); else if (w<20) for (volatile int k=0;k<(int)w*20;k=k+1); } }
  string name () { const int l=(int)(r.chance(0.03)?r.range(100,127):r.range(1,6)); return string(l,(char)('a'+r.range(0,4))); }
  template<typename V> void got (const V& v, const string& nm, int slots, int group) {
    using S=typename V::value_type; Act a; a.kind=std::is_same_v<S,T>?0:1; if constexpr (std::is_same_v<S,T>) a.v=v; else a.w=v; a.p=(char*)v.data(); a.serial=++serial; a.name=nm; a.slots=slots; a.group=group; a.macro=slots>1; a.bytes=slots>1?(long)slots*o.size*(long)sizeof(T):(long)(v.extent(0)*sizeof(S));
    if ((long)v.extent(0)!=(long)(o.size*sizeof(T)/sizeof(S))) b.err(id()+"the space has "+vm::str(v.extent(0))+" entries");
    if ((uintptr_t)a.p%alignof(T)) b.err(id()+"the space is misaligned");
    for (auto& q : act) if (a.p<q.p+q.bytes && q.p<a.p+a.bytes) b.err(id()+"space '"+nm+"' overlaps '"+q.name+"', which is in use");
    if (me==0) b.pub[team.league_rank()]=a.p; team.team_barrier(); if (b.pub[team.league_rank()]!=a.p) b.err(id()+"the threads of the team got different spaces"); team.team_barrier();
    a.t0=++b.clock; for (long k=me;k<a.bytes;k+=n) ((volatile unsigned char*)a.p)[k]=pat(team.league_rank(),a.serial,k);
    used+=slots; if (used>high) high=used; if (used==o.max_used && me==0) ++b.full; names[nm].first++; act.push_back(a); hist=vm::mix(hist+slots*8+group);
#ifndef NDEBUG
    const char* got=std::is_same_v<S,T>?ws.get_name(a.v):ws.get_name(a.w); if (strcmp(got,nm.c_str())) b.err(id()+"the space taken as '"+nm+"' is named '"+got+"'");
#endif
  }
  void verify (const Act& a, bool all) { long bad=-1; for (long k=all?0:me;k<a.bytes;k+=all?1:n) if (((volatile unsigned char*)a.p)[k]!=pat(team.league_rank(),a.serial,k)) { bad=k; break; } if (bad>=0) b.err(id()+"byte "+vm::str(bad)+" of '"+a.name+"' ("+vm::str(a.slots)+" blocks) changed while it was in use"); }
  void gone (const Act& a) { verify(a,false); used-=a.slots; names[a.name].second++; hist=vm::mix(hist+1); if (me==0) { const long t=b.clock++; std::lock_guard<std::mutex> g(b.m); b.log.push_back({a.t0,t,a.p,a.p+a.bytes,team.league_rank()}); } }
  template<typename S> void take1 () { const string nm=name(); got(ws.template take<S>(nm.c_str()),nm,1,0); }
  template<int N,int HOW,typename S=T> void takeN () {   // 0: many, 1: refs, 2: contiguous, 3: with reset
    string nm[N]; Kokkos::Array<const char*,N> na; UV<S> v[N]; Kokkos::Array<UV<S>*,N> p; for (int i=0;i<N;++i) { nm[i]=name(); na[i]=nm[i].c_str(); p[i]=&v[i]; }
    if constexpr (HOW==0) ws.template take_many<N,S>(na,p); else if constexpr (HOW==1) { if constexpr (N==1) ws.take_many_refs(na,v[0]); else if constexpr (N==2) ws.take_many_refs(na,v[0],v[1]); else if constexpr (N==3) ws.take_many_refs(na,v[0],v[1],v[2]); else ws.take_many_refs(na,v[0],v[1],v[2],v[3],v[4]); } else if constexpr (HOW==2) ws.template take_many_contiguous_unsafe<N,S>(na,p);
    else { for (auto& a : act) gone(a); act.clear(); team.team_barrier(); ws.template take_many_and_reset<N,S>(na,p); used=0; seq=true; }
    const int g=HOW>=2?++ngroup:0; for (int i=0;i<N;++i) got(v[i],nm[i],1,g); if (me==0) ++b.bulk;
    if (HOW>=2) for (int i=1;i<N;++i) if (!(v[i-1].data()+v[i-1].extent(0)<=v[i].data())) b.err(id()+"spaces taken contiguously are out of order"); if (me==0 && !std::is_same_v<S,T>) ++b.bulk2;
  }
  void release (size_t i) {
    Act a=act[i]; if (seq && i+1!=act.size() && !a.group) { seq=false; } if (a.group) { release_group(a.group); return; }
    gone(a); lag(); if (a.macro && a.kind) ws.template release_macro_block<S2>(a.w,a.slots); else if (a.macro) ws.release_macro_block(a.v,a.slots); else if (a.kind) ws.release(a.w); else ws.release(a.v); act.erase(act.begin()+i);
  }
  void one (const Act& a) { if (a.kind) ws.release(a.w); else ws.release(a.v); }
  template<typename S,int N> void give_back_n (const std::vector<size_t>& ix) { Kokkos::Array<UV<S>*,N> p; for (int i=0;i<N;++i) { if constexpr (std::is_same_v<S,T>) p[i]=&act[ix[i]].v; else p[i]=&act[ix[i]].w; } ws.template release_many_contiguous<N,S>(p); }
  template<typename S> void give_back (const std::vector<size_t>& ix) { switch (ix.size()) { case 1: give_back_n<S,1>(ix); break; case 2: give_back_n<S,2>(ix); break; case 3: give_back_n<S,3>(ix); break; case 5: give_back_n<S,5>(ix); break; default: give_back_n<S,8>(ix); } }
  template<int HOW,typename S=T> void takeM (int free) { const int k=(int)r.range(0,5); if (k==0 && HOW!=1 && free>=8) { if constexpr (HOW!=1) takeN<8,HOW,S>(); } else if (k<=1 && free>=5) takeN<5,HOW,S>(); else if (k<=3 && free>=3) takeN<3,HOW,S>(); else if (k<=4 && free>=2) takeN<2,HOW,S>(); else takeN<1,HOW,S>(); }
  template<typename S> void takeB (int free) { const int m=(int)r.range(1,free); const string nm=name(); got(ws.template take_macro_block<S>(nm.c_str(),m),nm,m,0); if (m==1) act.back().macro=r.range(0,1); if (me==0) ++b.bulk; }
  void release_group (int g) {
    std::vector<size_t> ix; for (size_t i=0;i<act.size();++i) if (act[i].group==g) ix.push_back(i); const bool top=ix.back()+1==act.size() && ix.back()-ix[0]+1==ix.size(); if (!top) seq=false;
    for (auto i : ix) gone(act[i]);
    if (r.chance(0.7)) { lag(); if (act[ix[0]].kind) give_back<S2>(ix); else give_back<T>(ix); if (!top && me==0) ++b.wild; }
    else if (r.range(0,1)) for (size_t q=ix.size();q-->0;) one(act[ix[q]]); else { seq=false; for (auto i : ix) one(act[i]); }
    for (size_t q=ix.size();q-->0;) act.erase(act.begin()+ix[q]);
  }
  void reset () { for (auto& a : act) gone(a); act.clear(); lag(); ws.reset(); used=0; seq=true; }
  void run () {
    const int cur=me==0?++b.now:0; if (me==0) { int p=b.peak; while (p<cur && !b.peak.compare_exchange_weak(p,cur)); }
    if (r.chance(0.1)) reset();
    for (int s=0;s<o.steps;++s) {
      lag(); const int free=o.max_used-used; const bool up=r.chance(0.55);
      if (up && free>0) { const int k=(int)r.range(0,9);
        const bool other=r.chance(0.25);
        if (k<=1) { if (other) takeM<0,S2>(free); else takeM<0>(free); } else if (k<=3) { if (other) takeM<1,S2>(free); else takeM<1>(free); }
        else if (k<=5 && seq) { if (other) takeM<2,S2>(free); else takeM<2>(free); } else if (k==6 && seq) { if (other) takeB<S2>(free); else takeB<T>(free); }
        else if (k==7) { if (r.chance(0.3)) { if (other) takeM<3,S2>(o.max_used); else takeM<3>(o.max_used); } } else if (k==8) take1<S2>(); else take1<T>(); }
      else if (!act.empty()) { if (r.chance(0.04)) reset(); else release(r.chance(0.4)?act.size()-1:(size_t)r.range(0,(long)act.size()-1)); }
      else if (r.chance(0.1)) reset();
      if (r.chance(0.1)) while (used<o.max_used) take1<T>();   // every block that is not in use can be taken
      if (r.chance(0.15)) { team.team_barrier(); for (auto& a : act) verify(a,true); team.team_barrier(); }
    }
    if (r.chance(0.3)) while (used<o.max_used) take1<T>();
    if (o.leak) for (auto& a : act) gone(a);
    else if (o.clean_finish) reset(); else while (!act.empty()) release((size_t)r.range(0,(long)act.size()-1));
    b.now-=me==0; if (me==0) { std::lock_guard<std::mutex> g(b.m); b.high=std::max(b.high,high); b.histories.insert(hist); for (auto& q : names) { b.names[q.first].first+=q.second.first; b.names[q.first].second+=q.second.second; b.takes+=q.second.first; b.releases+=q.second.second; } }
  }
};
// the report of a debug build: highest use, and takes and releases by name
template<typename WSM> void judge_report (const WSM& w, const Board& b, const string& what) {
#ifndef NDEBUG
  std::ostringstream os; auto* old=std::cout.rdbuf(os.rdbuf()); w.report(); std::cout.rdbuf(old); std::istringstream is(os.str()); string l; int high=-1; std::map<string,std::pair<long,long>> got;
  while (std::getline(is,l)) { auto p=l.find("high-water "); if (p!=string::npos) high=std::max(high,atoi(l.c_str()+p+11)); if (l.compare(0,11,"Workspace '")==0) { auto e=l.find('\'',11); const string nm=l.substr(11,e-11); int k=0; long tk=-1, rl=-1; if (sscanf(l.c_str()+e+1," was used by %d wsindices with %ld takes and %ld releases",&k,&tk,&rl)==3) got[nm]={tk,rl}; } }
  VM_CHECK(high==b.high,"report-high-water",what<<": reported "<<high<<", was "<<b.high); for (auto it=got.begin();it!=got.end();) { if (it->second.first==0 && it->second.second==0) it=got.erase(it); else ++it; }
  bool ok=got.size()==b.names.size(); for (auto& q : b.names) ok=ok&&got.count(q.first)&&got[q.first]==q.second; VM_CHECK(ok,"report-counts",what<<": the report does not give the takes and releases by name: "<<os.str().substr(0,300)); vm::count("reports");
#else
  (void)w; (void)b; (void)what;
#endif
}
template<typename T,typename S2> void history (Rng& r) {
  using WSM=WorkspaceManager<T>; const int conc=team_limit(); Opts o; o.size=(int)r.range(1,r.chance(0.02)?5000:r.chance(0.2)?200:24); if (sizeof(T)<sizeof(S2)||sizeof(T)<4) o.size=(o.size+3)/4*4; o.max_used=(int)r.range(1,10); const bool leak=r.chance(0.15); const int ts=(int)r.range(1,std::min(conc,8)), league=leak?1:(int)r.range(1,r.chance(0.3)?40:10);
  bool forced=ts>1||r.range(0,1);
#ifdef EKAT_ENABLE_GPU
  forced=true;
#endif
  auto policy=forced?TF::get_team_policy_force_team_size(league,ts):TF::get_default_team_policy(league,o.size); const string what=string(typeid(T).name())+" "+vm::str(o.size)+"x"+vm::str(o.max_used)+" league "+vm::str(league)+" teams of "+vm::str(policy.team_size());
  const long bytes=WSM::get_total_bytes_needed(o.size,o.max_used,policy); const bool own=r.range(0,1); constexpr long G=64; std::vector<char> mem; T* data=nullptr;
  if (own) { mem.assign(bytes+2*G+alignof(T),(char)0x5a); uintptr_t a=(uintptr_t)mem.data()+G; a=(a+alignof(T)-1)/alignof(T)*alignof(T); data=(T*)a; }
  WSM w; if (r.range(0,1)) { if (own) w.setup(data,o.size,o.max_used,policy); else w.setup(o.size,o.max_used,policy); } else { if (own) w=WSM(data,o.size,o.max_used,policy); else w=WSM(o.size,o.max_used,policy); }
  const int kernels=(int)r.range(1,3); o.clean_finish=r.range(0,1); bool fresh=true; Board total(1);
  for (int k=0;k<kernels;++k) {
    Board b(league); o.seed=r.u64(); o.steps=(int)r.range(1,30); o.leak=leak; const Opts oo=o; auto* bp=&b; const auto wc=w; const bool named=r.range(0,1);
    if (k && (leak||r.range(0,1))) { w.reset_internals(); total.names.clear(); total.high=0; fresh=true; if (leak) vm::count("resets_after_leaks"); }
    Kokkos::parallel_for("h",policy,[=](const Member& team){ auto ws=named?wc.get_workspace(team,"mine"):wc.get_workspace(team); Actor<T,S2,WSM> a(wc,team,*bp,oo,ws); a.run(); });
    for (auto& e : b.errs) VM_CHECK(false,"workspace",what<<": "<<e);
    auto& L=b.log; std::sort(L.begin(),L.end(),[](const Ev& x,const Ev& y){ return x.lo<y.lo; }); bool ok=true, inside=true; string who; const char *lo=(const char*)data, *hi=lo+bytes;
    for (size_t i=0;i<L.size();++i) { if (own) inside=inside&&L[i].lo>=lo&&L[i].hi<=hi; for (size_t j=i+1;j<L.size()&&L[j].lo<L[i].hi;++j) if (L[i].t0<L[j].t1 && L[j].t0<L[i].t1 && L[i].team!=L[j].team) { ok=false; who=vm::str(L[i].team)+" and "+vm::str(L[j].team); } }
    VM_CHECK(ok,"teams-disjoint",what<<": teams "<<who<<" owned the same memory at the same time"); VM_CHECK(inside,"inside-data",what<<": a space lies outside the memory given");
    for (auto& q : b.names) { total.names[q.first].first+=q.second.first; total.names[q.first].second+=q.second.second; } total.high=std::max(total.high,b.high);
    if (!leak) judge_report(w,total,what+(fresh?"":" (again)"));
    vm::count("kernels"); vm::count("teams",league); vm::count("takes",b.takes); vm::count("releases",b.releases); vm::count("bulk_takes",b.bulk); vm::count("bulk_takes_of_other_types",b.bulk2); vm::count("full_workspaces",b.full); vm::count("releases_out_of_order",b.wild); vm::count_max("concurrent_teams",b.peak); if (policy.team_size()>1) vm::count("multi_thread_kernels"); for (auto h : b.histories) vm::nontrivial(h); fresh=false;
  }
  if (own) { bool ok=true; for (char* p=mem.data();p<(char*)data;++p) ok=ok&&*p==0x5a; for (char* p=(char*)data+bytes;p<mem.data()+mem.size();++p) ok=ok&&*p==0x5a; VM_CHECK(ok,"guards",what<<": memory outside the bytes needed was written"); vm::count("own_data"); }
  vm::sample(what);
}
template<typename T> void bytes (Rng& r) {   // no allocation, so large ones too
  const int size=(int)r.range(1,r.range(0,1)?1<<20:64), used=(int)r.range(1,r.range(0,1)?2000:20); auto p=TF::get_team_policy_force_team_size((int)r.range(1,64),(int)r.range(1,team_limit())); const auto n=WorkspaceManager<T>::get_total_bytes_needed(size,used,p); TeamUtils<T,KT::ExeSpace> tu(p);
  const double least=(double)tu.get_num_ws_slots()*size*(double)sizeof(T)*used; VM_CHECK((double)n>=least+(double)tu.get_num_ws_slots()*used*8 && (double)n<=least*17+1000,"bytes-needed",size<<"x"<<used<<" in "<<tu.get_num_ws_slots()<<" workspaces need at least "<<least<<" bytes, not "<<n); vm::count("sizes"); if (least>2e9) vm::count("sizes_over_2GB"); vm::nontrivial((uint64_t)size*4096+used);
}
#ifndef NDEBUG
static const char* MISUSE[]={"take one too many","take many too many","release twice","empty name","name too long","macro block too long","manager not set up","none","contiguous after a hole"};
static int misuse (int k) {
  KokkosMain km; using WSM=WorkspaceManager<double>; auto p=TF::get_team_policy_force_team_size(1,1); WSM w; if (k!=6) w.setup(8,3,p);
  Kokkos::parallel_for("m",p,[=](const Member& t){ auto ws=w.get_workspace(t,"workspace-of-misuse"); using U=Unmanaged<KT::view_1d<double>>; U a,b,c,d;
    if (k==0) { ws.take("a"); ws.take("b"); ws.take("c"); ws.take("d"); } else if (k==1) ws.take_many<4>({"a","b","c","d"},{&a,&b,&c,&d}); else if (k==2) { a=ws.take("a"); b=ws.take("b"); ws.release(a); ws.release(a); } else if (k==3) ws.take(""); else if (k==4) ws.take(string(128,'x').c_str()); else if (k==5) ws.take_macro_block("a",4);
    else if (k==7) { a=ws.take("a"); b=ws.take(string(127,'x').c_str()); ws.release(b); ws.release(a); a=ws.take_macro_block("a",3); ws.release_macro_block(a,3); ws.take_many<3>({"a","b","c"},{&a,&b,&c}); }
    else if (k==8) { a=ws.take("a"); b=ws.take("b"); ws.release(a); ws.take_many_contiguous_unsafe<2>({"c","d"},{&c,&d}); } });
  return 0;
}
#endif
template<typename T,typename S> static void more (Rng& r) { history<T,S>(r); }
int main (int argc, char** argv) {
#ifndef NDEBUG
  if (argc==3 && string(argv[1])=="--misuse") return misuse(atoi(argv[2]));
  // a misuse ends the program in debug builds
#endif
  vm::init(argc,argv); KokkosMain k;
  vm::sub("history",vm::ncases(1200,30000),[&](Rng& r, long long ic) { switch (ic%5) { case 0: more<double,int>(r); break; case 1: more<float,int>(r); break; case 2: more<Pack<double,4>,double>(r); break; case 3: more<int,float>(r); break; default: more<long,char>(r); } });
  vm::sub("bytes",vm::ncases(3000,30000),[&](Rng& r, long long ic) { switch (ic%4) { case 0: bytes<double>(r); break; case 1: bytes<float>(r); break; case 2: bytes<Pack<double,8>>(r); break; default: bytes<int>(r); } });
#ifndef NDEBUG
  vm::sub("misuse",9,[&](Rng&, long long ic) { auto c=vm::run_self({"--misuse",vm::str(ic)}); if (ic==7) VM_CHECK(!c.signaled && c.status==0,"valid-use",c.err<<c.out); else { VM_CHECK(c.signaled && c.sig==SIGABRT,"misuse-refused",MISUSE[ic]<<" was not refused: status "<<c.status<<" "<<c.err.substr(0,500)); vm::count("refused_misuses"); } vm::nontrivial(ic); });
  vm::sub("print",20,[&](Rng& r, long long) { const int mu=(int)r.range(1,6), tk=(int)r.range(0,mu); auto p=TF::get_team_policy_force_team_size(1,2); WorkspaceManager<double> w(5,mu,p); std::atomic<int> bad{0}; auto* bp=&bad; std::ostringstream os; auto* old=std::cout.rdbuf(os.rdbuf());
    Kokkos::parallel_for("p",p,[=](const Member& t){ auto ws=w.get_workspace(t); std::vector<Unmanaged<KT::view_1d<double>>> v; for (int i=0;i<tk;++i) { v.push_back(ws.take("x")); v.back()(t.team_rank())=i*2+t.team_rank(); } t.team_barrier(); ws.print(); t.team_barrier(); for (int i=0;i<tk;++i) if (v[i](t.team_rank())!=i*2+t.team_rank()) ++*bp; ws.reset(); });
    std::cout.rdbuf(old); VM_CHECK(bad==0,"print","printing changed a space in use"); VM_CHECK(!os.str().empty(),"print-output",""); vm::nontrivial((uint64_t)mu*8+tk); });
#endif
  return vm::finish();
}
