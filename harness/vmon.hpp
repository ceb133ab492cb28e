// vmon.hpp: the run-time monitor core shared by every harness in /verif/harness.
//
// A harness is an ordinary program that drives the real EKAT code. It is made of "subs" (named
// workloads), each a list of numbered cases; the random choices of a case depend only on
// (seed, sub, case number), so any case can be replayed by itself. Oracles call VM_CHECK; what was
// observed goes to counters, which end up in the evidence file.
#ifndef VMON_HPP
#define VMON_HPP

#ifdef STANDIN_GPU      // EKAT's code for devices, see there
#include "standin_gpu.hpp"
#endif

#include <atomic>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iterator>
#include <iostream>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vm {

inline uint64_t mix (uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
inline uint64_t hash_bytes (const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i=0; i<n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
  return h;
}
inline uint64_t hash_str (const std::string& s, uint64_t h = 1469598103934665603ULL) {
  return hash_bytes(s.data(),s.size(),h);
}

struct Rng {
  uint64_t s;
  explicit Rng (uint64_t seed=1) : s(seed) {}
  uint64_t u64 () { s += 0x9e3779b97f4a7c15ULL; uint64_t z=s;
    z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }
  // inclusive range
  long long range (long long a, long long b) {
    const uint64_t span = (uint64_t)b - (uint64_t)a + 1;
    return span==0 ? (long long)u64() : (long long)((uint64_t)a + u64()%span);
  }
  bool chance (double p) { return real01()<p; }
  double real01 () { return (u64()>>11) * (1.0/9007199254740992.0); }
  double real (double a, double b) { return a+(b-a)*real01(); }
  template<typename C, typename = std::enable_if_t<!std::is_lvalue_reference_v<C>>>
  auto pick (C&& c) { return c[range(0,(long long)std::size(c)-1)]; }
  template<typename C> auto& pick (C& c) { return c[range(0,(long long)std::size(c)-1)]; }
};

struct Violation { std::string sub, key, detail; long long icase; };
struct SubStat { long long cases=0, checks=0; double wall=0; };

struct State {
  std::string out, only; long long only_case = -1;
  uint64_t seed = 1; bool thorough = false; double scale = 1;
  std::string self;
  std::vector<std::string> args;
  std::mutex mtx;
  std::vector<Violation> viols; long long nviols = 0;
  std::map<std::string,SubStat> subs;
  std::map<std::string,long long> counters;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples; std::map<std::string,int> nsamples;
  std::string cur_sub; std::atomic<long long> cur_case{-1}; std::atomic<long long> cur_viols{0};
  std::atomic<long long> checks{0};
  char* progress = nullptr;
  int case_timeout = 120;
  bool keep_going = false;   // never end a workload early (ranks of an MPI job stay in step)
};
inline State& st () { static State* s = new State(); return *s; }

inline std::string jesc (const std::string& s) {
  std::string o; char b[8];
  for (unsigned char c : s) {
    if (c=='"' || c=='\\') { o+='\\'; o+=c; }
    else if (c=='\n') o+="\\n";
    else if (c<32 || c>=127) { snprintf(b,sizeof b,"\\u%04x",c); o+=b; }
    else o+=c;
  }
  return o;
}

inline void write_out () {
  auto& S = st();
  if (S.out.empty()) return;
  std::lock_guard<std::mutex> g(S.mtx);
  std::ofstream f(S.out);
  f << "{\"checks\":" << S.checks.load() << ",\"distinct\":" << S.distinct.size()
    << ",\"nviols\":" << S.nviols << ",\n\"subs\":{";
  bool first=true;
  for (auto& it : S.subs) {
    f << (first?"":",") << "\"" << jesc(it.first) << "\":{\"cases\":" << it.second.cases
      << ",\"checks\":" << it.second.checks << ",\"wall\":" << it.second.wall << "}";
    first=false;
  }
  f << "},\n\"counters\":{"; first=true;
  for (auto& it : S.counters) { f << (first?"":",") << "\"" << jesc(it.first) << "\":" << it.second; first=false; }
  f << "},\n\"samples\":["; first=true;
  for (auto& s : S.samples) { f << (first?"":",") << "\"" << jesc(s) << "\""; first=false; }
  f << "],\n\"violations\":["; first=true;
  for (auto& v : S.viols) {
    f << (first?"":",") << "{\"sub\":\"" << jesc(v.sub) << "\",\"case\":" << v.icase << ",\"key\":\""
      << jesc(v.key) << "\",\"detail\":\"" << jesc(v.detail) << "\"}";
    first=false;
  }
  f << "]}\n";
}

inline void set_progress () {
  auto& S = st();
  if (S.progress) { snprintf(S.progress,4000,"%s %lld\n",S.cur_sub.c_str(),S.cur_case.load()); }
}

inline void on_alarm (int) {
  const char m[] = "VMON-HANG: a case did not end within its time limit\n";
  if (write(2,m,sizeof m-1)) {}
  _exit(78);
}

inline void init (int argc, char** argv) {
  auto& S = st();
  S.self = argv[0];
  for (int i=1; i<argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(i+1<argc ? argv[++i] : ""); };
    if (a=="--vm-out") S.out = next();
    else if (a=="--vm-seed") S.seed = strtoull(next().c_str(),nullptr,10);
    else if (a=="--vm-tier") S.thorough = next()=="thorough";
    else if (a=="--vm-scale") S.scale = atof(next().c_str());
    else if (a=="--vm-only") S.only = next();
    else if (a=="--vm-case") S.only_case = atoll(next().c_str());
    else if (a=="--vm-timeout") S.case_timeout = atoi(next().c_str());
    else S.args.push_back(a);
  }
  // Ranks of an MPI job write separate files
  if (const char* r = getenv("OMPI_COMM_WORLD_RANK")) if (!S.out.empty()) S.out += std::string(".") + r;
  if (!S.out.empty()) {
    int fd = open((S.out+".progress").c_str(),O_RDWR|O_CREAT|O_TRUNC,0644);
    if (fd>=0) {
      if (ftruncate(fd,4096)==0) {
        void* p = mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0);
        if (p!=MAP_FAILED) S.progress = static_cast<char*>(p);
      }
      close(fd);
    }
  }
  signal(SIGALRM,on_alarm);
}

inline bool thorough () { return st().thorough; }

// Number of cases: quick and thorough, scaled by the driver (slow instrumentation runs fewer)
inline long long ncases (double quick, double thor) {
  double n = (st().thorough ? thor : quick)*st().scale;
  return n<1 ? 1 : (long long)n;
}

inline void report (const std::string& key, const std::string& detail) {
  auto& S = st();
  std::lock_guard<std::mutex> g(S.mtx);
  S.nviols++; S.cur_viols++;
  if (S.cur_viols<=8 && S.viols.size()<60) {
    S.viols.push_back({S.cur_sub,key,detail,S.cur_case.load()});
    fprintf(stderr,"VMON %s case %lld [%s] %s\n",S.cur_sub.c_str(),S.cur_case.load(),key.c_str(),detail.substr(0,2000).c_str());
  }
}
inline void count (const std::string& name, long long n=1) {
  auto& S = st();
  std::lock_guard<std::mutex> g(S.mtx);
  S.counters[name] += n;
}
inline void count_max (const std::string& name, long long n) {
  auto& S = st();
  std::lock_guard<std::mutex> g(S.mtx);
  auto& c = S.counters[name]; if (n>c) c = n;
}
// Declare the current case (or a part of it) non-trivial; h identifies it
inline void nontrivial (uint64_t h) {
  auto& S = st();
  std::lock_guard<std::mutex> g(S.mtx);
  if (S.distinct.size()<4000000) S.distinct.insert(mix(h ^ hash_str(S.cur_sub)));
}
inline void nontrivial (const std::string& s) { nontrivial(hash_str(s)); }
inline void sample (const std::string& s) {
  auto& S = st();
  std::lock_guard<std::mutex> g(S.mtx);
  if (S.nsamples[S.cur_sub]++ < 2 && S.samples.size()<60) S.samples.push_back(S.cur_sub+": "+s.substr(0,400));
}

// Run n cases of a workload. f(Rng&, long long icase)
template<typename F>
void sub (const std::string& name, long long n, F f) {
  auto& S = st();
  if (!S.only.empty() && S.only!=name) return;
  { std::lock_guard<std::mutex> g(S.mtx); S.cur_sub = name; S.cur_viols = 0; }
  const uint64_t base = mix(S.seed*0x1234567ULL + hash_str(name));
  auto t0 = std::chrono::steady_clock::now();
  const long long c0 = S.checks.load();
  long long done = 0;
  for (long long i=0; i<n; ++i) {
    if (S.only_case>=0 && i!=S.only_case) continue;
    S.cur_case = i;
    set_progress();
    alarm(S.case_timeout);
    Rng rng(mix(base+(uint64_t)i));
    try {
      f(rng,i);
    } catch (std::exception& e) {
      report(name+".unexpected-exception",std::string("exception escaped from a valid operation: ")+e.what());
    } catch (...) {
      report(name+".unexpected-exception","unknown exception escaped from a valid operation");
    }
    alarm(0);
    ++done;
    if (S.cur_viols>=8 && !S.keep_going) break;
  }
  auto t1 = std::chrono::steady_clock::now();
  std::lock_guard<std::mutex> g(S.mtx);
  auto& ss = S.subs[name];
  ss.cases += done; ss.checks += S.checks.load()-c0; ss.wall += std::chrono::duration<double>(t1-t0).count();
}

inline int finish () {
  write_out();
  if (!st().out.empty()) {   // the hashes of the distinct non-trivial cases, for the union over runs
    std::ofstream d(st().out+".distinct",std::ios::binary);
    for (uint64_t h : st().distinct) d.write(reinterpret_cast<const char*>(&h),8);
  }
  auto& S = st();
  if (S.progress) snprintf(S.progress,4000,"done\n");
  return S.nviols>0 ? 1 : 0;
}

#define VM_CHECK(cond,key,msg)                                            \
  do { ::vm::st().checks++;                                               \
    if (!(cond)) { std::ostringstream vm_os_; vm_os_.precision(17); vm_os_ << msg; ::vm::report(key,vm_os_.str()); } \
  } while (0)

// Did calling f throw?
template<typename F>
bool throws (F f) {
  try { f(); } catch (...) { return true; }
  return false;
}
// 0: no exception; 1: std::exception (what in msg); 2: something else
template<typename F>
int outcome (F f, std::string* msg=nullptr) {
  try { f(); } catch (std::exception& e) { if (msg) *msg = e.what(); return 1; } catch (...) { return 2; }
  return 0;
}

template<typename T>
std::string str (const T& t) { std::ostringstream o; o.precision(17); o << t; return o.str(); }
template<typename It>
std::string join (It b, It e, const char* sep=",") {
  std::ostringstream o; o.precision(17); bool f=true;
  for (; b!=e; ++b) { o << (f?"":sep) << *b; f=false; }
  return o.str();
}
template<typename C>
std::string list (const C& c) { return "[" + join(c.begin(),c.end()) + "]"; }

template<typename T>
bool same_bits (const T& a, const T& b) { return std::memcmp(&a,&b,sizeof(T))==0; }
// Equal as values, where all NaNs are one value (and +0 == -0)
template<typename T>
bool same_val (T a, T b) {
  if constexpr (std::is_floating_point_v<T>) return (a==b) || (std::isnan(a) && std::isnan(b));
  else return a==b;
}

// Exec this very program again with extra args and collect status+output (for actions that must
// abort or write to the console). Runs with the given extra arguments only.
struct ChildResult { int status=-1; bool signaled=false; int sig=0; std::string out, err; };
inline ChildResult run_self (const std::vector<std::string>& extra) {
  ChildResult r;
  int po[2], pe[2];
  if (pipe(po) || pipe(pe)) return r;
  std::vector<std::string> a; a.push_back(st().self);
  for (auto& e : extra) a.push_back(e);
  std::vector<char*> av; for (auto& s : a) av.push_back(const_cast<char*>(s.c_str())); av.push_back(nullptr);
  std::cout.flush(); std::cerr.flush(); fflush(nullptr);
  pid_t pid = vfork();
  if (pid==0) {
    dup2(po[1],1); dup2(pe[1],2); close(po[0]); close(pe[0]); close(po[1]); close(pe[1]);
    execv("/proc/self/exe",av.data());
    _exit(127);
  }
  close(po[1]); close(pe[1]);
  auto drain = [](int fd, std::string& s) { char b[4096]; ssize_t n; while ((n=read(fd,b,sizeof b))>0) s.append(b,n); close(fd); };
  drain(po[0],r.out); drain(pe[0],r.err);
  int s; waitpid(pid,&s,0);
  if (WIFEXITED(s)) r.status = WEXITSTATUS(s);
  if (WIFSIGNALED(s)) { r.signaled=true; r.sig=WTERMSIG(s); }
  return r;
}

} // namespace vm

#endif
