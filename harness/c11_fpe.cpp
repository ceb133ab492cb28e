// C11: after any history of enabling and disabling, exactly the floating-point exceptions enabled last trap, what is
// reported equals that set, and flags raised earlier trap nothing.
#include "vmon.hpp"
#include "ekat_fpe.hpp"
#include <cfenv>
using vm::Rng; using std::string;
static const int FL[5]={FE_INVALID,FE_DIVBYZERO,FE_OVERFLOW,FE_UNDERFLOW,FE_INEXACT};
static const char* FN[5]={"FE_INVALID","FE_DIVBYZERO","FE_OVERFLOW","FE_UNDERFLOW","FE_INEXACT"};
static string mname (int m) { string s; for (int i=0;i<5;++i) if (m&FL[i]) s+=string(s.empty()?"":"|")+FN[i]; return s.empty()?"none":s; }
static int rmask (Rng& r) { int m=0; switch (r.range(0,5)) { case 0: return FE_ALL_EXCEPT; case 1: return 0; case 2: return FL[r.range(0,4)]; default: for (int f : FL) if (r.range(0,1)) m|=f; return m; } }
struct Op { int what, mask; };
static void apply (const Op& o) { if (o.what==0) ekat::enable_fpes(o.mask); else if (o.what==1) ekat::disable_fpes(o.mask); else ekat::disable_all_fpes(); }
static int model (const Op& o, int m) { return o.what==0 ? m|o.mask : o.what==1 ? m&~o.mask : 0; }
static std::vector<Op> ops (Rng& r, int n) { std::vector<Op> v; for (int i=0;i<n;++i) { int w=(int)r.range(0,9); v.push_back({w<5?0:w<9?1:2,rmask(r)}); } return v; }
static string show (const std::vector<Op>& v) { string s; for (auto& o : v) s += string(o.what==0?"enable ":o.what==1?"disable ":"disable all ")+(o.what==2?"":mname(o.mask))+"; "; return s; }

template<typename T> struct Lim;
template<> struct Lim<float>  { static float big() { return 3e38f; }  static float tiny() { return 2e-38f; } };
template<> struct Lim<double> { static double big() { return 1e308; } static double tiny() { return 3e-308; } };
template<> struct Lim<long double> { static long double big() { return 1e4932L; } static long double tiny() { return 4e-4932L; } };
// An operation that raises the named flags (and no others)
template<typename T> __attribute__((noinline)) int raise_flags (int k, volatile T& res) {
  volatile T zero=0, one=1, three=3, big=Lim<T>::big(), tiny=Lim<T>::tiny(), two=2;
  switch (k) {
    case 0: res = zero/zero; return FE_INVALID;
    case 1: res = one/zero; return FE_DIVBYZERO;
    case 2: res = big*big; return FE_OVERFLOW|FE_INEXACT;
    case 3: res = tiny*tiny; return FE_UNDERFLOW|FE_INEXACT;
    case 4: res = one/three; return FE_INEXACT;
    default: res = one/two+two*three; return 0;
  }
}
static int raise_any (int type, int k) {
  volatile float f; volatile double d; volatile long double l; int m=0;
  if (type==0) { m=raise_flags<float>(k,f); f=f+0.f; } else if (type==1) { m=raise_flags<double>(k,d); } else { m=raise_flags<long double>(k,l); asm volatile("fwait"); }
  return m;
}
static int flags_of (int k) { static const int m[6]={FE_INVALID,FE_DIVBYZERO,FE_OVERFLOW|FE_INEXACT,FE_UNDERFLOW|FE_INEXACT,FE_INEXACT,0}; return m[k]; }
static void on_fpe (int) { _exit(42); }

int main (int argc, char** argv) {
  vm::init(argc,argv);
  auto reset=[]{ feclearexcept(FE_ALL_EXCEPT); fedisableexcept(FE_ALL_EXCEPT); };
  vm::sub("mask",vm::ncases(20000,500000),[&](Rng& r, long long) {
    auto v=ops(r,(int)r.range(1,14)); std::vector<int> got(v.size()), raw(v.size()); std::vector<string> txt(v.size());
    for (size_t i=0;i<v.size();++i) { apply(v[i]); got[i]=ekat::get_enabled_fpes(); raw[i]=fegetexcept(); txt[i]=ekat::fpe_config_string(); }
    reset();
    int m=0;
    for (size_t i=0;i<v.size();++i) { m=model(v[i],m);
      VM_CHECK(raw[i]==m,"state","after "<<show(std::vector<Op>(v.begin(),v.begin()+i+1))<<"enabled are "<<mname(raw[i])<<", should be "<<mname(m));
      VM_CHECK(got[i]==m,"get","get_enabled_fpes gives "<<mname(got[i])<<", should be "<<mname(m));
      std::set<string> names, want; string w; for (char c : txt[i]+"|") { if (c=='|') { names.insert(w); w.clear(); } else if (!isspace((unsigned char)c)) w+=c; }
      for (int k=0;k<5;++k) if (m&FL[k]) want.insert(FN[k]); if (want.empty()) want.insert("NONE");
      VM_CHECK(names==want,"text","enabled are "<<mname(m)<<", described as '"<<txt[i]<<"'"); vm::nontrivial((uint64_t)m*64+(i?model(v[i-1],0):0)+1000*v[i].what+(uint64_t)v[i].mask*100000); }
    vm::count("histories"); vm::count("steps",(long long)v.size());
  });
  vm::sub("traps",vm::ncases(1500,20000),[&](Rng& r, long long ic) {
    auto v=ops(r,(int)r.range(1,6)); if (r.chance(0.3)) v.push_back({0,rmask(r)});
    int m=0; for (auto& o : v) m=model(o,m);
    const int k=(int)(ic%6), t=(int)(ic/6%3), stale=(int)r.range(0,1), sk=(int)r.range(0,4), st=(int)r.range(0,2); const bool expect=(flags_of(k)&m)!=0;
    std::cout.flush(); fflush(nullptr);
    const pid_t pid=fork();
    if (pid==0) {
      signal(SIGFPE,on_fpe); reset();
      // a flag raised before the last call that enables it must not trap: raise it while it is off
      int cur=0; for (size_t i=0;i<v.size();++i) { if (stale && !(flags_of(sk)&cur)) raise_any(st,sk); apply(v[i]); cur=model(v[i],cur);
        if (!cur) continue; asm volatile("fwait"); volatile double a=1.5, b; b=a+a; (void)b; volatile long double c=1.5L, d; d=c+c; (void)d; asm volatile("fwait"); }
      signal(SIGFPE,SIG_DFL); signal(SIGFPE,[](int){ _exit(43); });
      raise_any(t,k); asm volatile("fwait");
      _exit(0);
    }
    int s; waitpid(pid,&s,0); const int code = WIFEXITED(s) ? WEXITSTATUS(s) : -WTERMSIG(s);
    static const char* TN[3]={"float","double","long double"};
    VM_CHECK(code!=42,"stale","a flag raised before it was enabled ("<<mname(flags_of(sk))<<", "<<TN[st]<<") trapped in "<<show(v));
    if (code!=42) VM_CHECK(code==(expect?43:0),"trap",show(v)<<"then raising "<<mname(flags_of(k))<<" in "<<TN[t]<<(code==43?" trapped":code==0?" did not trap":" ended with "+std::to_string(code))<<", enabled are "<<mname(m));
    vm::count(expect?"traps_expected":"no_trap_expected"); if (stale) vm::count("with_earlier_flags"); vm::nontrivial((uint64_t)m*1000+k*10+t); vm::sample(show(v)+"raise "+mname(flags_of(k)));
  });
  return vm::finish();
}
