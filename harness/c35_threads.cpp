// C35: what a thread does with EKAT's host facilities, on its own objects or reading shared ones, gives what it gives
// when done alone, whatever other threads do at the same time.
#include "units_oracle.hpp"
#include "plist_model.hpp"
#include "ekat_yaml.hpp"
#include "ekat_string_utils.hpp"
#include "ekat_factory.hpp"
#include "ekat_fpe.hpp"
#include "ekat_arch.hpp"
#include "ekat_zip.hpp"
#include "ekat_std_map_key_iterator.hpp"
#include <thread>
#include <cfenv>
#include <fstream>
#include <unistd.h>
using vm::Rng; using std::string; using namespace ekat;
using PLst = ekat::ParameterList;

static string scratch () { const char* s = getenv("VMON_SCRATCH"); return s ? s : "/tmp"; }

struct Base { virtual ~Base() = default; string what; };
template<int N> static std::shared_ptr<Base> make (const int i, const string s) { auto b=std::make_shared<Base>(); b->what=std::to_string(N)+"/"+std::to_string(i)+"/"+s; return b; }
using Fac = ekat::Factory<Base,string,std::shared_ptr<Base>,int,string>;
using CFac = ekat::Factory<Base,ekat::CaseInsensitiveString,std::shared_ptr<Base>,int,string>;
static std::shared_ptr<Base> cmake2 (const int i, const string s) { return make<2>(i,s); }

// What the threads share, and only read
struct Shared { PLst list; std::map<string,int> map; std::vector<units::Units> us; string text; };

static string word (Rng& r, int n) { string s; while (n-->0) s += r.pick(string("abcdeABCDE_-. ,xyz0123456789")); return s; }
static string hex (double d) { char b[40]; snprintf(b,40,"%a",d); return b; }
static string nested (Rng& r, int d) { string s="["; for (int i=0,n=(int)r.range(1,4);i<n;++i) { if (i) s+=','; s += d>0 && r.chance(0.4) ? nested(r,d-1) : "v"+std::to_string(r.range(0,99)); } return s+"]"; }
static string caught (const string& m) { auto p=m.find("BACKTRACE"); return "!"+m.substr(0,p); }
template<typename F> static string attempt (F f) { try { return f(); } catch (std::exception& e) { return caught(e.what()); } }
static string print (const PLst& l) { std::ostringstream os; l.print(os,1,2); return os.str(); }
static void fill (Rng& r, PLst& l, int d) {
  for (int i=0,n=(int)r.range(1,5);i<n;++i) { string k="k"+std::to_string(r.range(0,6));
    switch (r.range(0,6)) { case 0: l.set(k,(int)r.range(-99,99)); break; case 1: l.set(k,(double)r.range(-99,99)/4); break; case 2: l.set(k,r.chance(0.5)); break; case 3: l.set(k,"w "+word(r,(int)r.range(0,30))); break;
      case 4: l.set(k,std::vector<int>((size_t)r.range(1,4),(int)r.range(0,9))); break; case 5: l.set(k,std::vector<string>((size_t)r.range(1,4),"s"+word(r,3)+"e")); break; default: l.set(k,std::vector<double>((size_t)r.range(1,4),(double)r.range(0,9)+0.5)); } }
  if (d>0) for (int i=0,n=(int)r.range(0,2);i<n;++i) fill(r,l.sublist("s"+std::to_string(i)),d-1);
}

struct Unwinder { ~Unwinder () { EKAT_REQUIRE_MSG(false,"suppressed"); } };

static const char* KIND[] = {"strings","tokens","similarity","nested lists","own list","shared list","units","yaml","factory","checks","case-insensitive","zip and keys","floating-point traps","platform"};
static const int NK = 14;
// One step of a thread; everything observed is in the text
static string step (int kind, Rng& r, const Shared& sh, int me) {
  string o;
  switch (kind) {
    case 0: { string s=word(r,(int)r.range(0,60)), t=s; ekat::strip(t,'a'); o=t+"|"+ekat::trim(s)+"|"+ekat::upper_case(s)+"|"+ekat::strint("id",(int)r.range(0,999));
      for (auto& p : ekat::split(s,',')) o+="<"+p+">"; for (auto& p : ekat::split(s,"a,")) o+="{"+p+"}"; auto v=ekat::split(s," "); o+=ekat::join(v,"+")+(ekat::starts_with(s,"a")?"y":"n"); break; }
    case 1: for (auto& t : ekat::gather_tokens(word(r,(int)r.range(0,60)),{',',' ','_'},r.chance(0.5)?"ab":"")) o+="<"+t+">"; break;
    case 2: { string a=word(r,(int)r.range(0,40)), b=r.chance(0.5)?a+word(r,4):word(r,30); o=hex(ekat::jaro_similarity(a,b))+" "+hex(ekat::jaro_winkler_similarity(a,b))+" "+hex(ekat::jaccard_similarity(a,b,{' ',','})); break; }
    case 3: { string s=nested(r,3); if (r.chance(0.3)) s[(size_t)r.range(0,(int)s.size()-1)]=','; o=attempt([&]{ return print(ekat::parse_nested_list(s)); })+(ekat::valid_nested_list_format(s)?"v":"x"); break; }
    case 4: { PLst a("a"), b("b"); fill(r,a,2); fill(r,b,2); PLst c(a); c.import(b); b=c; b.sublist("s0")=a; o=print(a)+print(b)+print(c); for (auto& k : c.param_names()) o+=attempt([&]{ return std::to_string(c.get<int>(k)); }); break; }
    case 5: { auto& l=sh.list; o=print(l); auto& e=l.get<std::vector<int>>("none"); auto& f=l.get<std::vector<string>>("none"); o+=std::to_string(e.size())+std::to_string(f.size()); for (auto& k : l.param_names()) o+=attempt([&]{ return hex(l.get<double>(k)); })+(l.isType<bool>(k)?"b":"-");
      PLst c(l); c.set("mine",me*0+1); c.get<std::vector<double>>("none").push_back(2); o+=print(c)+attempt([&]{ return print(l.sublist("s0")); }); break; }
    case 6: { auto a=random_unit(r,2); auto& x=sh.us[(size_t)r.range(0,(int)sh.us.size()-1)]; o=a.how+"="+a.u.to_string()+"|"+a.u.get_si_string()+"|"+(a.u==a.u?"1":"0")+(x==x?"1":"0")+x.to_string()+x.get_si_string();
      o+=attempt([&]{ ekat::RationalConstant q((long long)r.range(-9,9),(long long)r.range(-1,9)); return q.to_string()+q.to_string(ekat::Format::Float); }); break; }
    case 7: { string f=scratch()+"/c35_"+std::to_string(getpid())+"_"+std::to_string(me)+".yaml"; PLst a("doc"); fill(r,a,2); o=attempt([&]{ ekat::write_yaml_file(f,a); std::ifstream is(f); std::stringstream ss; ss<<is.rdbuf(); auto l=ekat::parse_yaml_file(f); l.rename("doc"); return ss.str()+print(l); });
      if (r.chance(0.3)) { std::ofstream(f)<<"a: [1\nb: }"; o+=attempt([&]{ ekat::parse_yaml_file(f); return string("accepted"); }).substr(0,1); } unlink(f.c_str()); break; }
    case 8: { static const char* K[]={"one","two","Three","none"}; int i=(int)r.range(0,99); string s=word(r,20), k=r.pick(K); o=attempt([&]{ return Fac::instance().create(k,std::move(i),string(s))->what; }); int j=(int)r.range(0,9); o+=attempt([&]{ return CFac::instance().create(k,std::move(j),string(s))->what; });
      o+=Fac::name()+std::to_string(Fac::instance().register_size())+(CFac::instance().has_product("THREE")?"y":"n"); break; }
    case 9: { int x=(int)r.range(0,9); o=attempt([&]{ EKAT_REQUIRE_MSG(x<5,"x is "<<x<<" of "<<sh.text); return string("held"); }); o+=attempt([&]{ EKAT_REQUIRE(x<3,"x",std::invalid_argument); return string("held"); });
      if (r.chance(0.2)) o+=attempt([&]{ Unwinder u; EKAT_ERROR_MSG("first "<<x); return string("no"); }); break; }
    case 10: { ekat::CaseInsensitiveString a(word(r,(int)r.range(0,6))), b(r.chance(0.5)?ekat::upper_case(a):word(r,4)); o=string(a==b?"=":"!")+(a<b?"<":"")+(a<=b?"<=":""); std::map<ekat::CaseInsensitiveString,int> m; for (int i=0;i<6;++i) m[word(r,2)]++; for (auto& p : m) o+=ekat::upper_case(p.first)+std::to_string(p.second); break; }
    case 11: { std::vector<int> v((size_t)r.range(1,9)); std::vector<string> w(v.size(),"q"); int n=0; for (auto t : ekat::zip(v,w)) { std::get<0>(t)=++n; std::get<1>(t)+=std::to_string(n); } for (auto& s : w) o+=s; ekat::map_key_const_iterator<std::map<string,int>> b(sh.map.begin()), e(sh.map.end()); for (;b!=e;++b) o+=*b; break; }
    case 12: { const int m=(r.chance(0.5)?FE_INVALID:0)|(r.chance(0.5)?FE_DIVBYZERO:0)|(r.chance(0.5)?FE_OVERFLOW:0); ekat::enable_fpes(m); o=std::to_string(ekat::get_enabled_fpes())+ekat::fpe_config_string(); std::this_thread::yield(); o+=std::to_string(ekat::get_enabled_fpes()); ekat::disable_fpes(m); o+=std::to_string(ekat::get_enabled_fpes())+ekat::fpe_config_string(); ekat::disable_all_fpes(); break; }
    default: o=ekat::active_avx_string()+ekat::compiler_id_string();
  }
  return o;
}

int main (int argc, char** argv) {
  vm::init(argc,argv);
  // what a failing check says while the stack unwinds goes to std::cerr, which threads may share
  struct Null : std::streambuf { int overflow (int c) override { return c==EOF?0:c; } std::streamsize xsputn (const char*, std::streamsize n) override { return n; } };
  static Null null; auto* old = std::cerr.rdbuf(&null);
  Fac::instance().register_product("one",make<0>); Fac::instance().register_product("two",make<1>); Fac::instance().register_product("Three",make<2>);
  CFac::instance().register_product("one",make<0>); CFac::instance().register_product("Three",cmake2);
  std::vector<double> freq(NK);
  vm::sub("threads",vm::ncases(160,6000),[&](Rng& r, long long ic) {
    Shared sh; fill(r,sh.list,2); sh.list.sublist("s0"); sh.list.set("none",PLst::EmptySeq()); for (int i=0;i<5;++i) { sh.map[word(r,3)]=i; sh.us.push_back(random_unit(r,1).u); } sh.text=word(r,20);
    const int nt=(int)r.range(2,6), ns=(int)r.range(3,25), focus=(int)(ic%(NK+4));    // one kind at a time, or all
    std::vector<std::vector<int>> kinds((size_t)nt); std::vector<std::vector<uint64_t>> seeds((size_t)nt);
    std::vector<std::vector<string>> seen((size_t)nt), alone((size_t)nt);
    for (int t=0;t<nt;++t) for (int s=0;s<ns;++s) { kinds[t].push_back(focus<NK && r.chance(0.8) ? focus : (int)r.range(0,NK-1)); seeds[t].push_back(r.u64()); }
    const bool same=r.chance(0.3); if (same) for (int t=1;t<nt;++t) kinds[t]=kinds[0], seeds[t]=seeds[0];
    std::atomic<int> ready{0}; std::vector<std::thread> th; std::atomic<int> running{0}, most{0};
    for (int t=0;t<nt;++t) th.emplace_back([&,t]{
      ready.fetch_add(1,std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed)<nt) std::this_thread::yield();
      int n=1+running.fetch_add(1,std::memory_order_relaxed); int m=most.load(std::memory_order_relaxed); while (n>m && !most.compare_exchange_weak(m,n,std::memory_order_relaxed)) {}
      for (int s=0;s<ns;++s) { Rng q(seeds[t][s]); seen[t].push_back(step(kinds[t][s],q,sh,t)); }
      running.fetch_sub(1,std::memory_order_relaxed); });
    for (auto& t : th) t.join();
    for (int t=0;t<nt;++t) for (int s=0;s<ns;++s) {
      Rng q(seeds[t][s]); string want=step(kinds[t][s],q,sh,t);
      VM_CHECK(seen[t][s]==want,"same-as-alone",KIND[kinds[t][s]]<<": one of "<<nt<<" threads saw '"<<seen[t][s].substr(0,300)<<"', alone it is '"<<want.substr(0,300)<<"'");
      vm::count(string("steps.")+KIND[kinds[t][s]]); vm::nontrivial(vm::mix(seeds[t][s])+kinds[t][s]);
    }
    vm::count("steps",(long long)nt*ns); if (most>1) vm::count("overlapping_groups"); vm::count_max("most_at_once",most);
    vm::sample(std::to_string(nt)+" threads of "+std::to_string(ns)+" steps"+(focus<NK?string(", mostly ")+KIND[focus]:""));
  });
  std::cerr.rdbuf(old);
  return vm::finish();
}
