// C13: a factory makes what was registered last under a key, and refuses unknown keys by name; the test session sorts
// its arguments by the documented rules, and a test executable fails iff one of its tests does.
#include "vmon.hpp"
#include "ekat_factory.hpp"
#include "ekat_string_utils.hpp"
#include "ekat_test_utils.hpp"
#include "ekat_fpe.hpp"
#include <cfenv>
#include <memory>
#include <random>
#include <algorithm>
#include "ekat_comm.hpp"
#include <mpi.h>
#define main ekat_catch_entry
#include "ekat_catch_main.cpp"
#undef main
using vm::Rng; using std::string;

static string enc (const string& s) { string o; char b[4]; for (unsigned char c : s) { snprintf(b,4,"%02x",c); o+=b; } return o+"."; }
static string dump (ekat::TestSession& t) {
  string o="F:"; for (auto& f : t.flags) o+=enc(f.first)+(f.second?"1;":"0;");
  o+="P:"; for (auto& p : t.params) o+=enc(p.first)+enc(p.second)+";";
  o+="V:"; for (auto& v : t.vec_params) { o+=enc(v.first); for (auto& x : v.second) o+=enc(x); o+=";"; }
  return o+"\n";
}
TEST_CASE("show") { printf("DUMP %s",dump(ekat::TestSession::get()).c_str()); printf("FPE %d\n",ekat::get_enabled_fpes()); REQUIRE(true); }
TEST_CASE("pass_a") { REQUIRE(1+1==2); CHECK(true); }
TEST_CASE("pass_b") { SECTION("x") { REQUIRE(true); } SECTION("y") { REQUIRE(true); } }
TEST_CASE("fail_check") { CHECK(1+1==3); CHECK(true); }
TEST_CASE("fail_require") { REQUIRE(1+1==3); }
TEST_CASE("fail_throw") { throw std::runtime_error("x"); }
TEST_CASE("fail_section") { SECTION("x") { REQUIRE(true); } SECTION("y") { REQUIRE(false); } }

struct Base { virtual ~Base() = default; int id=-1, i=0; string s; double* d=nullptr; };
static int g_made[16]; static int g_calls;
template<typename P, typename... A> struct Maker { template<int N> static P make (const A... a) {
  ++g_made[N]; ++g_calls; Base* b=new Base; b->id=N;
  auto take=[&](const auto& x){ using X=std::decay_t<decltype(x)>; if constexpr (std::is_same_v<X,int>) b->i=x; else if constexpr (std::is_same_v<X,string>) b->s=x; else b->d=x; };
  (take(a),...); return P(b);
} };
template<typename P> Base* raw (P& p) { if constexpr (std::is_pointer_v<P>) return p; else return p.get(); }

template<typename K, typename P, typename... A, typename Mk>
void factory_history (const char* name, Rng& r, const std::vector<K>& keys, bool fold, Mk call, bool args_used) {
  using F=ekat::Factory<Base,K,P,A...>; auto& f=F::instance(); VM_CHECK(&f==&F::instance(),"singleton",""); f.clean_up();
  typename F::creator_type mk[6]={&Maker<P,A...>::template make<0>,&Maker<P,A...>::template make<1>,&Maker<P,A...>::template make<2>,&Maker<P,A...>::template make<3>,&Maker<P,A...>::template make<4>,&Maker<P,A...>::template make<5>};
  auto norm=[&](const K& k){ string s(k); if (fold) for (auto& c : s) c=(char)toupper(c); return s; };
  std::map<string,int> model; string log;
  for (int n=(int)r.range(3,30);n>0;--n) {
    const K key=r.pick(keys); const string nk=norm(key); auto it=model.find(nk);
    switch (r.range(0,6)) {
      case 0: case 1: case 2: { const int c=(int)r.range(0,5); const int rep=(int)r.range(0,2); bool got = rep==2 ? f.register_product(key,mk[c]) : f.register_product(key,mk[c],rep==1);
        const bool want=it==model.end()||rep==1; log+="register "+string(key)+"="+std::to_string(c)+(rep==1?" (replace)":"")+"; ";
        VM_CHECK(got==want,"register-result",name<<": "<<log<<"returned "<<got); if (want) model[nk]=c; else vm::count("kept_first"); if (it!=model.end()&&rep==1) vm::count("replaced"); break; }
      case 3: case 4: case 5: { std::fill(g_made,g_made+16,0); g_calls=0; int i=(int)r.range(-100,100); string s="arg"+std::to_string(i*7); double d=i; P p{}; string msg;
        log+="create "+string(key)+"; ";
        int o=vm::outcome([&]{ p=call(f,key,i,s,&d); },&msg);
        if (it==model.end()) { VM_CHECK(o==1 && g_calls==0,"unknown",name<<": "<<log<<"gave "<<(o?"another error":"an object"));
          if (!model.empty()) { string um=msg; if (fold) for (auto& c : um) c=(char)toupper(c); bool all=um.find(nk)!=string::npos; for (auto& q : model) if (um.find(q.first)==string::npos) all=false; VM_CHECK(all,"unknown-message","the error does not name the key and the registered products: "<<msg); }
          vm::count("unknown_keys"); }
        else { VM_CHECK(o==0,"create",name<<": "<<log<<"threw "<<msg); if (o==0) { Base* b=raw(p); VM_CHECK(b && b->id==it->second && g_made[it->second]==1 && g_calls==1,"create",name<<": "<<log<<"made "<<(b?b->id:-1)<<" with "<<g_calls<<" creator calls, should be "<<it->second);
          if (args_used && b) VM_CHECK(b->i==i && b->s==s && b->d==&d,"arguments",name<<": the creator got "<<b->i<<", '"<<b->s<<"'"); vm::count("created"); } }
        if constexpr (std::is_pointer_v<P>) delete p; break; }
      default: if (r.chance(0.2)) { f.clean_up(); model.clear(); log+="clean; "; }
    }
    VM_CHECK(f.register_size()==model.size(),"size",name<<": "<<log<<"has "<<f.register_size()<<" products, should be "<<model.size());
    for (auto& k : keys) VM_CHECK(f.has_product(k)==(model.count(norm(k))>0),"has",name<<": "<<log<<"has_product("<<string(k)<<")="<<f.has_product(k));
  }
  vm::nontrivial(log); vm::sample(log);
}

// Products registered before main, as libraries do
using StaticFactory = ekat::Factory<Base,string,std::unique_ptr<Base>,double*>;
using OtherFactory = ekat::Factory<Base,string,Base*>;
static const bool g_static_first = StaticFactory::instance().register_product("first",&Maker<std::unique_ptr<Base>,double*>::make<1>);
static const bool g_static_second = StaticFactory::instance().register_product("second",&Maker<std::unique_ptr<Base>,double*>::make<2>);
static const bool g_static_again = StaticFactory::instance().register_product("first",&Maker<std::unique_ptr<Base>,double*>::make<3>);

// Keys of any ordered type: numbers, and types that cannot be printed
enum class Color { red=0, green=1, blue=2, none=7 };
struct Pair { int a, b; bool operator< (const Pair& o) const { return a!=o.a ? a<o.a : b<o.b; } };
template<typename K> void other_keys (const char* name, Rng& r, const std::vector<K>& keys, bool printed) {
  using F=ekat::Factory<Base,K,std::unique_ptr<Base>,int>; auto& f=F::instance(); f.clean_up();
  typename F::creator_type mk[3]={&Maker<std::unique_ptr<Base>,int>::template make<0>,&Maker<std::unique_ptr<Base>,int>::template make<1>,&Maker<std::unique_ptr<Base>,int>::template make<2>};
  std::map<size_t,int> model;
  for (int n=(int)r.range(2,15);n>0;--n) { size_t k=(size_t)r.range(0,(int)keys.size()-1);
    if (r.chance(0.5)) { int c=(int)r.range(0,2); bool rep=r.chance(0.3), got=f.register_product(keys[k],mk[c],rep); VM_CHECK(got==(rep||!model.count(k)),"register-result",name<<": returned "<<got); if (got) model[k]=c; }
    else { string msg; std::unique_ptr<Base> p; int i=n; int o=vm::outcome([&]{ p=f.create(keys[k],std::move(i)); },&msg);
      VM_CHECK(o==(model.count(k)?0:1),"create",name<<": outcome "<<o<<" for key "<<k<<": "<<msg);
      if (p) VM_CHECK(p->id==model[k] && p->i==n,"create",name<<": made "<<p->id<<" with "<<p->i);
      if constexpr (std::is_arithmetic_v<K>) { if (o==1 && printed && !model.empty()) for (auto& q : model) { std::ostringstream os, ow; os<<keys[k]; ow<<keys[q.first]; VM_CHECK(msg.find(os.str())!=string::npos && msg.find(ow.str())!=string::npos,"unknown-message","the error does not name the key and the registered products: "<<msg); } }
      vm::count("other_keys"); }
    VM_CHECK(f.register_size()==model.size(),"size",name<<": "<<f.register_size());
    for (size_t q=0;q<keys.size();++q) VM_CHECK(f.has_product(keys[q])==(model.count(q)>0),"has",name<<": key "<<q); }
}

// Documented rules of the test arguments
struct ArgModel { std::map<string,bool> flags; std::map<string,string> params; std::map<string,std::vector<string>> vec; };

int main (int argc, char** argv) {
  if (getenv("VMON_AS_CATCH")) { unsetenv("VMON_AS_CATCH"); return ekat_catch_entry(argc,argv); }
  vm::init(argc,argv);
  vm::sub("factory",vm::ncases(6000,200000),[&](Rng& r, long long) {
    std::vector<string> ks{"a","b","A","abc","product with spaces","","x1"}; 
    std::vector<ekat::CaseInsensitiveString> ci{"alpha","ALPHA","Beta","beta","gAmma","g"};
    switch (r.range(0,3)) {
      case 0: factory_history<string,std::shared_ptr<Base>>("shared",r,ks,false,[](auto& f, auto& k, int, const string&, double*){ return f.create(k); },false); break;
      case 1: factory_history<string,std::unique_ptr<Base>,int,string,double*>("unique with arguments",r,ks,false,[](auto& f, auto& k, int i, const string& s, double* d){ return f.create(k,std::move(i),string(s),std::move(d)); },true); break;
      case 2: factory_history<ekat::CaseInsensitiveString,std::shared_ptr<Base>,const int&,const string&,double*>("case-insensitive, reference arguments",r,ci,true,[](auto& f, auto& k, int i, const string& s, double* d){ return f.create(k,i,s,std::move(d)); },true); break;
      default: factory_history<string,Base*,string,double*,int>("raw",r,ks,false,[](auto& f, auto& k, int i, const string& s, double* d){ return f.create(k,string(s),std::move(d),std::move(i)); },true);
    }
  });
  vm::sub("static_registration",1,[&](Rng&, long long) {
    const string nm=StaticFactory::name();   // as left by the registrations
    auto& f=StaticFactory::instance(); VM_CHECK(nm==StaticFactory::name(),"name","before any other use, the factory with products registered before main is called '"<<nm<<"'");
    VM_CHECK(g_static_first && g_static_second && !g_static_again && f.register_size()==2,"static","products registered before main: "<<f.register_size());
    double d; for (int k=1;k<3;++k) { auto dp=&d; auto p=f.create(k==1?"first":"second",std::move(dp)); VM_CHECK(p && p->id==k && p->d==&d,"static","the product registered before main is another"); }
    string msg; auto dp=&d; VM_CHECK(vm::outcome([&]{ f.create("third",std::move(dp)); },&msg)==1 && msg.find("third")!=string::npos && msg.find("first")!=string::npos && msg.find("second")!=string::npos,"static","the error is "<<msg);
    VM_CHECK(!StaticFactory::name().empty() && StaticFactory::name()!=OtherFactory::name() && msg.find(StaticFactory::name())!=string::npos,"name","the factory is called '"<<StaticFactory::name()<<"', its error is "<<msg);
  });
  vm::sub("other_keys",vm::ncases(3000,60000),[&](Rng& r, long long) {
    switch (r.range(0,4)) { case 0: other_keys<int>("int",r,{-5,0,42,1000003,7},true); break; case 1: other_keys<Color>("enum",r,{Color::red,Color::green,Color::blue,Color::none},false); break;
      case 2: other_keys<Pair>("struct",r,{{1,2},{2,1},{1,1},{0,9}},false); break; case 3: other_keys<double>("double",r,{0.5,-2.25,1024.0},true); break; default: other_keys<char>("char",r,{'q','#','Z'},true); }
  });
  auto word=[](Rng& r){ static const char* w[]={"foo","b","val1","3","1e-5","x.y","UP","with space","9","p/q","a-b","true"}; return string(r.pick(w)); };
  auto kname=[](Rng& r){ static const char* w[]={"s","long","p1","key-x","K","n"}; return string(r.pick(w)); };
  // Arguments drawn from the documented forms, with what they mean
  auto gen=[&](Rng& r, ArgModel& m, std::vector<string>& a) {
    for (int n=(int)r.range(1,6);n>0;--n) { string k=kname(r), ks=(r.chance(0.5)?"-":"--")+k; const int nv=(int)r.range(0,3);
      if (nv==0) { a.push_back(ks); m.flags[k]=true; continue; }
      std::vector<string> v; for (int i=0;i<nv;++i) v.push_back(word(r));
      size_t i=0; if (r.chance(0.4)) { string t=ks+"="; size_t l=(size_t)r.range(1,nv); for (;i<l;++i) t+=(i?",":"")+v[i]; a.push_back(t); } else a.push_back(ks);
      while (i<v.size()) { size_t l=(size_t)r.range(1,v.size()-i); string t; for (size_t e=0;e<l;++e,++i) t+=(e?",":"")+v[i]; a.push_back(t); }
      auto& mv=m.vec[k]; mv.insert(mv.end(),v.begin(),v.end()); }
    m.params.clear(); for (auto& it : m.vec) if (it.second.size()==1) m.params[it.first]=it.second[0];
  };
  auto call=[&](const std::vector<string>& a) { std::vector<string> copy=a; std::vector<char*> c; for (auto& s : copy) c.push_back(s.data()); ekat::TestSession::get().parse_test_args(c); VM_CHECK(copy==a,"args-changed","the arguments were modified"); };
  auto& ts=ekat::TestSession::get();
  auto same=[&](const ArgModel& m){ return ts.flags==m.flags && ts.params==m.params && ts.vec_params==m.vec; };
  vm::sub("arguments",vm::ncases(20000,500000),[&](Rng& r, long long) {
    ts.flags.clear(); ts.params.clear(); ts.vec_params.clear(); ArgModel m; string log;
    for (int calls=(int)r.range(1,2);calls>0;--calls) { std::vector<string> a; if (!r.chance(0.02)) gen(r,m,a); call(a); for (auto& s : a) log+="'"+s+"' "; log+="; ";
      VM_CHECK(same(m),"arguments",log<<"gives "<<dump(ts)); }
    vm::count("argument_lists"); vm::nontrivial(log); vm::sample(log);
    std::vector<string> bad; string why; ArgModel x; gen(r,x,bad);
    switch (r.range(0,5)) {
      case 0: bad.insert(bad.begin(),word(r)); why="a value first"; break;
      case 1: bad.insert(bad.begin()+r.range(0,bad.size()),"-k=a=b"); why="two ="; break;
      case 2: bad.insert(bad.begin()+r.range(0,bad.size()),"k=a"); why="a value with ="; break;
      case 3: bad.insert(bad.begin()+r.range(1,bad.size()),"a,-b"); why="a key in a list"; break;
      case 4: bad.insert(bad.begin()+r.range(0,bad.size()),"--k=a,-b"); why="a key in a list"; break;
      default: bad.insert(bad.begin()+r.range(0,bad.size()),"--k=-b"); why="a key as value"; }
    string all; for (auto& s : bad) all+="'"+s+"' ";
    VM_CHECK(vm::outcome([&]{ call(bad); })==1,"refused-arguments",all<<"("<<why<<") was accepted"); vm::count("refused_argument_lists");
    VM_CHECK(same(m),"refused-arguments-state",all<<"was refused but changed the session");
  });
  vm::sub("argv_matches",vm::ncases(5000,50000),[&](Rng& r, long long) {
    string so="-"+kname(r), lo="--"+kname(r)+"x"; string s; switch (r.range(0,5)) { case 0: s=so; break; case 1: s=lo; break; case 2: s="-"+so; break; case 3: s="-"+lo; break; case 4: s=so.substr(1); break; default: s="-"+kname(r); }
    const bool want = s==so||s==lo||s=="-"+so; VM_CHECK(ekat::argv_matches(s,so,lo)==want,"argv-matches","'"<<s<<"' for "<<so<<", "<<lo); vm::nontrivial(s+so+lo); });
  vm::sub("random_array",vm::ncases(500,5000),[&](Rng& r, long long) {
    const int n=(int)r.range(0,50); std::vector<double> x(n+2,-7), y(n); std::mt19937_64 e(r.u64()), e2=e; std::uniform_real_distribution<double> d(0,1), d2=d;
    ekat::genRandArray(x.data()+1,n,e,d); for (auto& v : y) v=d2(e2); bool ok=x[0]==-7&&x[n+1]==-7; for (int i=0;i<n;++i) ok=ok&&x[i+1]==y[i]; VM_CHECK(ok,"random-array",n<<" entries"); });
  vm::sub("test_main",vm::ncases(40,600),[&](Rng& r, long long ic) {
    static const char* T[]={"show","pass_a","pass_b","fail_check","fail_require","fail_throw","fail_section"};
    string spec; bool fails=false, show=false; for (int i=0;i<7;++i) if (i==0 ? ic%4!=3 : (i<3 ? r.chance(0.4) : r.chance(ic%2?0.35:0))) { spec+=string(spec.empty()?"":",")+T[i]; fails=fails||i>2; show=show||i==0; }
    if (spec.empty()) spec="pass_a";
    std::vector<string> a{spec}; if (r.chance(0.3)) a.push_back("-s"); if (r.chance(0.2)) { a.push_back("-d"); a.push_back("yes"); }
    ArgModel m; const int bad=ic%10==9; 
    if (r.chance(0.8)||bad) { a.push_back("--args"); std::vector<string> g; gen(r,m,g); if (bad) g.insert(g.begin(),"value"); a.insert(a.end(),g.begin(),g.end()); }
    ts.flags=m.flags; ts.params=m.params; ts.vec_params=m.vec; const string want=dump(ts);
    setenv("VMON_AS_CATCH","1",1); auto c=vm::run_self(a); unsetenv("VMON_AS_CATCH");
    string all; for (auto& s : a) all+="'"+s+"' ";
    const bool failed=c.signaled||c.status!=0;
    VM_CHECK(failed==(fails||bad),"exit-status",all<<"ended with "<<(c.signaled?"a signal":std::to_string(c.status))<<", should "<<(fails||bad?"fail":"succeed")<<": "<<c.out.substr(0,300)<<c.err.substr(0,600));
    if (show && !bad) { auto p=c.out.find("DUMP "); VM_CHECK(p!=string::npos && c.out.compare(p+5,want.size(),want)==0,"session","the test saw "<<(p==string::npos?"nothing":c.out.substr(p,200))<<" for "<<all);
      p=c.out.find("FPE "); VM_CHECK(p!=string::npos && atoi(c.out.c_str()+p+4)==(FE_DIVBYZERO|FE_INVALID|FE_OVERFLOW),"default-fpe","the test ran with FPE mask "<<(p==string::npos?"?":c.out.substr(p+4,8))); vm::count("sessions_seen"); }
    vm::count(fails?"failing_executables":"passing_executables"); vm::nontrivial(all);
  });
  return vm::finish();
}
