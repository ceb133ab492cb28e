// C10: checks evaluate their condition once, fail iff it is false with the asked exception type and a message that
// says what and where, assertions vanish in release builds, and no check throws while another exception unwinds.
#include "vmon.hpp"
#include "ekat_assert.hpp"
#include <thread>
using vm::Rng; using std::string;

struct StrEx { string m; explicit StrEx (const string& s) : m(s) {} };
struct DerEx : std::runtime_error { using std::runtime_error::runtime_error; };
struct DefEx { int tag=77; };
struct NoEx  { explicit NoEx (int, int) {} };

// What each thread writes to std::cerr goes to that thread's own text
static thread_local string t_err;
struct PerThreadBuf : std::streambuf {
  int overflow (int c) override { if (c!=EOF) t_err += (char)c; return c; }
  std::streamsize xsputn (const char* s, std::streamsize n) override { t_err.append(s,n); return n; }
};
static int occurrences (const string& s, const string& p) { int n=0; for (size_t i=s.find(p); i!=string::npos; i=s.find(p,i+p.size())) ++n; return n; }

struct Res { int kind=0; string msg; };   // 0 none 1 runtime_error 2 DerEx 3 invalid_argument 4 StrEx 5 DefEx 6 other
template<typename F> static Res run (F f) {
  Res r;
  try { f(); }
  catch (DerEx& e) { r.kind=2; r.msg=e.what(); }
  catch (std::invalid_argument& e) { r.kind=3; r.msg=e.what(); }
  catch (std::runtime_error& e) { r.kind=1; r.msg=e.what(); }
  catch (StrEx& e) { r.kind=4; r.msg=e.m; }
  catch (DefEx& e) { r.kind = e.tag==77 ? 5 : 6; }
  catch (...) { r.kind=6; }
  return r;
}
static string has (const Res& r, const string& msg, const string& cond, int line) {
  if (r.msg.find(msg)==string::npos) return "the message '"+msg+"'";
  if (r.msg.find(cond)==string::npos) return "the condition '"+cond+"'";
  if (r.msg.find("c10_assert.cpp")==string::npos) return "the file";
  if (r.msg.find(std::to_string(line))==string::npos) return "the line";
  return "";
}

static thread_local int t_checks_in_unwind = 0;
// A history: nested scopes, objects whose destructors run failing checks, throws of several origins
struct Tok { string id; };
struct History {
  Rng& r; bool armed=true;      // armed: the next suppressed failure must be announced
  bool armed_known=true; int next_id=0; int suppressed=0, thrown=0, announced=0; int depth=0;
  string fresh () { return "msg#"+std::to_string(next_id++)+"#"; }
  struct Cleanup { History& h; int nfail; bool nested_try;
    ~Cleanup () {
      const bool unwinding = std::uncaught_exceptions()>0;
      if (!unwinding) return;
      for (int i=0;i<nfail;++i) {
        string m = h.fresh(); t_err.clear(); bool threw=false, reached=false;
        if (nested_try) { try { EKAT_REQUIRE_MSG(i<0,m); reached=true; } catch (...) { threw=true; } }
        else { switch (i%4) {
          case 0: EKAT_REQUIRE_MSG(i<0,m); break; case 1: EKAT_ERROR_MSG(m); break;
          case 2: EKAT_REQUIRE(i<0,m,DerEx); break; default: EKAT_REQUIRE(i<0,m,DefEx); } reached=true; }
        VM_CHECK(reached && !threw,"suppress","a failing check threw while the stack was unwinding");
        const int said = occurrences(t_err,m);
        if (h.armed_known) VM_CHECK(said==(h.armed?1:0),"announce","failure "<<m<<" during unwinding was announced "<<said<<" times, should be "<<(h.armed?1:0)<<": '"<<t_err<<"'");
        else VM_CHECK(said<=1,"announce-many","announced "<<said<<" times");
        h.announced += said; if (said) { h.armed=false; h.armed_known=true; } else if (!h.armed_known) h.armed_known=true, h.armed=false;
        ++h.suppressed; vm::count("suppressed");
      }
    }
  };
  void body (int d) {
    depth=std::max(depth,d);
    const int n=(int)r.range(0,3);
    std::vector<std::unique_ptr<Cleanup>> objs;
    for (int i=0;i<n;++i) objs.emplace_back(new Cleanup{*this,(int)r.range(1,3),r.chance(0.3)});
    if (d<5 && r.chance(0.6)) { if (r.chance(0.3)) scope(d+1); else body(d+1); }
    const int what=(int)r.range(0,4);
    string m=fresh();
    if (what<=2) { armed=true; armed_known=true; ++thrown; vm::count("thrown_by_check");
      if (what==0) EKAT_REQUIRE_MSG(n<0,m); else if (what==1) EKAT_ERROR_MSG(m); else EKAT_REQUIRE(n<0,m,StrEx);
      vm::report("throw","a failing check did not throw"); }
    else if (what==3) { armed_known=armed_known&&armed; if (!armed_known) armed_known=false; ++thrown; vm::count("thrown_by_other"); throw Tok{m}; }
  }
  void scope (int d) {
    try { body(d); }
    catch (Tok&) {}
    catch (std::runtime_error& e) { if (r.chance(0.3)) handler(); }
    catch (StrEx& e) { if (r.chance(0.3)) handler(); }
  }
  void handler () {   // inside a handler nothing unwinds: a check throws again
    string m=fresh(); armed=true; armed_known=true;
    Res q=run([&]{ EKAT_REQUIRE_MSG(m.empty(),m); });
    VM_CHECK(q.kind==1 && q.msg.find(m)!=string::npos,"in-handler","a failing check inside a catch block did not throw its error"); vm::count("thrown_in_handler");
  }
};

int main (int argc, char** argv) {
  vm::init(argc,argv);
  static PerThreadBuf buf; auto* old = std::cerr.rdbuf(&buf);
#ifdef NDEBUG
  const bool dbg=false;
#else
  const bool dbg=true;
#endif
  vm::sub("macros",vm::ncases(6000,200000),[&](Rng& r, long long) {
    int a=(int)r.range(-3,3), b=(int)r.range(-3,3), ev=0, mev=0, x=(int)r.range(-1000,1000); t_err.clear();
    auto C=[&](bool v){ ++ev; return v; }; auto M=[&]{ ++mev; return x; };
    string txt="T"+std::to_string(r.range(0,1LL<<40))+(r.chance(0.2)?"%s%n\n":""); Res q; bool ok=true; string miss; int L=0;
    auto verdict=[&](const char* form, int kind, int evals, int mevals, const string& msg, const string& cond) {
      VM_CHECK(q.kind==(ok?0:kind),string(form)+".type",form<<" with a "<<(ok?"true":"false")<<" condition: outcome "<<q.kind<<", should be "<<(ok?0:kind));
      VM_CHECK(ev==evals,string(form)+".evaluations",form<<" evaluated its condition "<<ev<<" times, should be "<<evals);
      VM_CHECK(mevals<0 || mev==(ok?0:mevals),string(form)+".message-evaluations",form<<" evaluated its message "<<mev<<" times");
      if (!ok && kind==5) { miss = t_err.find(msg)==string::npos ? "the message (on stderr)" : t_err.find(cond)==string::npos ? "the condition (on stderr)" : ""; VM_CHECK(miss.empty(),string(form)+".message",form<<" lacks "<<miss); }
      else if (!ok && q.kind) { miss=has(q,msg,cond,L); VM_CHECK(miss.empty(),string(form)+".message",form<<" lacks "<<miss<<": '"<<q.msg<<"'"); }
      vm::count(ok?"conditions_true":"conditions_false"); if (!ok) vm::nontrivial(string(form)+txt);
    };
    switch (r.range(0,13)) {
      case 0: ok=a<b; L=__LINE__; q=run([&]{ EKAT_REQUIRE(C(a<b)); }); verdict("require1",1,1,-1,"","C(a<b)"); break;
      case 1: ok=a<b; L=__LINE__; q=run([&]{ EKAT_REQUIRE(C(a<b),txt); }); verdict("require2",1,1,-1,txt,"C(a<b)"); break;
      case 2: ok=a==b||a>2; L=__LINE__; q=run([&]{ EKAT_REQUIRE(C(a==b || a>2),txt,std::invalid_argument); }); verdict("require3.std",3,1,-1,txt,"C(a==b || a>2)"); break;
      case 3: ok=a==b; L=__LINE__; q=run([&]{ EKAT_REQUIRE(C(a==b),txt,StrEx); }); verdict("require3.string",4,1,-1,txt,"C(a==b)"); break;
      case 4: ok=a==b; L=__LINE__; q=run([&]{ EKAT_REQUIRE(C(a==b),txt,DerEx); }); verdict("require3.derived",2,1,-1,txt,"C(a==b)"); break;
      case 5: ok=a==b; L=__LINE__; q=run([&]{ EKAT_REQUIRE(C(a==b),txt,DefEx); }); verdict("require3.default",5,1,-1,txt,"C(a==b)"); break;
      case 6: ok=a==b; L=__LINE__; q=run([&]{ EKAT_REQUIRE(C(a==b),txt,NoEx); }); verdict("require3.other",1,1,-1,txt,"C(a==b)"); break;
      case 7: ok=a<b; L=__LINE__; q=run([&]{ EKAT_REQUIRE_MSG(C(a<b),"x is " << M() << " for " << txt << "!"); }); verdict("require_msg",1,1,1,"x is "+std::to_string(x)+" for "+txt+"!","C(a<b)"); break;
      case 8: ok=false; ev=1; L=__LINE__; q=run([&]{ EKAT_ERROR_MSG("x is " << M() << txt); }); verdict("error_msg",1,1,1,"x is "+std::to_string(x)+txt,"false"); break;
      case 9: ok=!dbg || a<b; L=__LINE__; q=run([&]{ EKAT_ASSERT_MSG(C(a<b),txt << M()); }); verdict("assert_msg",1,dbg?1:0,1,txt+std::to_string(x),"C(a<b)"); break;
      case 10: ok=!dbg || a<b; L=__LINE__; q=run([&]{ EKAT_ASSERT(C(a<b)); }); verdict("assert",1,dbg?1:0,-1,"","C(a<b)"); break;
      case 11: ok=a<0||b<0; L=__LINE__; q=run([&]{ EKAT_REQUIRE(C(a<0) || C(b<0),txt); }); verdict("require.or",1,a<0?1:2,-1,txt,"C(a<0) || C(b<0)"); break;
      case 12: { int e=0; ok=a<b; L=__LINE__; q=run([&]{ if (a>100) EKAT_REQUIRE(false); else EKAT_REQUIRE(C(a<b),txt); ++e; }); verdict("require.ifelse",1,1,-1,txt,"C(a<b)");
        VM_CHECK(e==(ok?1:0),"control-flow","the statement after a check was "<<(e?"":"not ")<<"reached"); break; }
      case 13: { const int* p = a<b ? &a : nullptr; ok=p; ev=1; L=__LINE__; q=run([&]{ EKAT_REQUIRE_MSG(p,txt); }); verdict("require.pointer",1,1,-1,txt,"p"); break; }
    }
    vm::sample(q.msg);
  });
  vm::sub("unwinding",vm::ncases(6000,300000),[&](Rng& r, long long) {
    run([&]{ EKAT_REQUIRE_MSG(false,"arm"); });           // a known starting point
    History h{r}; for (int i=0,n=(int)r.range(1,5);i<n;++i) h.scope(0);
    vm::count("histories"); vm::count_max("max_nesting",h.depth); if (h.suppressed) vm::nontrivial((uint64_t)h.next_id*1000003u+h.suppressed*101+h.announced*7+r.u64()); if (h.announced>1) vm::count("histories_rearmed");
    vm::sample(std::to_string(h.thrown)+" throws, "+std::to_string(h.suppressed)+" suppressed, "+std::to_string(h.announced)+" announced");
  });
  // One thread is in the middle of unwinding: checks of the others must still throw, and announce their own failures
  vm::sub("threads",vm::ncases(150,3000),[&](Rng& r, long long) {
    const int nt=(int)r.range(2,5); std::atomic<int> in_unwind{0}, done{0}; std::atomic<bool> go{false};
    uint64_t seeds[8]; for (auto& s : seeds) s=r.u64();
    auto unwinder=[&]{
      struct G { std::atomic<int>& iu; std::atomic<bool>& go; ~G () {
        t_err.clear(); EKAT_ERROR_MSG("first-of-thread"); VM_CHECK(occurrences(t_err,"first-of-thread")==1,"thread-announce","a thread's own suppressed failure was announced "<<occurrences(t_err,"first-of-thread")<<" times");
        ++iu; while (!go) std::this_thread::yield();
        t_err.clear(); EKAT_ERROR_MSG("second-of-thread"); VM_CHECK(occurrences(t_err,"second-of-thread")==0,"thread-announce-again","announced twice in one unwinding"); } };
      for (int i=0;i<2;++i) { try { G g{in_unwind,go}; EKAT_ERROR_MSG("outer"); } catch (std::exception&) {} } };
    std::vector<std::thread> ts; const int nu=(int)r.range(1,nt-1);
    for (int i=0;i<nu;++i) ts.emplace_back(unwinder);
    while (in_unwind<nu) std::this_thread::yield();
    for (int i=nu;i<nt;++i) ts.emplace_back([&,i]{ Rng q(seeds[i]);
      for (int k=0;k<10;++k) { Res e=run([&]{ EKAT_REQUIRE_MSG(k<0,"mine" << k); }); VM_CHECK(e.kind==1 && e.msg.find("mine"+std::to_string(k))!=string::npos,"other-thread","a failing check did not throw in a thread that was not unwinding"); vm::count("throws_while_others_unwind"); }
      ++done; History h{q}; run([&]{ EKAT_ERROR_MSG("arm"); }); for (int k=0;k<3;++k) h.scope(0); });
    while (done<nt-nu) std::this_thread::yield();
    go=true; for (auto& t : ts) t.join();
    vm::count("thread_groups"); vm::nontrivial(r.u64());
  });
  std::cerr.rdbuf(old);
  return vm::finish();
}
