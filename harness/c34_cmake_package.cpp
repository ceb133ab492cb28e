// C34: EKAT as a package. It is built, installed, found and embedded for real, its CMake utilities are called with generated
// requests, and what projects see (programs, flags, files, the git commands issued) is judged.
#include "procmon.hpp"
using namespace pm;

static string S, REPO;
static vector<string> tpl_args () {
  const string L="/usr/lib/x86_64-linux-gnu/cmake";
  return {"-DKokkos_DIR="+L+"/Kokkos","-DCatch2_DIR=/usr/lib/cmake/Catch2","-Dspdlog_DIR="+L+"/spdlog","-Dyaml-cpp_DIR="+L+"/yaml-cpp",
    "-DCMAKE_CXX_STANDARD=17","-DCMAKE_CXX_FLAGS=-I/opt/vp/compat -DOMPI_SKIP_MPICXX -DKOKKOS_ENABLE_CXX17","-DCMAKE_FIND_PACKAGE_TARGETS_GLOBAL=ON","-DFETCHCONTENT_FULLY_DISCONNECTED=ON","-DEKAT_ENABLE_FORTRAN=OFF"};
}
static vector<string> cat (vector<string> a, const vector<string>& b) { a.insert(a.end(),b.begin(),b.end()); return a; }
template<typename T> static vector<T> some (vm::Rng& R, const vector<T>& all, double p=0.5) { vector<T> v; for (auto& x : all) if (R.chance(p)) v.push_back(x); return v; }
static void md (const string& d) { mkdir(d.c_str(),0700); }

// ---- flags ----
static std::map<string,string> values (const string& out, const string& tag) {      // lines "-- tag|name|value|"
  std::map<string,string> m; size_t k=0; const string p="-- "+tag+"|";
  while ((k=out.find(p,k))!=string::npos) { k+=p.size(); size_t b=out.find('|',k), e=out.find("|\n",b+1); m[out.substr(k,b-k)]=out.substr(b+1,e-b-1); }
  return m;
}
static const vector<string> LANGS={"C","CXX","Fortran"};
struct Trial { string call; std::map<string,vector<string>> want; std::set<string> open; };   // open: variables that may get defaults as well
static void flags () {
  vm::sub("flags",vm::ncases(4,60),[&](vm::Rng& R, long long icase) {
    const string top=S+"/f"+std::to_string(icase); md(top);
    const bool fortran=icase%2; vector<string> langs={"C","CXX"}; if (fortran) langs.push_back("Fortran");
    const vector<string> vars={"CMAKE_C_FLAGS","CMAKE_CXX_FLAGS","CMAKE_Fortran_FLAGS","CMAKE_C_FLAGS_DEBUG","CMAKE_CXX_FLAGS_DEBUG","CMAKE_Fortran_FLAGS_DEBUG","CMAKE_C_FLAGS_RELEASE","CMAKE_CXX_FLAGS_RELEASE","CMAKE_Fortran_FLAGS_RELEASE","CMAKE_EXE_LINKER_FLAGS"};
    string cm="cmake_minimum_required(VERSION 3.18)\nproject(PP LANGUAGES "+string(fortran?"C CXX Fortran":"C CXX")+")\nlist(APPEND CMAKE_MODULE_PATH "+q(REPO+"/cmake")+")\ninclude(EkatSetCompilerFlags)\n";
    vector<Trial> ts;
    for (int k=0; k<60; ++k) {
      Trial t; int id=0; string body;
      std::map<string,vector<string>> base;
      for (auto& v : vars) { vector<string> b; for (int i=R.range(0,2); i>0; --i) b.push_back("-DBase"+std::to_string(id++)); base[v]=b; body += "  set("+v+" "+q(vm::join(b.begin(),b.end()," "))+")\n"; }
      t.want=base;
      auto given=[&](const string& kw, const vector<string>& to) {     // a keyword with 1-3 flags, in one argument or several
        vector<string> f; for (int i=R.range(1,3); i>0; --i) f.push_back(R.chance(0.3) ? "-g"+std::to_string(id++%3) : R.chance(0.3) ? "-DX"+std::to_string(id++)+"=1" : "-Wx-"+std::to_string(id++));
        string s=" "+kw; if (R.chance(0.5)) s+=" "+q(vm::join(f.begin(),f.end()," ")); else for (auto& x : f) s+=" "+x;
        for (auto& v : to) for (auto& x : f) t.want[v].push_back(x);
        if (f.size()>1) vm::count("several_flags");
        return s;
      };
      switch (k%6) {
        case 0: {
          t.call="SetFlags(";
          if (R.chance(0.4)) t.call += given("FLAGS",{vars[0],vars[1],vars[2]});
          else { if (R.chance(0.6)) t.call += given("CFLAGS",{vars[0]}); if (R.chance(0.6)) t.call += given("CXXFLAGS",{vars[1]}); if (R.chance(0.6)) t.call += given("FFLAGS",{vars[2]}); }
          if (R.chance(0.5)) t.call += given("LDFLAGS",{vars[9]});
          t.call += ")"; break;
        }
        case 1: case 2: {
          const int o = k%6==1 ? 3 : 6; t.call = o==3 ? "SetDebugFlags(" : "SetReleaseFlags(";
          if (R.chance(0.4)) t.call += given("FLAGS",{vars[o],vars[o+1],vars[o+2]});
          else { static const char* kw[]={"CFLAGS","CXXFLAGS","FFLAGS"}; for (int i=0; i<3; ++i) if (R.chance(0.6)) t.call += given(kw[i],{vars[o+i]}); else t.open.insert(vars[o+i]); }
          t.call += ")"; break;
        }
        case 3: {
          auto w=some<string>(R,{"DEBUG","RELEASE","COMMON"}); t.call="ResetFlags(";
          for (auto& x : w) { t.call+=" "+x; int o = x=="COMMON"?0:x=="DEBUG"?3:6; for (int i=0; i<3; ++i) t.want[vars[o+i]].clear(); }
          t.call += ")"; break;
        }
        case 4: {
          const bool cov=R.chance(0.5); static const char* pr[]={"NONE","gprof","GPROF","vtune"}; string p=pr[R.range(0,3)];
          if (p[0]=='g' || p[0]=='G') for (int i : {0,1,2,9}) t.want[vars[i]].push_back("-pg");
          if (cov) for (int i : {0,1,2,9}) t.want[vars[i]].push_back("--coverage");
          t.call="SetProfilingFlags(PROFILER "+p+" COVERAGE "+(cov?"ON":"OFF")+")"; break;
        }
        default: {
          static const char* m[]={"strict","precise","fast","fast=1","STRICT","Fast=2",""}; string s=m[R.range(0,6)]; body += "  set(PP_FPMODEL \""+s+"\")\n";
          if (!s.empty()) for (int i : {0,1,2}) t.want[vars[i]].push_back(strcasecmp(s.c_str(),"strict") ? "-ffp-contract=fast" : "-ffp-contract=off");
          t.call="SetFpModelFlags() # "+s; break;
        }
      }
      cm += "function(t"+std::to_string(k)+")\n"+body+"  "+t.call+"\n"; for (auto& v : vars) cm += "  message(STATUS \"t"+std::to_string(k)+"|"+v+"|${"+v+"}|\")\n";
      cm += "endfunction()\nt"+std::to_string(k)+"()\n"; ts.push_back(t);
    }
    writef(top+"/CMakeLists.txt",cm);
    auto r=run({"cmake","-G","Ninja","-S",top,"-B",top+"/b"},S);
    VM_CHECK(r.status==0 && r.out.find("Warning")==string::npos,"flags.accepts","not taken: " << errors(r.out)); if (r.status) return;
    for (size_t k=0; k<ts.size(); ++k) {
      auto& t=ts[k]; auto m=values(r.out,"t"+std::to_string(k));
      for (auto& v : vars) {
        if (!fortran && v.find("Fortran")!=string::npos) continue;
        auto w=words(m[v]); auto& e=t.want[v];
        if (t.open.count(v)) { VM_CHECK(w.size()>=e.size() && std::equal(e.begin(),e.end(),w.begin()),"flags.kept",t.call << ": " << v << " is '" << m[v] << "', should begin with " << vm::list(e)); continue; }
        VM_CHECK(w==e,"flags.as-asked",t.call << (fortran?"":" (without Fortran)") << ": " << v << " is '" << m[v] << "' instead of '" << vm::join(e.begin(),e.end()," ") << "'");
        vm::count("flag_variables");
      }
      vm::nontrivial(t.call+std::to_string(fortran));
    }
    if (icase==0) for (int k : {0,1,3}) vm::sample(ts[k].call);
    rm_rf(top);
  });
  vm::sub("refused_flags",vm::ncases(8,40),[&](vm::Rng& R, long long icase) {
    const string top=S+"/rf"+std::to_string(icase); md(top);
    static const char* kw[]={"CFLAGS","CXXFLAGS","FFLAGS"}; const string k=kw[R.range(0,2)]; string call; bool bad=true;
    switch (icase%8) {
      case 0: call="SetFlags(FLAGS -a "+k+" -b)"; break; case 1: call="SetDebugFlags("+k+" -b FLAGS -a)"; break; case 2: call="SetReleaseFlags(FLAGS -a "+k+" -b)"; break;
      case 3: call="set(PP_FPMODEL quick)\nSetFpModelFlags()"; break; case 4: call="set(PP_FPMODEL fast=3)\nSetCommonFlags()"; break;
      case 5: call="SetFlags(FLAGS -a LDFLAGS -b)"; bad=false; break; case 6: call="include(EkatUtils)\nEkatDisableAllWarning(nothing)"; break; default: call="SetCommonFlags()"; bad=false;
    }
    writef(top+"/CMakeLists.txt","cmake_minimum_required(VERSION 3.18)\nproject(PP LANGUAGES NONE)\nlist(APPEND CMAKE_MODULE_PATH "+q(REPO+"/cmake")+")\ninclude(EkatSetCompilerFlags)\n"+call+"\n");
    auto r=run({"cmake","-S",top,"-B",top+"/b"},S);
    VM_CHECK((r.status!=0)==bad,bad?"flags.bad-request":"flags.good-request",call << " was " << (r.status?"refused: ":"taken: ") << tail(r.out,400));
    vm::count(bad?"refused":"taken"); vm::nontrivial(call); rm_rf(top);
  });
}

// ---- configured headers ----
static void config_files () {
  vm::sub("config_files",vm::ncases(6,100),[&](vm::Rng& R, long long icase) {
    const string top=S+"/h"+std::to_string(icase); md(top); md(top+"/b");
    const bool at=R.chance(0.5), f90=R.chance(0.5);
    string tmpl; std::map<string,string> val; vector<string> names; string prev, prev90; long long mt=0; bool first=true;
    auto draw=[&]{ tmpl=""; names.clear(); int n=R.range(2,9);
      for (int i=0; i<n; ++i) { const string v="V"+std::to_string(R.range(0,3)); names.push_back(v); switch (R.range(0,6)) {
        case 0: tmpl+="#define A"+std::to_string(i)+" @"+v+"@\n"; break; case 1: tmpl+="#define B"+std::to_string(i)+" ${"+v+"}\n"; break; case 2: tmpl+="#cmakedefine "+v+"\n"; break;
        case 3: tmpl+="/* a comment @"+v+"@ */\n"; break; case 4: tmpl+="// another // one\n"; break; case 5: tmpl+="int x /* in the line */;\n"; break; default: tmpl+="\n"; } } };
    auto redraw=[&]{ for (int i=0; i<4; ++i) val["V"+std::to_string(i)] = R.chance(0.2) ? "" : "w"+std::to_string(R.range(0,99)); };
    draw(); redraw();
    for (int step=0; step<6; ++step) {
      if (step && R.chance(0.3)) draw();
      if (step && R.chance(0.4)) redraw();
      writef(top+"/t.in",tmpl);
      string cm="cmake_minimum_required(VERSION 3.18)\nproject(PP LANGUAGES NONE)\nlist(APPEND CMAKE_MODULE_PATH "+q(REPO+"/cmake")+")\ninclude(EkatUtils)\n"; for (auto& v : val) cm+="set("+v.first+" "+q(v.second)+")\n";
      cm += "EkatConfigFile("+top+"/t.in ${CMAKE_CURRENT_BINARY_DIR}/t.h"+(at?" AT_ONLY":"")+(f90?" F90_FILE ${CMAKE_CURRENT_BINARY_DIR}/t.f90":"")+")\n";
      writef(top+"/CMakeLists.txt",cm);
      string want; std::istringstream is(tmpl); string l;
      while (std::getline(is,l)) {
        if (l.rfind("#cmakedefine ",0)==0) { string v=l.substr(13); l = val[v].empty() ? "/* #undef "+v+" */" : "#define "+v; }
        else for (auto& v : val) { for (string p : {"@"+v.first+"@",at?string("\1"):"${"+v.first+"}"}) { auto k=l.find(p); if (k!=string::npos) l.replace(k,p.size(),v.second); } }
        want += l+"\n";
      }
      string want90; { std::istringstream i2(want); while (std::getline(i2,l)) { if (l.rfind("//",0)==0) l="!"+l.substr(2); else if (l.rfind("/",0)==0) l="!"+l; want90+=l+"\n"; } }
      auto r=run({"cmake","-S",top,"-B",top+"/b"},S);
      const string in="step "+std::to_string(step)+(at?" AT_ONLY":"")+(f90?" F90_FILE":"")+" of\n"+tmpl;
      VM_CHECK(r.status==0,"config.accepts",in << ": " << errors(r.out)); if (r.status) return;
      const string got=slurp(top+"/b/t.h"); struct stat s; long long m = stat((top+"/b/t.h").c_str(),&s)==0 ? s.st_mtim.tv_sec*1000000000LL+s.st_mtim.tv_nsec : 0;
      VM_CHECK(got==want,"config.content",in << "gives\n" << got << "instead of\n" << want);
      if (f90) { string g=slurp(top+"/b/t.f90"); VM_CHECK(g==want90,"config.fortran",in << "gives for Fortran\n" << g << "instead of\n" << want90); }
      if (!first && want==prev) { VM_CHECK(m==mt,"config.untouched",in << ": the file was written again although nothing changed"); vm::count("unchanged_configurations"); } else vm::count("changed_configurations");
      first=false; prev=want; mt=m; vm::nontrivial(want+in);
    }
    rm_rf(top);
  });
}

// ---- fetching ----
static void fetch () {
  const string top=S+"/git"; md(top); md(top+"/bin"); md(top+"/up");
  const string realgit=[]{ for (string d : {"/usr/bin/git","/usr/local/bin/git","/bin/git"}) if (exists(d)) return d; return string("git"); }();
  // the stand-in for git: logs, delays, fails and, before all, passes on
  writef(top+"/bin/git","#!/bin/sh\ncase \"$*\" in *clone*) k=clone;; *checkout*) k=checkout;; *fetch*) k=fetch;; *rev-parse*) k=revparse;; *) k=other;; esac\n"
    "echo \"B $(date +%s%N) $GIT_WHO $k\" >> \"$GITLOG\"\n[ -n \"$GIT_SLOW\" ] && sleep $GIT_SLOW\n"
    "if [ $k = clone ] && [ -n \"$GIT_FAIL\" ] && [ $GIT_WHO = $GIT_FAIL ]; then echo \"E $(date +%s%N) $GIT_WHO failed\" >> \"$GITLOG\"; exit 128; fi\n"
    +realgit+" \"$@\"; rc=$?\n[ -n \"$GIT_SLOW\" ] && sleep $GIT_SLOW\necho \"E $(date +%s%N) $GIT_WHO $k\" >> \"$GITLOG\"\nexit $rc\n");
  chmod((top+"/bin/git").c_str(),0755);
  vector<string> sha;
  { auto g=[&](vector<string> a) { return run(cat({realgit,"-c","user.name=x","-c","user.email=x@x","-c","init.defaultBranch=main"},a),top+"/up",{{"HOME",top},{"GIT_CONFIG_NOSYSTEM","1"}}); };
    g({"init","-q","."});
    for (int v=0; v<3; ++v) {
      writef(top+"/up/CMakeLists.txt","file(READ ${CMAKE_CURRENT_LIST_DIR}/big.txt b)\nstring(LENGTH \"${b}\" n)\nstring(MD5 m \"${b}\")\nmessage(STATUS \"tpl|version|"+std::to_string(v)+" ${n} ${m}|\")\n");
      writef(top+"/up/big.txt",string(300000+1000*v,'a'+v)); for (int i=0; i<40; ++i) writef(top+"/up/file"+std::to_string(i),"version "+std::to_string(v)+"\n");
      g({"add","-A"}); g({"commit","-q","-m","v"}); auto r=g({"rev-parse","HEAD"}); sha.push_back(r.out.substr(0,40));
    } }
  vm::sub("fetch",vm::ncases(6,60),[&](vm::Rng& R, long long icase) {
    const string t=top+"/c"+std::to_string(icase); md(t); const string shared=t+"/shared", log=t+"/git.log"; md(shared); writef(log,"");
    const int kind=icase%6, n = kind==4 ? 1 : (int)R.range(3,5), want=(int)R.range(1,2); string twice = kind==3 ? "ekat_fetch_content(tpl-x GIT_REPOSITORY "+top+"/up GIT_TAG "+sha[want]+" SOURCE_DIR "+shared+"/tpl-x)\n" : "";
    auto project=[&](const string& d, int ver) { md(d); writef(d+"/CMakeLists.txt","cmake_minimum_required(VERSION 3.18)\nproject(PP LANGUAGES NONE)\nlist(APPEND CMAKE_MODULE_PATH "+q(REPO+"/cmake")+")\ninclude(EkatUtils)\n"
      "ekat_fetch_content(tpl-x GIT_REPOSITORY "+q(top+"/up")+" GIT_TAG "+sha[ver]+" SOURCE_DIR "+q(shared+"/tpl-x")+")\n"+twice); };
    const string PATH=top+"/bin:"+(getenv("PATH")?getenv("PATH"):"/usr/bin:/bin");
    auto go=[&](const string& d, const string& who, std::map<string,string> more={}) { more["PATH"]=PATH; more["GITLOG"]=log; more["GIT_WHO"]=who; more["HOME"]=top; more["GIT_CONFIG_NOSYSTEM"]="1"; return start({"cmake","-G","Ninja","-S",d,"-B",d+"/b"},t,t+"/"+who+".out",more); };
    auto good=[&](const Run& r, int ver) { auto m=values(r.out,"tpl"); auto w=words(m["version"]); return r.status==0 && w.size()==3 && w[0]==std::to_string(ver) && w[1]==std::to_string(300000+1000*ver); };
    const string slow="0.0"+std::to_string(R.range(0,9));
    string what="several builds at once";
    if (kind==1) { what="several builds at once, where another version is"; project(t+"/old",0); auto r=wait_for(go(t+"/old","old")); VM_CHECK(good(r,0),"fetch.first",errors(r.out)); writef(log,""); }
    if (kind==2) what="several builds at once, one of them cannot clone";
    if (kind==3) what="several builds at once, each asking twice";
    if (kind==5) {     // killed at some point; a fresh build must recover
      what="a build killed while it fetches, then several at once";
      project(t+"/k",want); auto p=go(t+"/k","killed",{{"GIT_SLOW",slow}}); usleep((useconds_t)R.range(100000,900000)); kill(-p.pid,SIGKILL); auto r=wait_for(p);
      if (r.status>=1000) vm::count("killed"); usleep(30000); writef(log,"");
    }
    if (kind==4) {     // the documented override, and a folder that is not there
      what="source override"; project(t+"/p0",want); md(t+"/mine"); writef(t+"/mine/CMakeLists.txt","message(STATUS \"tpl|version|mine|\")\n");
      auto r=run({"cmake","-G","Ninja","-S",t+"/p0","-B",t+"/p0/b","-DFETCHCONTENT_SOURCE_DIR_TPL_X="+t+"/mine"},t,{{"PATH",PATH},{"GITLOG",log},{"GIT_WHO","o"}});
      VM_CHECK(r.status==0 && values(r.out,"tpl")["version"]=="mine" && slurp(log).empty(),"fetch.override","status " << r.status << ", git: " << slurp(log) << errors(r.out));
      auto r2=run({"cmake","-G","Ninja","-S",t+"/p0","-B",t+"/p0/b2","-DFETCHCONTENT_SOURCE_DIR_TPL_X="+t+"/none"},t,{{"PATH",PATH},{"GITLOG",log},{"GIT_WHO","o"}});
      VM_CHECK(r2.status!=0,"fetch.override","a folder that does not exist was taken");
      static const vector<string> argv={"GIT_REPOSITORY x","GIT_TAG y","SOURCE_DIR z","GIT_TAGS y"};
      for (int i=0; i<4; ++i) {
        string call="ekat_fetch_content(tpl-x"; for (int j=0; j<3; ++j) if (j!=i) call+=" "+argv[j]; if (i==3) call+=" "+argv[3];
        writef(t+"/p0/CMakeLists.txt","cmake_minimum_required(VERSION 3.18)\nproject(PP LANGUAGES NONE)\ninclude("+q(REPO+"/cmake/EkatUtils.cmake")+")\n"+call+")\n");
        auto r3=run({"cmake","-S",t+"/p0","-B",t+"/p0/b3"},t,{{"PATH",PATH},{"GITLOG",log},{"GIT_WHO","o"}});
        VM_CHECK(r3.status!=0 && slurp(log).empty(),"fetch.bad-request",call << ") was taken"); vm::count("refused");
      }
      rm_rf(t); return;
    }
    vector<Proc> ps;
    for (int i=0; i<n; ++i) { const string d=t+"/p"+std::to_string(i); project(d,want); ps.push_back(go(d,"b"+std::to_string(i),{{"GIT_SLOW",slow},{"GIT_FAIL",kind==2?"b"+std::to_string(n/2):""}})); usleep((useconds_t)R.range(0,60000)); }
    int fine=0;
    for (int i=0; i<n; ++i) {
      auto r=wait_for(ps[i]); const bool may_fail = kind==2 && i==n/2, ok=good(r,want);
      VM_CHECK(ok || (may_fail && r.status!=0),"fetch.content",what << ": build " << i << " of " << n << " ended with " << r.status << " and version '" << values(r.out,"tpl")["version"] << "' instead of " << want << ": " << errors(r.out)); fine+=ok;
    }
    // what git was asked to do: one build populates, and no two touch the folder at the same time
    struct E { long long t; char c; string who, k; }; vector<E> es; { std::istringstream is(slurp(log)); E e; while (is>>e.c>>e.t>>e.who>>e.k) es.push_back(e); }
    std::set<string> cloners, changers; std::map<string,std::pair<long long,long long>> span;
    for (auto& e : es) if (e.k!="revparse" && e.k!="other") { if (e.k!="failed") changers.insert(e.who); auto it=span.find(e.who); if (it==span.end()) span[e.who]={e.t,e.t}; else { it->second.first=std::min(it->second.first,e.t); it->second.second=std::max(it->second.second,e.t); } if (e.c=='E' && e.k=="clone") cloners.insert(e.who); }
    if (kind==2) changers.erase("b"+std::to_string(n/2));
    VM_CHECK(kind==5 || changers.size()==1,"fetch.once",what << ": " << changers.size() << " builds changed the folder: " << vm::list(changers));
    for (auto& a : span) for (auto& b : span) if (a.first<b.first) VM_CHECK(a.second.second<b.second.first || b.second.second<a.second.first,"fetch.alone",what << ": builds " << a.first << " and " << b.first << " worked on the folder at the same time");
    vm::count("builds_at_once",n); vm::count("builds_with_content",fine); vm::count("git_commands",es.size()/2); vm::nontrivial(what+std::to_string(n)+slow+std::to_string(want)); vm::sample(what+", "+std::to_string(n)+" builds, "+std::to_string(es.size()/2)+" git commands");
    rm_rf(t);
  });
}

// ---- the installed package ----
// What a program of a project that found EKAT must print, package by package
struct Pkg { string opt, dir, target, prog, says; vector<string> needs, headers; };
static const vector<Pkg> PKGS={
  {"","core","Core",R"(#include <ekat_comm.hpp>
#include <ekat_parameter_list.hpp>
#include <ekat_units.hpp>
#include <ekat_string_utils.hpp>
int body (int argc, char** argv) {
#ifdef EKAT_ENABLE_MPI
  MPI_Init(&argc,&argv);
#else
  (void)argc; (void)argv;
#endif
  { ekat::Comm c(MPI_COMM_SELF); ekat::ParameterList p("l"); p.set("a",3+c.size()); say("plist",std::to_string(p.get<int>("a"))); }
  say("units",std::to_string(ekat::units::W==ekat::units::J/ekat::units::s)); say("case",std::to_string(ekat::CaseInsensitiveString("aB")==ekat::CaseInsensitiveString("Ab")));
#ifdef EKAT_ENABLE_MPI
  MPI_Finalize();
#endif
  return 0; }
)","plist=4 units=1 case=1",{},{"ekat","ekat_arch","ekat_assert","ekat_comm","ekat_factory","ekat_fpe","ekat_meta_utils","ekat_parameter_list","ekat_rational_constant","ekat_scalar_traits","ekat_scaling_factor","ekat_std_map_key_iterator","ekat_std_type_traits","ekat_std_utils","ekat_string_utils","ekat_test_utils","ekat_type_traits","ekat_units","ekat_zip"}},
  {"KOKKOS","kokkos","KokkosUtils",R"(#include <ekat_kokkos_session.hpp>
#include <ekat_kokkos_types.hpp>
#include <ekat_team_policy_utils.hpp>
int body (int, char**) { ekat::initialize_kokkos_session(false); { Kokkos::View<int*> v("v",10); Kokkos::parallel_for(10,KOKKOS_LAMBDA(int i) { v(i)=i; }); int s=0; Kokkos::parallel_reduce(10,KOKKOS_LAMBDA(int i, int& a) { a+=v(i); },s); say("sum",std::to_string(s)); say("league",std::to_string(ekat::TeamPolicyFactory<Kokkos::DefaultExecutionSpace>::get_default_team_policy(7,5).league_size())); } ekat::finalize_kokkos_session(); return 0; }
)","sum=45 league=7",{},{"ekat_kernel_assert","ekat_kokkos_meta","ekat_kokkos_session","ekat_kokkos_types","ekat_math_utils","ekat_subview_utils","ekat_kokkos_str_utils","ekat_team_policy_utils","ekat_upper_bound","ekat_view_broadcast","ekat_view_utils","ekat_where","ekat_workspace"}},
  {"PACK","pack","Pack",R"(#include <ekat_pack.hpp>
int body (int, char**) { ekat::Pack<double,4> a(2), b(3); auto c=a*b+1; say("pack",std::to_string((int)c[3])); return 0; }
)","pack=7",{"KOKKOS"},{"ekat_pack","ekat_pack_utils","ekat_pack_kokkos","ekat_pack_where","ekat_pack_math"}},
  {"ALGORITHM","algorithm","Algorithm",R"(#include <ekat_tridiag.hpp>
#include <ekat_kokkos_session.hpp>
int body (int, char**) { ekat::initialize_kokkos_session(false); { using V=Kokkos::View<double*,Kokkos::LayoutRight,Kokkos::HostSpace>; V dl("l",3), d("d",3), du("u",3), x("x",3); for (int i=0; i<3; ++i) { d(i)=2; x(i)=2*i; } ekat::tridiag::thomas(dl,d,du,x); say("solved",std::to_string((int)x(2))); } ekat::finalize_kokkos_session(); return 0; }
)","solved=2",{"PACK","KOKKOS"},{"ekat_lin_interp","ekat_reduction_utils","ekat_tridiag"}},
  {"LOGGING","logging","Logging",R"(#include <ekat_logger.hpp>
int body (int argc, char** argv) {
#ifdef EKAT_ENABLE_MPI
  MPI_Init(&argc,&argv);
#else
  (void)argc; (void)argv;
#endif
  { ekat::Comm c(MPI_COMM_SELF); ekat::logger::Logger<> l("n",ekat::logger::LogLevel::info,c); l.info("logged=line"); l.flush(); }
#ifdef EKAT_ENABLE_MPI
  MPI_Finalize();
#endif
  return 0; }
)","",{},{"ekat_log_file_policy","ekat_log_mpi_policy","ekat_logger"}},
  {"YAML_PARSER","parser","YamlParser",R"(#include <ekat_yaml.hpp>
#include <fstream>
int body (int, char**) { std::ofstream("in.yaml") << "a: 3\nb:\n  c: [1.5, 2.5]\n"; auto p=ekat::parse_yaml_file("in.yaml"); say("yaml",std::to_string(p.get<int>("a"))+","+std::to_string((int)(10*p.sublist("b").get<std::vector<double>>("c")[1]))); return 0; }
)","yaml=3,25",{},{"ekat_yaml"}},
  {"EXPRESSION","expression","Expression","","",{"KOKKOS"},{"ekat_expression_base","ekat_expression_binary_op","ekat_expression_binary_predicate","ekat_expression_conditional","ekat_expression_eval","ekat_expression_math","ekat_expression_traits","ekat_expression_view"}}};      // its sources need a newer Kokkos than the one here: not compiled
static const char* PRE=R"(#include <iostream>
#include <string>
#include <vector>
static void say (const std::string& k, const std::string& v) { std::cout << k << "=" << v << std::endl; }
)";
static const char* DEFS=R"(
static void defs () {
#ifdef EKAT_ENABLE_MPI
  say("mpi","1");
#endif
#ifdef EKAT_MPI_ERRORS_ARE_FATAL
  say("fatal","1");
#endif
#ifdef EKAT_DEFAULT_BFB
  say("bfb","1");
#endif
#ifdef EKAT_MIMIC_GPU
  say("mimic","1");
#endif
#ifdef EKAT_HAS_KOKKOS
  say("kokkos","1");
#endif
}
int main (int argc, char** argv) { defs(); return body(argc,argv); }
)";
struct Conf { std::set<string> asked, on; bool all, mpi, fatal, bfb, mimic; string type; vector<string> args () const {
  vector<string> a=tpl_args(); auto b=[](bool x) { return string(x?"ON":"OFF"); };
  a.push_back("-DCMAKE_BUILD_TYPE="+type); a.push_back("-DEKAT_ENABLE_TESTS=OFF"); a.push_back("-DEKAT_ENABLE_MPI="+b(mpi)); a.push_back("-DEKAT_MPI_ERRORS_ARE_FATAL="+b(fatal)); a.push_back("-DEKAT_DEFAULT_BFB="+b(bfb)); a.push_back("-DEKAT_MIMIC_GPU="+b(mimic));
  if (all) { a.push_back("-DEKAT_ENABLE_ALL_PACKAGES=ON"); }
  for (auto& p : asked) a.push_back("-DEKAT_ENABLE_"+p+"=ON");
  return a; }
  string str () const { return vm::list(asked)+(all?" all":"")+(mpi?" mpi":"")+(fatal?" fatal":"")+(bfb?" bfb":"")+(mimic?" mimic":"")+" "+type; } };
static Conf draw_conf (vm::Rng& R, long long icase) {
  Conf c; c.all=icase%5==2; c.mpi=icase%3!=1; c.fatal=R.chance(0.5); c.bfb=R.chance(0.5); c.mimic=R.chance(0.5); c.type=R.chance(0.5)?"Debug":"Release";
  for (auto& p : PKGS) if (!p.opt.empty()) { if (c.all || (!c.all && R.chance(0.4))) c.on.insert(p.opt); if (!c.all && c.on.count(p.opt)) c.asked.insert(p.opt); }
  for (auto& p : PKGS) if (c.on.count(p.opt)) for (auto& n : p.needs) c.on.insert(n);
  return c;
}
// The sources of a project using the packages, and what its programs print
static string consumer (const string& d, const Conf& c, const string& head, const string& after="") {
  md(d);
  string cm="cmake_minimum_required(VERSION 3.18)\nset(CMAKE_CXX_FLAGS \"-I/opt/vp/compat -DOMPI_SKIP_MPICXX -DKOKKOS_ENABLE_CXX17\")\nset(CMAKE_FIND_PACKAGE_TARGETS_GLOBAL ON)\nproject(Consumer LANGUAGES C CXX)\n"+head, all=PRE, names;
  for (auto& p : PKGS) if (p.opt.empty() || c.on.count(p.opt)) {
    if (!p.prog.empty()) writef(d+"/"+p.dir+".cpp",string(PRE)+p.prog+DEFS);
    if (!p.prog.empty()) cm += "add_executable(x_"+p.dir+" "+p.dir+".cpp)\ntarget_link_libraries(x_"+p.dir+" ekat::"+p.target+")\n";
    if (p.dir!="expression") for (auto& h : p.headers) { all += "#include <"+h+".hpp>\n"; if (p.dir!="expression" && h!="ekat_pack_math") { writef(d+"/h_"+h+".cpp","#include <"+h+".hpp>\n"); names+=" h_"+h+".cpp"; } }
  }
  all += "int main () { say(\"all\",\"1\"); return 0; }\n"; writef(d+"/all.cpp",all); cm += "add_executable(x_all all.cpp)\ntarget_link_libraries(x_all ekat::AllLibs)\n";
  cm += "add_library(x_headers OBJECT"+names+")\ntarget_link_libraries(x_headers ekat::AllLibs)\n";     // each public header on its own
  writef(d+"/test.cpp","#include <catch2/catch.hpp>\n#include <ekat_test_utils.hpp>\nTEST_CASE(\"one\") { REQUIRE(ekat::TestSession::get().params.at(\"k\")==\"v\"); }\n");
  cm += "add_executable(x_test test.cpp)\ntarget_link_libraries(x_test ekat::CatchMain ekat::DefaultTestSession)\n";
  writef(d+"/CMakeLists.txt",cm+after); return cm;
}
static void run_consumer (const string& d, const Conf& c, const string& in) {
  auto defs=[&](bool k) { string w; if (c.mpi) w+="mpi=1 "; if (c.mpi && c.fatal) w+="fatal=1 "; if (c.bfb) w+="bfb=1 "; if (k && c.mimic) w+="mimic=1 "; if (k) w+="kokkos=1 "; return w; };
  static const std::set<string> KK={"kokkos","pack","algorithm"};
  auto env=std::map<string,string>{{"OMP_NUM_THREADS","2"},{"OMP_PROC_BIND","false"},{"OMPI_ALLOW_RUN_AS_ROOT","1"},{"OMPI_ALLOW_RUN_AS_ROOT_CONFIRM","1"},{"OMPI_MCA_plm_rsh_agent","sh"},{"HWLOC_COMPONENTS","-gl"}};
  for (auto& p : PKGS) if (p.opt.empty() || c.on.count(p.opt)) {
    if (p.prog.empty()) continue;
    auto r=run({d+"/b/x_"+p.dir},d,env); string got=r.out, want=defs(KK.count(p.dir))+p.says; auto w=words(want); std::set<string> g; for (auto& x : words(got)) g.insert(x);
    bool ok=r.status==0; for (auto& x : w) ok = ok && g.count(x);
    for (const char* k : {"mpi=1","fatal=1","bfb=1","mimic=1","kokkos=1"}) if (std::find(w.begin(),w.end(),k)==w.end()) { const bool undefined_here = string(k)=="fatal=1" && !c.mpi; if (!undefined_here) ok = ok && !g.count(k); }
    VM_CHECK(ok,"package.program",in << ": the program of ekat::" << p.target << " ended with " << r.status << " and printed\n" << tail(got,800) << "\ninstead of " << want);
    vm::count("consumer_programs");
  }
  auto r=run({d+"/b/x_all"},d,env); VM_CHECK(r.status==0 && r.out.find("all=1")!=string::npos,"package.all",in << ": " << tail(r.out,600));
  auto t=run({d+"/b/x_test","--args","-k=v"},d,env); VM_CHECK(t.status==0 && t.out.find("All tests passed")!=string::npos,"package.test-main",in << ": the test program ended with " << t.status << ": " << tail(t.out,600));
}
static void install () {
  // the version the package reports of itself
  const string top_cm=slurp(REPO+"/CMakeLists.txt"); int ver[3]={0,0,0}; { const char* n[]={"MAJOR","MINOR","PATCH"}; for (int i=0; i<3; ++i) { auto k=top_cm.find(string("EKAT_VERSION_")+n[i]+" "); if (k!=string::npos) ver[i]=atoi(top_cm.c_str()+k+19); } }
  vm::sub("install",vm::ncases(4,40),[&](vm::Rng& R, long long icase) {
    const Conf c=draw_conf(R,icase); const string t=S+"/i"+std::to_string(icase), in=c.str(); md(t);
    auto cmd=cat({"cmake","-G","Ninja","-S",REPO,"-B",t+"/b","-DCMAKE_INSTALL_PREFIX="+t+"/p"},c.args());
    auto r=run(cmd,t); VM_CHECK(r.status==0,"install.configures",in << ": " << errors(r.out)); if (r.status) return;
    r=run({"ninja","-C",t+"/b","install"},t); VM_CHECK(r.status==0,"install.builds",in << ": " << errors(r.out)); if (r.status) return;
    for (auto& p : PKGS) for (auto& h : p.headers) { const bool on=p.opt.empty() || c.on.count(p.opt), there=exists(t+"/p/include/ekat/"+h+".hpp"); VM_CHECK(there==on,"install.headers",in << ": " << h << ".hpp is " << (there?"":"not ") << "installed"); vm::count("headers_looked_for"); }
    for (string m : {"EkatCreateUnitTest.cmake","EkatSetCompilerFlags.cmake","EkatUtils.cmake","EkatMpiUtils.cmake","tpls/EkatBuildEkat.cmake","tpls/EkatBuildKokkos.cmake","tpls/EkatFindKokkos.cmake","tpls/EkatBuildYamlCpp.cmake","tpls/EkatBuildCatch2.cmake","tpls/EkatBuildSpdlog.cmake"}) VM_CHECK(exists(t+"/p/share/cmake/Modules/"+m),"install.modules",in << ": " << m << " is not installed");
    VM_CHECK(access((t+"/p/bin/test-launcher").c_str(),X_OK)==0,"install.launcher",in);
    // the moved package must not lean on the build folder
    rm_rf(t+"/b");
    string comps; for (auto& p : PKGS) if (p.opt.empty() || c.on.count(p.opt)) comps+=" "+p.target;
    const string uses="list(APPEND CMAKE_MODULE_PATH "+q(t+"/p/share/cmake/Modules")+")\ninclude(EkatMpiUtils)\ninclude(EkatUtils)\n";
    consumer(t+"/c",c,"find_package(Ekat REQUIRED COMPONENTS"+comps+" CatchMain DefaultTestSession)\n"+(icase%2?uses:""),
      "foreach(p IN ITEMS KokkosUtils Pack Algorithm Expression Logging YamlParser Core CatchMain)\n if (TARGET ekat::${p})\n  message(STATUS \"target|${p}|1|\")\n endif()\nendforeach()\n");
    auto ca=cat({"cmake","-G","Ninja","-S",t+"/c","-B",t+"/c/b","-DEkat_DIR="+[&]{ for (string l : {"lib","lib64","lib/x86_64-linux-gnu"}) if (exists(t+"/p/"+l+"/cmake/ekat/EkatConfig.cmake")) return t+"/p/"+l+"/cmake/ekat"; return string("none"); }(),"-DCMAKE_BUILD_TYPE="+c.type},{});
    auto k=run(ca,t); VM_CHECK(k.status==0,"package.found",in << ": " << errors(k.out)); if (k.status) return;
    auto tg=values(k.out,"target"); for (auto& p : PKGS) VM_CHECK(tg.count(p.target)==(p.opt.empty() || c.on.count(p.opt)),"package.targets",in << ": ekat::" << p.target << (tg.count(p.target)?" exists":" is missing"));
    auto b=run({"ninja","-C",t+"/c/b"},t); VM_CHECK(b.status==0,"package.usable",in << ": " << errors(b.out)); if (b.status) return;
    run_consumer(t+"/c",c,in);
    // requests
    string q2="cmake_minimum_required(VERSION 3.18)\nset(CMAKE_FIND_PACKAGE_TARGETS_GLOBAL ON)\nproject(Q LANGUAGES C CXX)\nset(Ekat_DIR "+ca[7].substr(11)+")\n"; vector<std::pair<string,bool>> want;
    auto ask=[&](const string& a, bool ok) { want.push_back({a,ok}); q2+="unset(Ekat_FOUND)\nset(Ekat_DIR "+ca[7].substr(11)+")\nfind_package(Ekat QUIET "+a+")\nif (Ekat_FOUND)\n set(f 1)\nelse()\n set(f 0)\nendif()\nmessage(STATUS \"ask|"+std::to_string(want.size()-1)+"|${f}|\")\n"; };
    string vs; auto V=[&](int a, int b2=-1, int c2=-1) { vs=std::to_string(a); if (b2>=0) vs+="."+std::to_string(b2); if (c2>=0) vs+="."+std::to_string(c2); return vs; };
    if (ver[0]>0) { ask(V(ver[0]),true); ask(V(ver[0],0),true); ask(V(ver[0],ver[1]),true); ask(V(ver[0],ver[1],ver[2]),true); ask(V(ver[0],ver[1],ver[2])+" EXACT",true); ask(V(ver[0]-1),false); ask(V(ver[0]+1),false); ask(V(ver[0],ver[1]+1),false); ask(V(ver[0],ver[1],ver[2]+1),false); ask(V(ver[0],ver[1],ver[2]+1)+" EXACT",false); }
    for (auto& p : PKGS) { const bool on=p.opt.empty() || c.on.count(p.opt); ask("COMPONENTS "+p.target,on); ask("OPTIONAL_COMPONENTS "+p.target,true); if (!p.opt.empty()) ask("COMPONENTS Core OPTIONAL_COMPONENTS "+p.target,true); }
    ask("COMPONENTS Nothing",false); ask("COMPONENTS Core Nothing",false); ask("COMPONENTS Nothing Core",false);
    md(t+"/q"); writef(t+"/q/CMakeLists.txt",q2); auto a=run({"cmake","-G","Ninja","-S",t+"/q","-B",t+"/q/b"},t); auto m=values(a.out,"ask");
    for (size_t i=0; i<want.size(); ++i) { VM_CHECK(m[std::to_string(i)]==(want[i].second?"1":"0"),"package.request",in << ": find_package(Ekat " << want[i].first << ") answers '" << m[std::to_string(i)] << "': " << (a.status?errors(a.out):"")); vm::count(want[i].second?"requests_met":"requests_refused"); }
    vm::nontrivial(in); vm::sample(in); rm_rf(t);
  });
}

// ---- EKAT embedded in another project ----
static void embed () {
  vm::sub("embed",vm::ncases(4,30),[&](vm::Rng& R, long long icase) {
    const string t=S+"/e"+std::to_string(icase); md(t);
    struct Var { string name; bool arg; vector<string> vals; }; static const vector<Var> VARS={{"MPI_ERRORS_ARE_FATAL",true,{"ON","OFF"}},{"MIMIC_GPU",true,{"ON","OFF"}},{"ENABLE_TESTS",true,{"OFF"}},{"TEST_MAX_THREADS",true,{"1","3","8"}},{"TEST_PACK_SIZE",true,{"4","8","2"}},{"TEST_SMALL_PACK_SIZE",true,{"1","2"}},{"TEST_THREAD_INC",true,{"1","2","-1"}},{"TEST_STRICT_FP",true,{"ON","OFF"}},{"FPMODEL",false,{"fast","precise"}},{"DISABLE_TPL_WARNINGS",false,{"ON","OFF"}}};
    std::map<string,string> want; string sets, call="PREFIX MY_P", seen;
    const string type=R.chance(0.5)?"Debug":"Release";
    for (auto& v : VARS) {
      const bool pre=R.chance(0.5) || v.name=="ENABLE_TESTS", arg=v.arg && R.chance(0.4); string a=v.vals[R.range(0,(int)v.vals.size()-1)], b=v.vals[R.range(0,(int)v.vals.size()-1)];
      if (pre) { sets+="set(MY_P_"+v.name+" "+a+")\n"; want[v.name]=a; }
      if (arg) { call+=" "+v.name+" "+b; want[v.name]=b; if (pre) vm::count("arguments_over_prefix"); }
      if (!pre && !arg) { if (v.name=="TEST_MAX_THREADS" || v.name=="TEST_THREAD_INC") want[v.name]="1"; if (v.name=="TEST_PACK_SIZE") want[v.name]="16"; if (v.name=="FPMODEL" && type=="Debug") want[v.name]="strict"; if (v.name=="TEST_STRICT_FP" && type=="Debug") want[v.name]="ON"; if (v.name=="DISABLE_TPL_WARNINGS") want[v.name]="OFF"; }
      seen += "message(STATUS \"var|"+v.name+"|${EKAT_"+v.name+"}|\")\n";
    }
    if (!want.count("TEST_SMALL_PACK_SIZE")) want["TEST_SMALL_PACK_SIZE"]=want["TEST_PACK_SIZE"];
    Conf c=draw_conf(R,icase); c.type=type; c.fatal = want.count("MPI_ERRORS_ARE_FATAL") ? want["MPI_ERRORS_ARE_FATAL"]=="ON" : true; c.mimic = want.count("MIMIC_GPU") && want["MIMIC_GPU"]=="ON";
    const string in="BuildEkat("+call+") after\n"+sets+c.str();
    const string inc="list(APPEND CMAKE_MODULE_PATH "+q(REPO+"/cmake")+" "+q(REPO+"/cmake/tpls")+")\ninclude(EkatBuildEkat)\n", go="BuildEkat("+call+")\n";
    // two parts of one project both want EKAT; the second by including again, or by calling again
    const int how=icase%3; md(t+"/c"); string head=inc+sets+go; if (how==0) head+="BuildEkat(PREFIX OTHER)\n"; if (how==1) { head+="add_subdirectory(part)\n"; md(t+"/c/part"); writef(t+"/c/part/CMakeLists.txt","include(EkatBuildEkat)\nBuildEkat(PREFIX OTHER TEST_MAX_THREADS 5)\n"); } if (how==2) { head+="add_subdirectory(part)\n"; md(t+"/c/part"); writef(t+"/c/part/CMakeLists.txt","BuildEkat(PREFIX OTHER)\n"); }
    consumer(t+"/c",c,head,seen);
    auto args=c.args(); vector<string> keep; for (auto& a : args) if (a.find("EKAT_MPI_ERRORS")==string::npos && a.find("EKAT_MIMIC")==string::npos && a.find("EKAT_ENABLE_TESTS")==string::npos) keep.push_back(a);
    auto r=run(cat({"cmake","-G","Ninja","-S",t+"/c","-B",t+"/c/b"},keep),t);
    VM_CHECK(r.status==0,"embed.configures",in << ": " << errors(r.out)); if (r.status) return;
    auto m=values(r.out,"var"); for (auto& w : want) { VM_CHECK(m[w.first]==w.second,"embed.options",in << ": EKAT_" << w.first << " is '" << m[w.first] << "' instead of '" << w.second << "'"); vm::count("options_compared"); }
    if (icase<(vm::thorough()?8:2)) { auto b=run({"ninja","-C",t+"/c/b"},t); VM_CHECK(b.status==0,"embed.usable",in << ": " << errors(b.out)); if (b.status) return; run_consumer(t+"/c",c,in); vm::count("embedded_builds"); }
    vm::nontrivial(in); rm_rf(t);
  });
}

int main (int argc, char** argv) {
  vm::init(argc,argv);
  const char* repo=getenv("VMON_REPO"); REPO = repo && *repo ? repo : "/repo";
  const char* sc=getenv("VMON_SCRATCH"); S=string(sc && *sc ? sc : "/tmp")+"/c34."+std::to_string(getpid()); md(S);
  install(); embed(); flags(); config_files(); fetch();
  rm_rf(S);
  return vm::finish();
}
