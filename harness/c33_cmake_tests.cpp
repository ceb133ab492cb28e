// C33: the CMake functions that create EKAT's unit tests. Projects are generated, configured, built and tested for real;
// this program stands in for mpirun (and for valgrind and the like), the test programs record what ran, and the
// monitors judge the log of ctest's run and the tests it lists.
#include "vmon.hpp"
#include <algorithm>
#include <dirent.h>
#include <poll.h>
#include <sched.h>
#include <sys/stat.h>
using std::string; using std::vector;
extern char** environ;

// ---- stand-ins ----
static int stand_in_mpirun (int argc, char** argv) {     // <self> --vm-mpirun (-n N | --map-by ppr:N:node:pe=T) [-c T] [--extra X] program...
  int n=1; string pe="-", th="-", ex="-"; int i=2;
  for (; i<argc; ++i) {
    string a=argv[i];
    if (a=="-n") n=atoi(argv[++i]);
    else if (a=="--map-by") { char b[64]=""; if (sscanf(argv[++i],"ppr:%d:node:pe=%60s",&n,b)!=2) return 97; pe=b; }
    else if (a=="-c") th=argv[++i];
    else if (a=="--extra") ex=argv[++i];
    else break;
  }
  if (i>=argc || n<1 || n>64) return 98;
  vector<pid_t> ps;
  for (int r=0; r<n; ++r) {
    pid_t p=fork();
    if (p==0) {
      setenv("OMPI_COMM_WORLD_SIZE",std::to_string(n).c_str(),1); setenv("OMPI_COMM_WORLD_RANK",std::to_string(r).c_str(),1);
      setenv("STANDIN_MPI",("pe="+pe+" th="+th+" ex="+ex).c_str(),1);
      execvp(argv[i],argv+i); _exit(96);
    }
    ps.push_back(p);
  }
  int rc=0;
  for (auto p : ps) { int s; waitpid(p,&s,0); int c=WIFEXITED(s)?WEXITSTATUS(s):128+WTERMSIG(s); rc=std::max(rc,c); }
  return rc;
}
static int stand_in_tool (const string& name, int argc, char** argv) {
  string t=name; int i=1;
  for (; i<argc && argv[i][0]=='-'; ++i) {
    t += string(" ")+argv[i];
    if ((string(argv[i])=="--error-exitcode" || string(argv[i])=="--tool") && i+1<argc) { ++i; t += string(" ")+argv[i]; }
  }
  if (i>=argc) return 98;
  setenv("STANDIN_TOOL",t.c_str(),1);
  execvp(argv[i],argv+i); return 96;
}

// ---- plumbing ----
static string slurp_fd (int fd) { string s; char b[65536]; ssize_t n; while ((n=read(fd,b,sizeof b))>0) s.append(b,n); return s; }
static string slurp (const string& p) { int fd=open(p.c_str(),O_RDONLY); if (fd<0) return ""; string s=slurp_fd(fd); close(fd); return s; }
static void writef (const string& p, const string& s) { std::ofstream(p,std::ios::binary) << s; }
struct Run { int status=-1; string out; };
static Run run (const vector<string>& cmd, const string& cwd, const std::map<string,string>& more={}) {
  std::map<string,string> env;
  for (char** e=environ; *e; ++e) { string v=*e; auto q=v.find('='); string k=v.substr(0,q); if (k.rfind("OMPI_",0) && k.rfind("VMON",0) && k.rfind("OMP_",0) && k.rfind("VERIF",0) && k.rfind("CTEST_",0)) env[k]=v.substr(q+1); }
  for (auto& m : more) env[m.first]=m.second;
  vector<string> es; for (auto& e : env) es.push_back(e.first+"="+e.second);
  vector<char*> av, ev;
  for (auto& a : cmd) av.push_back(const_cast<char*>(a.c_str()));
  for (auto& e : es) ev.push_back(const_cast<char*>(e.c_str()));
  av.push_back(nullptr); ev.push_back(nullptr);
  int po[2]; Run r; if (pipe(po)) return r;
  fflush(nullptr);
  pid_t p=fork();
  if (p==0) {
    alarm(0);
    int z=open("/dev/null",O_RDONLY); dup2(z,0); dup2(po[1],1); dup2(po[1],2); close(po[0]); close(po[1]);
    if (chdir(cwd.c_str())) _exit(126);
    execvpe(av[0],av.data(),ev.data()); _exit(127);
  }
  close(po[1]); r.out=slurp_fd(po[0]); close(po[0]);
  int s; waitpid(p,&s,0); r.status = WIFEXITED(s)?WEXITSTATUS(s):1000+WTERMSIG(s);
  return r;
}
static void rm_rf (const string& d) { if (d.size()>12 && d.find("..")==string::npos) run({"rm","-rf",d},"/"); }

// JSON as ctest prints it
struct J { char t='n'; string s; vector<J> a; vector<std::pair<string,J>> o;
  const J* at (const string& k) const { for (auto& p : o) if (p.first==k) return &p.second; return nullptr; } };
struct JP {
  const string& s; size_t k=0;
  void ws () { while (k<s.size() && strchr(" \n\r\t",s[k])) ++k; }
  string str () { string r; ++k; while (k<s.size() && s[k]!='"') { if (s[k]=='\\') { ++k; char c=s[k]; if (c=='n') r+='\n'; else if (c=='t') r+='\t'; else if (c=='u') { r+=(char)strtol(s.substr(k+1,4).c_str(),nullptr,16); k+=4; } else r+=c; ++k; } else r+=s[k++]; } ++k; return r; }
  J val () {
    ws(); J j; if (k>=s.size()) return j;
    if (s[k]=='"') { j.t='s'; j.s=str(); }
    else if (s[k]=='[') { j.t='a'; ++k; ws(); while (k<s.size() && s[k]!=']') { j.a.push_back(val()); ws(); if (s[k]==',') ++k; ws(); } ++k; }
    else if (s[k]=='{') { j.t='o'; ++k; ws(); while (k<s.size() && s[k]!='}') { string n=str(); ws(); ++k; J v=val(); j.o.push_back({n,v}); ws(); if (s[k]==',') ++k; ws(); } ++k; }
    else { j.t='l'; while (k<s.size() && !strchr(",]} \n\r\t",s[k])) j.s+=s[k++]; }
    return j;
  }
};

// ---- the test programs ----
static const vector<string> MACROS = {"DA","DB","CA","CB","XA","XB","FA","FB","CFA","CFB","XFA","XFB","L1","L2","HAS_MAIN","HAS_SESSION"};
static string macro_table () {
  string s = "#define STR2(x) #x\n#define STR(x) STR2(x)\nstatic const char* table[] = {\n";
  for (auto& m : MACROS) s += "#ifdef "+m+"\n\""+m+"=\" STR("+m+"),\n#endif\n";
  for (string h : {"h1","h2"}) s += "#if __has_include(\""+h+".h\")\n\""+h+"=1\",\n#endif\n";
  return s + "0};\n";
}
static void write_sources (const string& d) {
  writef(d+"/table.h",macro_table());
  writef(d+"/part.c","#include \"table.h\"\nconst char** c_table(void) { return table; }\n");
  writef(d+"/probe.cpp",R"(#include "table.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <sched.h>
#include <time.h>
#include <unistd.h>
extern "C" { const char** c_table(); extern char lf1 __attribute__((weak)); extern char lf2 __attribute__((weak)); int q1() __attribute__((weak)); }
static void put (FILE* f, char t, const std::string& s) { fprintf(f,"%c%zu:",t,s.size()); fwrite(s.data(),1,s.size(),f); fputc('\n',f); }
static long long now () { timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec*1000000000LL+t.tv_nsec; }
static const char* env (const char* n) { const char* v=getenv(n); return v?v:"-"; }
int main (int argc, char** argv) {
  const long long t0=now();
  std::string dir=env("PROBE_LOG"), part=dir+"/part."+std::to_string(getpid());
  FILE* f=fopen(part.c_str(),"wb"); if (!f) return 99;
  int end=0; std::string say;
  for (int i=0; i<argc; ++i) { put(f,'a',argv[i]); if (!strncmp(argv[i],"--end=",6)) end=atoi(argv[i]+6); if (!strncmp(argv[i],"--say=",6)) say=argv[i]+6; }
  put(f,'r',env("OMPI_COMM_WORLD_RANK")); put(f,'s',env("OMPI_COMM_WORLD_SIZE")); put(f,'t',env("OMP_NUM_THREADS"));
  put(f,'m',env("STANDIN_MPI")); put(f,'v',env("STANDIN_TOOL"));
  char b[4096]; put(f,'d',getcwd(b,sizeof b)?b:"?");
  std::string in; ssize_t n; while ((n=read(0,b,sizeof b))>0) in.append(b,n); put(f,'i',in);
  cpu_set_t c; CPU_ZERO(&c); sched_getaffinity(0,sizeof c,&c); std::string s; for (int i=0; i<CPU_SETSIZE; ++i) if (CPU_ISSET(i,&c)) s+=std::to_string(i)+","; put(f,'c',s);
  for (const char** p=table; *p; ++p) put(f,'X',*p);
  for (const char** p=c_table(); *p; ++p) put(f,'C',*p);
  if (&lf1) put(f,'L',"lf1"); if (&lf2) put(f,'L',"lf2"); if (q1) put(f,'L',"q1");
  if (!say.empty()) { printf("probe says %s\n",say.c_str()); fflush(stdout); }
  usleep(3000+getpid()%5*3000);
  put(f,'0',std::to_string(t0)); put(f,'1',std::to_string(now()));
  fclose(f);
  if (rename(part.c_str(),(dir+"/rec."+std::to_string(getpid())+"."+std::to_string(t0)).c_str())) return 99;
  return end;
}
)");
}
struct Rec { vector<string> args; string rank,size,threads,mpi,tool,cwd,input,cpus; std::set<string> xm,cm,ld; long long t0=0,t1=0; };
static Rec parse (const string& s) {
  Rec r; size_t k=0;
  while (k<s.size()) {
    char t=s[k++]; size_t c=s.find(':',k); size_t n=std::stoul(s.substr(k,c-k)); string v=s.substr(c+1,n); k=c+1+n+1;
    switch (t) {
      case 'a': r.args.push_back(v); break; case 'r': r.rank=v; break; case 's': r.size=v; break; case 't': r.threads=v; break;
      case 'm': r.mpi=v; break; case 'v': r.tool=v; break; case 'd': r.cwd=v; break; case 'i': r.input=v; break; case 'c': r.cpus=v; break;
      case 'X': r.xm.insert(v); break; case 'C': r.cm.insert(v); break; case 'L': r.ld.insert(v); break; case '0': r.t0=atoll(v.c_str()); break; case '1': r.t1=atoll(v.c_str()); break;
    }
  }
  return r;
}
static vector<string> files (const string& dir, const string& pre) {
  vector<string> v; DIR* d=opendir(dir.c_str()); if (!d) return v;
  while (dirent* e=readdir(d)) { string n=e->d_name; if (n.rfind(pre,0)==0) v.push_back(dir+"/"+n); }
  closedir(d); std::sort(v.begin(),v.end()); return v;
}

// ---- what is asked for ----
struct Exec { string name; bool no_main=false, own_session=false; vector<string> inc,defs,cdefs,xdefs,flags,cflags,xflags,libs,libdirs,ldflags; };
struct Suite {
  string name, exec; bool with_exec=false;      // created together with the executable
  vector<int> ranks, threads;                   // as given
  vector<string> args;                          // as given (shell text)
  vector<string> want_args; string input;       // as the program should get them
  bool own_colour=false, serial=false, will_fail=false, affinity=false; int end=0; string say, pass_re;
  vector<string> labels, dep, fx_setup, fx_req, fx_clean, fxi_setup, fxi_req, fxi_clean; std::map<string,string> props;
  vector<std::pair<int,int>> combos;
};
struct Dir { string name; bool mpi=true, map_by=false, thread_flag=false, extra=false, buffer=false; int tool=0; vector<Exec> execs; vector<Suite> suites; };
static string full (const Suite& s, int r, int t) {
  string n=s.name;
  if (s.ranks.size()>1 || (s.ranks.size()==1 && s.ranks[0]>1)) n += "_np"+std::to_string(r);
  if (s.threads.size()>1 || (s.threads.size()==1 && s.threads[0]>1)) n += "_omp"+std::to_string(t);
  return n;
}
static vector<int> expand (const vector<int>& v) {
  if (v.empty()) return {1};
  if (v.size()==1) return {v[0]};
  int st = v.size()==3 ? v[2] : 1; vector<int> r;
  for (int x=v[0]; st>0 ? x<=v[1] : x>=v[1]; x+=st) r.push_back(x);
  return r;
}
static vector<int> draw_range (vm::Rng& R, int mx) {
  switch (R.range(0,4)) {
    case 0: return {};
    case 1: return {(int)R.range(1,mx)};
    case 2: { int a=R.range(1,mx), b=R.range(1,mx); if (a>b) std::swap(a,b); if (a==1 && b==1) b=2; return {a,std::min(b,std::max(2,mx))}; }
    default: { int a=R.range(1,mx), b=R.range(1,mx), st=R.range(1,3); if (a==1 && b==1) b=std::min(2,mx); return a<=b ? vector<int>{a,b,st} : vector<int>{a,b,-st}; }
  }
}
static string q (const string& s) { return "[==["+s+"]==]"; }
static string key (const string& k, const vector<string>& v) { if (v.empty()) return ""; string s="\n    "+k; for (auto& x : v) s += " "+q(x); return s; }
static string key (const string& k, const vector<int>& v) { vector<string> s; for (int x : v) s.push_back(std::to_string(x)); return key(k,s); }
template<typename T> static vector<T> some (vm::Rng& R, const vector<T>& all, double p=0.5) { vector<T> v; for (auto& x : all) if (R.chance(p)) v.push_back(x); return v; }
static string exec_args (const Exec& e) {
  string s = "\n    SOURCES probe.cpp part.c"; if (e.no_main) s+=" EXCLUDE_MAIN_CPP"; if (e.own_session) s+=" USER_DEFINED_TEST_SESSION";
  return s+key("INCLUDE_DIRS",e.inc)+key("COMPILER_DEFS",e.defs)+key("COMPILER_C_DEFS",e.cdefs)+key("COMPILER_CXX_DEFS",e.xdefs)+key("COMPILER_FLAGS",e.flags)
    +key("COMPILER_C_FLAGS",e.cflags)+key("COMPILER_CXX_FLAGS",e.xflags)+key("LIBS",e.libs)+key("LIBS_DIRS",e.libdirs)+key("LINKER_FLAGS",e.ldflags);
}
static string suite_args (const Suite& s) {
  string o; if (s.serial) o+=" SERIAL"; if (s.will_fail) o+=" WILL_FAIL"; if (s.affinity) o+=" PRINT_OMP_AFFINITY";
  vector<string> pr; for (auto& p : s.props) { pr.push_back(p.first); pr.push_back(p.second); }
  if (!s.pass_re.empty()) { pr.push_back("PASS_REGULAR_EXPRESSION"); pr.push_back(s.pass_re); }
  return o+key("MPI_RANKS",s.ranks)+key("THREADS",s.threads)+key("EXE_ARGS",s.args)+key("LABELS",s.labels)+key("DEP",s.dep)+key("FIXTURES_SETUP",s.fx_setup)
    +key("FIXTURES_REQUIRED",s.fx_req)+key("FIXTURES_CLEANUP",s.fx_clean)+key("FIXTURES_SETUP_INDIVIDUAL",s.fxi_setup)+key("FIXTURES_REQUIRED_INDIVIDUAL",s.fxi_req)
    +key("FIXTURES_CLEANUP_INDIVIDUAL",s.fxi_clean)+key("PROPERTIES",pr);
}
static string show (const vector<string>& v) { return vm::list(v); }

static string S, REPO;
static string errors (const string& o) { size_t k=o.find("CMake "); return o.substr(k==string::npos ? 0 : k,1500); }
static const char* TOOLS[] = {"","valgrind","cuda-memcheck","compute-sanitizer"};

static string preamble (bool langs, const string& type, bool managed) {
  return "cmake_minimum_required(VERSION 3.18)\nproject(P LANGUAGES "+string(langs?"C CXX":"NONE")+")\nset(CMAKE_BUILD_TYPE "+type+")\nenable_testing()\nset(EKAT_SOURCE_DIR "+q(REPO)+")\n"
    "list(APPEND CMAKE_MODULE_PATH "+q(REPO+"/cmake")+")\nset(EKAT_MPIRUN_COMM_WORLD_SIZE OMPI_COMM_WORLD_SIZE)\nset(EKAT_MPIRUN_COMM_WORLD_RANK OMPI_COMM_WORLD_RANK)\n"
    "set(TEST_LAUNCHER_ON_GPU False)\nset(TEST_LAUNCHER_MANAGE_RESOURCES "+(managed?"True":"False")+")\nconfigure_file("+q(REPO+"/bin/test-launcher")+" ${CMAKE_BINARY_DIR}/bin/test-launcher)\n"
    "add_library(Catch2::Catch2 INTERFACE IMPORTED GLOBAL)\nadd_library(ekat::CatchMain INTERFACE IMPORTED GLOBAL)\nadd_library(ekat::DefaultTestSession INTERFACE IMPORTED GLOBAL)\n"
    "set_property(TARGET ekat::CatchMain PROPERTY INTERFACE_COMPILE_DEFINITIONS HAS_MAIN)\nset_property(TARGET ekat::DefaultTestSession PROPERTY INTERFACE_COMPILE_DEFINITIONS HAS_SESSION)\n";
}
static Run configure (const string& src, const string& bld) {
  return run({"cmake","-G","Ninja","-S",src,"-B",bld,"-DCMAKE_C_COMPILER_WORKS=1","-DCMAKE_CXX_COMPILER_WORKS=1"},S);
}
static vector<string> strings (const J* v) { vector<string> r; if (!v) return r; if (v->t=='a') { for (auto& x : v->a) r.push_back(x.s); } else r.push_back(v->s); return r; }

int main (int argc, char** argv) {
  { string me=argv[0]; me=me.substr(me.rfind('/')+1); for (int i=1; i<4; ++i) if (me==TOOLS[i]) return stand_in_tool(me,argc,argv); }
  if (argc>1 && string(argv[1])=="--vm-mpirun") return stand_in_mpirun(argc,argv);
  vm::init(argc,argv);
  const char* sc=getenv("VMON_SCRATCH"); S = sc?sc:"/tmp"; S += "/c33"; mkdir(S.c_str(),0700);
  REPO = getenv("VMON_REPO");
  char selfb[4096]; ssize_t sl=readlink("/proc/self/exe",selfb,sizeof selfb-1); const string SELF(selfb,sl>0?sl:0);
  mkdir((S+"/tools").c_str(),0700);
  for (int i=1; i<4; ++i) if (symlink(SELF.c_str(),(S+"/tools/"+TOOLS[i]).c_str())) {}
  const string PATH = S+"/tools:"+(getenv("PATH")?getenv("PATH"):"/usr/bin:/bin");
  mkdir((S+"/q").c_str(),0700); mkdir((S+"/q2").c_str(),0700);
  writef(S+"/q/q1.c","int q1(void) { return 1; }\n");
  run({"sh","-c","gcc -c q1.c -o q1.o && ar qc libq1.a q1.o"},S+"/q");

  vm::sub("projects",vm::ncases(4,60),[&](vm::Rng& R, long long icase) {
    const string top=S+"/p"+std::to_string(icase), src=top+"/s", bld=top+"/b", log=top+"/log";
    for (auto& d : {top,src,log}) mkdir(d.c_str(),0700);
    const bool managed = icase%2==1;
    cpu_set_t cs; CPU_ZERO(&cs); sched_getaffinity(0,sizeof cs,&cs); vector<int> cpus; for (int i=0; i<CPU_SETSIZE; ++i) if (CPU_ISSET(i,&cs)) cpus.push_back(i);
    const int most = managed ? (int)cpus.size() : 1000;
    string cm = preamble(true,"Debug",managed)+"include(EkatCreateUnitTest)\nadd_library(l1 STATIC l.c)\ntarget_compile_definitions(l1 INTERFACE L1)\nadd_library(l2 STATIC l.c)\ntarget_compile_definitions(l2 INTERFACE L2)\n";
    writef(src+"/l.c","int l_unused;\n"); for (string h : {"1","2"}) { mkdir((src+"/inc"+h).c_str(),0700); writef(src+"/inc"+h+"/h"+h+".h","\n"); }
    vector<Dir> dirs;
    for (int k=0; k<4; ++k) {
      Dir d; d.name="d"+std::to_string(k); d.mpi=R.chance(0.8); d.map_by=R.chance(0.5); d.thread_flag=R.chance(0.4); d.extra=R.chance(0.5); d.buffer=R.chance(0.4); d.tool=R.chance(0.4)?R.range(1,3):0;
      mkdir((src+"/"+d.name).c_str(),0700); write_sources(src+"/"+d.name);
      const int ne=R.range(1,2);
      for (int e=0; e<ne; ++e) {
        Exec x; x.name=d.name+"e"+std::to_string(e); x.no_main=R.chance(0.3); x.own_session=R.chance(0.3);
        x.inc=some<string>(R,{src+"/inc1",src+"/inc2"}); x.defs=some<string>(R,{"DA","DB=2"}); x.cdefs=some<string>(R,{"CA","CB=3"}); x.xdefs=some<string>(R,{"XA","XB=4"});
        x.flags=some<string>(R,{"-DFA","-DFB=5"}); x.cflags=some<string>(R,{"-DCFA","-DCFB=6"}); x.xflags=some<string>(R,{"-DXFA","-DXFB=7"});
        x.libs=some<string>(R,{"l1","l2"}); x.ldflags=some<string>(R,{"-Wl,--defsym=lf1=0x1001","-Wl,--defsym=lf2=0x2002"});
        if (R.chance(0.5)) { x.libs.push_back("q1"); x.libdirs.push_back(S+"/q"); if (R.chance(0.5)) x.libdirs.insert(x.libdirs.begin(),S+"/q2"); x.ldflags.push_back("-Wl,-u,q1"); }
        const int ns=R.range(2,5);
        for (int j=0; j<ns; ++j) {
          Suite s; s.exec=x.name; s.with_exec = j==0 && R.chance(0.7); s.name = s.with_exec ? x.name : x.name+"s"+std::to_string(j);
          do {
            s.ranks = d.mpi ? draw_range(R,4) : vector<int>{}; s.threads = draw_range(R,5);
            s.combos.clear(); for (int r : expand(s.ranks)) for (int t : expand(s.threads)) s.combos.push_back({r,t});
          } while (s.combos.size()>8 || std::any_of(s.combos.begin(),s.combos.end(),[&](auto& c) { return c.first*c.second>most; }));
          if (j>0 || R.chance(0.5)) {
            s.args.push_back("--id="+s.name); s.want_args.push_back("--id="+s.name);
            for (int m=R.range(0,4); m>0; --m) switch (R.range(0,3)) {
              case 0: { string w="w"+std::to_string(R.range(0,99)); s.args.push_back(w); s.want_args.push_back(w); break; }
              case 1: { string w="a  b"+string(1,"*<|&#~!$\"x`"[R.range(0,10)])+"c"; s.args.push_back("'"+w+"'"); s.want_args.push_back(w); break; }
              case 2: s.args.push_back("-u v1 v2"); for (string w : {"-u","v1","v2"}) s.want_args.push_back(w); break;
              default: { string w="--x=y/z,1"; s.args.push_back(w); s.want_args.push_back(w); }
            }
            if (R.chance(0.25)) { s.end=R.range(1,3); s.args.push_back("--end="+std::to_string(s.end)); s.want_args.push_back(s.args.back()); }
            s.will_fail = s.end ? R.chance(0.7) : R.chance(0.1);
            if (R.chance(0.2)) { s.own_colour=true; string c=R.chance(0.5)?"yes":"no"; s.args.push_back("--use-colour "+c); s.want_args.push_back("--use-colour"); s.want_args.push_back(c); }
            if (R.chance(0.2)) { s.say=R.chance(0.6)?"alpha":"beta"; s.args.push_back("--say="+s.say); s.want_args.push_back(s.args.back()); s.pass_re="probe says al.ha"; s.will_fail=false; }
            if (R.chance(0.2)) { s.input="line\n"; s.args.push_back("< input.txt"); }
          }
          if (!s.own_colour && !x.no_main) { s.want_args.insert(s.want_args.begin(),"no"); s.want_args.insert(s.want_args.begin(),"--use-colour"); }
          s.serial=R.chance(0.3); s.affinity=R.chance(0.2);
          s.labels=some<string>(R,{"la","lb","lc"},0.3);
          if (R.chance(0.3)) s.props["TIMEOUT"]=std::to_string(R.range(60,90)); if (R.chance(0.3)) s.props["COST"]=std::to_string(R.range(1,9));
          // relations to suites of the directory that come before
          if (!d.suites.empty()) {
            if (R.chance(0.35)) { int m=R.range(1,3); for (int w=0; w<m; ++w) { auto& o=R.pick(d.suites); auto& c=R.pick(o.combos); string n=full(o,c.first,c.second); if (std::find(s.dep.begin(),s.dep.end(),n)==s.dep.end()) s.dep.push_back(n); } }
            if (R.chance(0.25)) { auto& o=R.pick(d.suites); o.fx_setup.push_back("fx_"+s.name); s.fx_req.push_back("fx_"+s.name); }
            if (R.chance(0.35)) { auto& o=R.pick(d.suites); o.fxi_setup.push_back("fi_"+s.name); s.fxi_req.push_back("fi_"+s.name); if (R.chance(0.6)) { s.ranks=o.ranks; s.threads=o.threads; s.combos=o.combos; } }
            else if (s.ranks.size()<2 && s.threads.size()<2 && R.chance(0.3)) { auto& o=R.pick(d.suites); o.fx_req.push_back("fc_"+s.name); s.fx_clean.push_back("fc_"+s.name); }
            else if (R.chance(0.15)) { auto& o=R.pick(d.suites); o.fxi_req.push_back("fd_"+s.name); s.fxi_clean.push_back("fd_"+s.name); }
          }
          d.suites.push_back(s);
        }
        d.execs.push_back(x);
      }
      string c = d.mpi ? "set(EKAT_MPIRUN_EXE "+q(SELF+" --vm-mpirun")+")\nset(EKAT_MPI_NP_FLAG "+(d.map_by?"--map-by":"-n")+")\n"+(d.thread_flag?"set(EKAT_MPI_THREAD_FLAG -c)\n":"")+(d.extra?"set(EKAT_MPI_EXTRA_ARGS \"--extra xx\")\n":"") : "";
      if (d.buffer) c += "set(EKAT_TEST_LAUNCHER_BUFFER ON)\n";
      if (d.tool==1) c += "set(EKAT_ENABLE_VALGRIND ON)\nset(EKAT_VALGRIND_SUPPRESSION_FILE /x/supp)\n";
      if (d.tool==2) c += "set(EKAT_ENABLE_CUDA_MEMCHECK ON)\n";
      if (d.tool==3) c += "set(EKAT_ENABLE_COMPUTE_SANITIZER ON)\nset(EKAT_COMPUTE_SANITIZER_OPTIONS \"--tool racecheck\")\n";
      for (auto& x : d.execs) {
        bool made=false;
        for (auto& s : d.suites) if (s.exec==x.name && s.with_exec) { c += "EkatCreateUnitTest("+x.name+exec_args(x)+suite_args(s)+")\n"; made=true; }
        if (!made) c += "EkatCreateUnitTestExec("+x.name+exec_args(x)+")\n";
        for (auto& s : d.suites) if (s.exec==x.name && !s.with_exec) c += "EkatCreateUnitTestFromExec("+s.name+" "+x.name+suite_args(s)+")\n";
      }
      writef(src+"/"+d.name+"/CMakeLists.txt",c);
      cm += "add_subdirectory("+d.name+")\n";
      dirs.push_back(d);
    }
    writef(src+"/CMakeLists.txt",cm);
    auto r=configure(src,bld);
    VM_CHECK(r.status==0 && r.out.find("Warning")==string::npos,"cmake.accepts","a project of valid requests is not taken: " << errors(r.out));
    if (r.status) return;
    for (auto& d : dirs) writef(bld+"/"+d.name+"/input.txt","line\n");
    r=run({"ninja","-C",bld},S);
    VM_CHECK(r.status==0,"cmake.builds","the executables asked for do not build: " << r.out.substr(r.out.size()>2500?r.out.size()-2500:0));
    if (r.status) return;

    // the tests listed
    r=run({"ctest","--show-only=json-v1"},bld);
    const string js=r.out.substr(r.out.find('{')==string::npos?0:r.out.find('{')); JP jp{js}; J j=jp.val();
    std::map<string,std::map<string,J>> listed; int nl=0;
    if (auto t=j.at("tests")) for (auto& x : t->a) { auto n=x.at("name"); if (!n) continue; ++nl; auto& m=listed[n->s]; if (auto p=x.at("properties")) for (auto& y : p->a) if (y.at("name") && y.at("value")) m[y.at("name")->s]=*y.at("value"); }
    std::map<string,std::pair<const Suite*,std::pair<int,int>>> want;
    std::map<string,const Dir*> dir_of; std::map<string,const Exec*> exec_of;
    for (auto& d : dirs) for (auto& s : d.suites) {
      for (auto& x : d.execs) if (x.name==s.exec) exec_of[s.name]=&x;
      dir_of[s.name]=&d;
      for (auto& c : s.combos) want[full(s,c.first,c.second)]={&s,c};
    }
    vector<string> miss, odd; for (auto& w : want) if (!listed.count(w.first)) miss.push_back(w.first); for (auto& l : listed) if (!want.count(l.first)) odd.push_back(l.first);
    VM_CHECK(miss.empty() && odd.empty() && nl==(int)want.size(),"tests.each-combination","tests not there: " << show(miss) << ", not asked for: " << show(odd) << ", listed " << nl << " instead of " << want.size());
    for (auto& w : want) {
      auto it=listed.find(w.first); if (it==listed.end()) continue;
      auto& p=it->second; const Suite& s=*w.second.first; const int nr=w.second.second.first, nt=w.second.second.second; const string sfx="_np"+std::to_string(nr)+"_omp"+std::to_string(nt);
      auto get=[&](const char* n) { auto f=p.find(n); return f==p.end() ? vector<string>{} : strings(&f->second); };
      auto one=[&](const char* n) { auto v=get(n); return v.empty()?string("-"):v[0]; };
      auto same=[&](const char* n, vector<string> e) { auto v=get(n); std::sort(v.begin(),v.end()); std::sort(e.begin(),e.end()); VM_CHECK(v==e,string("tests.property-")+n,w.first << ": " << n << " is " << show(v) << " instead of " << show(e)); };
      auto plus=[&](vector<string> a, const vector<string>& b) { for (auto& x : b) a.push_back(x+sfx); return a; };
      auto num=[&](const string& x) { return x=="-" ? -1.0 : atof(x.c_str()); };
      VM_CHECK(one("PROCESSORS")==std::to_string(nr*nt) || (nr*nt==1 && one("PROCESSORS")=="-"),"tests.processors",w.first << ": PROCESSORS is " << one("PROCESSORS"));
      same("LABELS",s.labels);
      { auto v=get("DEPENDS"); for (auto& x : s.dep) VM_CHECK(std::count(v.begin(),v.end(),x)>0,"tests.depends",w.first << ": DEPENDS is " << show(v) << ", without " << x);    // ctest adds what fixtures imply
        if (s.fx_req.empty() && s.fxi_req.empty() && s.fx_clean.empty() && s.fxi_clean.empty()) VM_CHECK(v.size()==s.dep.size(),"tests.depends",w.first << ": DEPENDS is " << show(v) << " instead of " << show(s.dep)); }
      same("FIXTURES_SETUP",plus(s.fx_setup,s.fxi_setup)); same("FIXTURES_REQUIRED",plus(s.fx_req,s.fxi_req)); same("FIXTURES_CLEANUP",plus(s.fx_clean,s.fxi_clean));
      VM_CHECK((one("WILL_FAIL")=="true")==s.will_fail,"tests.will-fail",w.first << ": WILL_FAIL is " << one("WILL_FAIL"));
      VM_CHECK(get("RESOURCE_LOCK").size()==(s.serial?1u:0u),"tests.serial",w.first << ": RESOURCE_LOCK is " << show(get("RESOURCE_LOCK")));
      for (auto& x : s.props) VM_CHECK(num(one(x.first.c_str()))==num(x.second),"tests.properties",w.first << ": " << x.first << " is " << one(x.first.c_str()) << " instead of " << x.second);
      int dev=0; auto g=p.find("RESOURCE_GROUPS");
      if (g!=p.end()) for (auto& x : g->second.a) if (auto q2=x.at("requirements")) for (auto& y : q2->a) if (y.at(".type") && y.at(".type")->s=="devices" && y.at("slots")) dev += atoi(y.at("slots")->s.c_str());
      VM_CHECK(dev==nr*nt,"tests.devices",w.first << " asks for " << dev << " devices for " << nr << "x" << nt << " ranks and threads");
    }

    // the tests run
    vector<string> cmd={"ctest","-j","8","--timeout","100","--output-junit",top+"/junit.xml"};
    if (managed) {
      string sp="{\"version\":{\"major\":1,\"minor\":0},\"local\":[{\"devices\":[";
      for (size_t i=0; i<cpus.size(); ++i) sp += string(i?",":"")+"{\"id\":\""+std::to_string(cpus[i])+"\",\"slots\":1}";
      writef(top+"/spec.json",sp+"]}]}\n"); cmd.push_back("--resource-spec-file"); cmd.push_back(top+"/spec.json");
    }
    r=run(cmd,bld,{{"PROBE_LOG",log},{"PATH",PATH}});
    std::map<string,string> verdict;      // of ctest
    { const string x=slurp(top+"/junit.xml"); size_t k=0;
      while ((k=x.find("<testcase ",k))!=string::npos) { size_t e=x.find('>',k); string h=x.substr(k,e-k); auto att=[&](const string& a) { auto b=h.find(" "+a+"=\""); if (b==string::npos) return string(); b+=a.size()+3; return h.substr(b,h.find('"',b)-b); }; verdict[att("name")]=att("status"); k=e; } }
    std::map<string,vector<Rec>> ran; int nrec=0;
    for (auto& f : files(log,"rec.")) {
      Rec t=parse(slurp(f)); ++nrec;
      string id=t.args[0].substr(t.args[0].rfind('/')+1); for (auto& a : t.args) if (a.rfind("--id=",0)==0) id=a.substr(5);
      for (auto& d : dirs) for (auto& y : d.suites) if (y.exec==id && (y.args.empty() || y.args[0].rfind("--id=",0))) { id=y.name; break; }
      auto s=dir_of.find(id);
      VM_CHECK(s!=dir_of.end(),"run.known","a program ran as " << id); if (s==dir_of.end()) continue;
      const Suite* su=nullptr; for (auto& y : s->second->suites) if (y.name==id) su=&y;
      ran[full(*su,s->second->mpi?atoi(t.size.c_str()):1,atoi(t.threads.c_str()))].push_back(t);
    }
    VM_CHECK(files(log,"part.").empty(),"run.ended","programs that did not end: " << files(log,"part.").size());
    // which of them fail, and which do not run because what sets them up failed
    std::map<string,int> exp;    // 0 passes, 1 fails, 2 does not run
    auto fails=[&](const string& n) { auto& s=*want[n].first; bool ok = !s.pass_re.empty() ? s.say=="alpha" : (s.end==0); if (s.will_fail) ok=!ok; return !ok; };
    for (auto& w : want) exp[w.first]=fails(w.first);
    for (bool again=true; again;) {
      again=false;
      for (auto& w : want) if (exp[w.first]!=2) {
        auto& s=*w.second.first; auto sfx=[](std::pair<int,int> c) { return "_np"+std::to_string(c.first)+"_omp"+std::to_string(c.second); };
        for (auto& o : want) if (exp[o.first]) {
          auto& u=*o.second.first; bool need=false;
          for (auto& f : s.fx_req) for (auto& g : u.fx_setup) need |= f==g;
          for (auto& f : s.fxi_req) for (auto& g : u.fxi_setup) need |= f+sfx(w.second.second)==g+sfx(o.second.second);
          if (need) { exp[w.first]=2; again=true; break; }
        }
      }
    }
    for (auto& w : want) {
      const Suite& s=*w.second.first; const Dir& d=*dir_of[s.name]; const int nr=w.second.second.first, nt=w.second.second.second;
      auto& rs=ran[w.first];
      const int e=exp[w.first]; const string v=verdict[w.first];
      VM_CHECK(e==2 ? v!="run" && v!="fail" : v==(e?"fail":"run"),"run.verdict",w.first << " should " << (e==2?"not run":e?"fail":"pass") << ", ctest says " << v << ": " << r.out.substr(0,300));
      VM_CHECK((int)rs.size()==(e==2?0:nr),"run.ranks",w.first << " was run by " << rs.size() << " processes instead of " << (e==2?0:nr));
      std::set<string> ranks;
      for (auto& t : rs) {
        ranks.insert(t.rank);
        if (d.mpi) VM_CHECK(t.size==std::to_string(nr),"run.size",w.first << ": a job of " << t.size);
        VM_CHECK(t.threads==std::to_string(nt),"run.threads",w.first << ": OMP_NUM_THREADS is " << t.threads);
        vector<string> a(t.args.begin()+1,t.args.end());
        VM_CHECK(a==s.want_args,"run.args",w.first << ", given " << show(s.args) << ", ran with " << show(a) << " instead of " << show(s.want_args));
        VM_CHECK(t.args[0].substr(t.args[0].rfind('/')+1)==s.exec,"run.exec",w.first << " ran " << t.args[0]);
        if (nr==1) VM_CHECK(t.input==s.input,"run.input",w.first << " read " << t.input.size() << " bytes");
        string mpi = d.mpi ? string("pe=")+(d.map_by?std::to_string(nt):"-")+" th="+(d.thread_flag?std::to_string(nt):"-")+" ex="+(d.extra?"xx":"-") : "-";
        VM_CHECK(t.mpi==mpi,"run.mpirun",w.first << ": mpirun was given " << t.mpi << " instead of " << mpi);
        static const string tl[]={"-","valgrind --error-exitcode=1 --suppressions=/x/supp","cuda-memcheck --error-exitcode 1","compute-sanitizer --error-exitcode 1 --tool racecheck"};
        VM_CHECK(t.tool==tl[d.tool],"run.tool",w.first << " ran under " << t.tool << " instead of " << tl[d.tool]);
        if (managed) { int n=std::count(t.cpus.begin(),t.cpus.end(),','); VM_CHECK(n==nt,"run.cpus",w.first << ": a rank of " << nt << " threads ran on CPUs " << t.cpus); vm::count("bound_ranks"); }
        // how it was built
        const Exec& x=*exec_of[s.name];
        std::set<string> xm, cmx, ld;
        auto def=[](const string& z) { return z.find('=')==string::npos ? z+"=1" : z; };
        for (auto& z : x.defs) { xm.insert(def(z)); cmx.insert(def(z)); } for (auto& z : x.flags) { xm.insert(def(z.substr(2))); cmx.insert(def(z.substr(2))); }
        for (auto& z : x.xdefs) xm.insert(def(z)); for (auto& z : x.xflags) xm.insert(def(z.substr(2)));
        for (auto& z : x.cdefs) cmx.insert(def(z)); for (auto& z : x.cflags) cmx.insert(def(z.substr(2)));
        for (auto& z : x.libs) if (z!="q1") { string m=z=="l1"?"L1=1":"L2=1"; xm.insert(m); cmx.insert(m); }
        for (auto& z : x.inc) { string m="h"+z.substr(z.size()-1)+"=1"; xm.insert(m); cmx.insert(m); }
        if (!x.no_main) { xm.insert("HAS_MAIN=1"); cmx.insert("HAS_MAIN=1"); } if (!x.own_session) { xm.insert("HAS_SESSION=1"); cmx.insert("HAS_SESSION=1"); }
        for (auto& z : x.ldflags) ld.insert(z.find("lf1")!=string::npos?"lf1":z.find("lf2")!=string::npos?"lf2":"q1");
        VM_CHECK(t.xm==xm && t.cm==cmx && t.ld==ld,"exec.built-as-asked",x.name << ": C++ saw " << vm::list(t.xm) << " instead of " << vm::list(xm) << ", C " << vm::list(t.cm) << " instead of " << vm::list(cmx) << ", the linker " << vm::list(t.ld) << " instead of " << vm::list(ld));
        vm::count("programs_run");
      }
      if (d.mpi && e!=2) { std::set<string> all; for (int k=0; k<nr; ++k) all.insert(std::to_string(k)); VM_CHECK(ranks==all,"run.ranks",w.first << ": ranks " << vm::list(ranks)); }
      vm::count(e==2?"tests_skipped":e?"tests_failing":"tests_passing"); if (s.will_fail) vm::count("will_fail");
    }
    // order and overlap, from the log
    auto span=[&](const string& n, long long& a, long long& b) { auto& v=ran[n]; if (v.empty()) return false; a=v[0].t0; b=v[0].t1; for (auto& t : v) { a=std::min(a,t.t0); b=std::max(b,t.t1); } return true; };
    auto before=[&](const string& x, const string& y, const char* why) { long long a,b,c,d2; if (!span(x,a,b) || !span(y,c,d2)) return; vm::count("orderings"); VM_CHECK(b<c,"run.order",y << " began " << (b-c)/1000 << " us before the end of " << x << ", " << why); };
    for (auto& w : want) {
      const Suite& s=*w.second.first;
      for (auto& x : s.dep) before(x,w.first,"which it depends on");
      for (auto& o : want) {
        auto& u=*o.second.first;
        for (auto& f : s.fx_req) for (auto& g : u.fx_setup) if (f==g) before(o.first,w.first,"which sets it up");
        if (w.second.second==o.second.second) for (auto& f : s.fxi_req) for (auto& g : u.fxi_setup) if (f==g) before(o.first,w.first,"which sets it up");
        for (auto& f : s.fx_req) for (auto& g : u.fx_clean) if (f==g) before(w.first,o.first,"after which it cleans up");
        if (w.second.second==o.second.second) for (auto& f : s.fxi_req) for (auto& g : u.fxi_clean) if (f==g) before(w.first,o.first,"after which it cleans up");
        if (w.first<o.first) {
          long long a,b,c,d2; if (!span(w.first,a,b) || !span(o.first,c,d2)) continue;
          const bool over = a<d2 && c<b; if (over) vm::count("overlapping_pairs");
          if (&s==&u && s.serial) { vm::count("serial_pairs"); VM_CHECK(!over,"run.serial",w.first << " and " << o.first << " of a serial suite ran at the same time"); }
          if (managed && over) for (auto& t : ran[w.first]) for (auto& t2 : ran[o.first]) if (t.t0<t2.t1 && t2.t0<t.t1) {
            std::istringstream i1(t.cpus), i2(t2.cpus); string z; std::set<string> c1, c2; while (std::getline(i1,z,',')) c1.insert(z); while (std::getline(i2,z,',')) c2.insert(z);
            bool share=false; for (auto& y : c1) share |= c2.count(y)>0;
            VM_CHECK(!share,"run.own-cpus",w.first << " on CPUs " << t.cpus << " ran together with " << o.first << " on " << t2.cpus);
          }
        }
      }
      vm::nontrivial(s.name+suite_args(s)+std::to_string(icase)+w.first);
    }
    vm::count("tests",want.size()); vm::count("records",nrec);
    if (icase==0) vm::sample(slurp(src+"/d0/CMakeLists.txt"));
    rm_rf(top);
  });

  // tests of asserts: one line of each source is expected to fail
  vm::sub("asserts",vm::ncases(3,40),[&](vm::Rng& R, long long icase) {
    const string top=S+"/a"+std::to_string(icase), src=top+"/s", bld=top+"/b", log=top+"/log";
    for (auto& d : {top,src,log}) mkdir(d.c_str(),0700);
    const bool debug = icase%3!=2;
    string cm=preamble(true,debug?(R.chance(0.5)?"Debug":"DEBUG"):"Release",false)+"set(EKAT_MPIRUN_EXE "+q(SELF+" --vm-mpirun")+")\nset(EKAT_MPI_NP_FLAG -n)\ninclude(EkatCreateUnitTestWithAsserts)\n";
    std::map<string,vector<string>> marks; std::map<string,bool> pass;
    vector<string> names;
    for (int k=0; k<3; ++k) {
      const int na = k==0 ? (icase%2 ? 0 : (int)R.range(1,3)) : (int)R.range(0,5); const string nm="as"+std::to_string(k); const bool mpi=R.chance(0.4);
      string s="#include <cstdio>\n#include <cstdlib>\n#include <string>\n#include <unistd.h>\nstatic FILE* f;\nstatic void mark (const char* m) { fprintf(f,\"%s\\n\",m); fflush(f); }\n"
        "int main (int, char** argv) {\n  std::string n=argv[0]; n=n.substr(n.rfind('/')+1);\n  const char* r=getenv(\"OMPI_COMM_WORLD_RANK\"), *z=getenv(\"OMPI_COMM_WORLD_SIZE\");\n  f=fopen((std::string(getenv(\"PROBE_LOG\"))+\"/mark.\"+n+\".\"+(z?z:\"1\")+\".\"+(r?r:\"0\")).c_str(),\"a\");\n";
      struct L { int a; bool bad; }; vector<L> ls; int id=0;
      const int nl=R.range(1,4)+na; vector<int> where; for (int i=0; i<nl; ++i) where.push_back(i); for (int i=nl-1; i>0; --i) std::swap(where[i],where[R.range(0,i)]);
      std::set<int> as(where.begin(),where.begin()+na);
      for (int i=0; i<nl; ++i) {
        const bool a=as.count(i)>0, bad=a && R.chance(0.8);
        const string m="m"+std::to_string(i); id+=a;
        if (!a) s += "  mark(\""+m+"\");\n";
        else if (R.chance(0.5)) s += "  mark(\""+m+"\"); "+(bad?"abort();":"")+" // EKAT_EXPECT_ASSERT_FAIL\n";
        else s += "  EKAT_EXPECT_ASSERT_FAIL mark(\""+m+"\");"+(bad?" abort();":"")+"\n";
        ls.push_back({a?id:0,bad});
      }
      s += "  return 0;\n}\n";
      writef(src+"/"+nm+"_src.cpp",s);
      const int lo=1, hi=mpi?2:1;
      cm += "EkatCreateUnitTestWithAsserts("+nm+" "+nm+"_src.cpp"+(mpi?" MPI_RANKS 1 2":"")+" LABELS lx)\n";
      for (int n=0; n<=(debug?na:0); ++n) {
        const string ex = n ? nm+"_check_assert_"+std::to_string(n) : nm;
        vector<string> ms; bool dies=false;
        for (size_t i=0; i<ls.size() && !dies; ++i) if (ls[i].a==0 || ls[i].a==n) { ms.push_back("m"+std::to_string(i)); dies = ls[i].a && ls[i].bad; }
        for (int np=lo; np<=hi; ++np) {
          names.push_back(ex+(mpi?"_np"+std::to_string(np):"")); pass[names.back()] = n ? dies : true;
          for (int rk=0; rk<np; ++rk) marks["mark."+ex+"."+std::to_string(np)+"."+std::to_string(rk)]=ms;
        }
      }
      vm::count("assert_lines",na); if (!na) vm::count("sources_without_asserts");
    }
    writef(src+"/CMakeLists.txt",cm);
    auto r=configure(src,bld);
    VM_CHECK(r.status==0,"asserts.accepts","not taken: " << errors(r.out)); if (r.status) return;
    r=run({"ninja","-C",bld},S);
    VM_CHECK(r.status==0,"asserts.builds","does not build: " << r.out.substr(r.out.size()>2000?r.out.size()-2000:0)); if (r.status) return;
    r=run({"ctest","-j","8","--timeout","100","--output-junit",top+"/junit.xml"},bld,{{"PROBE_LOG",log}});
    std::map<string,string> verdict; { const string x=slurp(top+"/junit.xml"); size_t k=0; while ((k=x.find("<testcase ",k))!=string::npos) { size_t e=x.find('>',k); string h=x.substr(k,e-k); auto att=[&](const string& a) { auto b=h.find(" "+a+"=\""); if (b==string::npos) return string(); b+=a.size()+3; return h.substr(b,h.find('"',b)-b); }; verdict[att("name")]=att("status"); k=e; } }
    VM_CHECK(verdict.size()==names.size(),"asserts.tests","" << verdict.size() << " tests instead of " << names.size());
    for (auto& n : names) VM_CHECK(verdict[n]==(pass[n]?"run":"fail"),"asserts.verdict",n << " should " << (pass[n]?"pass":"fail") << ", ctest says " << verdict[n]);
    std::map<string,vector<string>> got; for (auto& f : files(log,"mark.")) { std::istringstream is(slurp(f)); string l; auto& v=got[f.substr(f.rfind('/')+1)]; while (std::getline(is,l)) v.push_back(l); }
    for (auto& m : marks) VM_CHECK(got[m.first]==m.second,"asserts.lines",m.first << " went through " << show(got[m.first]) << " instead of " << show(m.second));
    vm::count("assert_programs",marks.size()); vm::nontrivial(cm); for (auto& m : marks) vm::nontrivial(m.first+show(m.second));
    rm_rf(top);
  });

  // requests that make no sense are refused
  vm::sub("refused",vm::ncases(40,400),[&](vm::Rng& R, long long icase) {
    const string top=S+"/r"+std::to_string(icase); mkdir(top.c_str(),0700);
    const int n=icase%20; string pre="set(EKAT_MPIRUN_EXE mpirun)\nset(EKAT_MPI_NP_FLAG -n)\n", call; bool bad=true;
    auto I=[&](int a, int b) { return std::to_string(R.range(a,b)); };
    const string K = n%2 ? "MPI_RANKS " : "THREADS "; const int a=R.range(1,5), b=a+R.range(1,3);
    switch (n) {
      case 0: case 1: call=K+"1 2 1 "+I(1,3); break;
      case 2: case 3: call=K+I(-3,0); break;
      case 4: case 5: call=K+I(-3,0)+" "+I(1,4); break;
      case 6: case 7: call=K+I(1,4)+" "+I(-3,0); break;
      case 8: case 9: call=K+std::to_string(b)+" "+std::to_string(a); break;
      case 10: case 11: call=K+std::to_string(b)+" "+std::to_string(a)+" "+I(1,3); break;
      case 12: case 13: call=K+std::to_string(a)+" "+std::to_string(b)+" "+I(-3,-1); break;
      case 14: pre=""; call="MPI_RANKS "+I(2,6); break;
      case 15: pre=""; call="MPI_RANKS 1 "+I(2,6); break;
      case 16: call="FIXTURES_CLEANUP fx "+string(R.chance(0.5)?"MPI_RANKS":"THREADS")+" "+std::to_string(a)+" "+std::to_string(b); break;
      case 17: pre+="set(EKAT_ENABLE_VALGRIND ON)\n"; call="MPI_RANKS 1"; break;
      case 18: bad=false; pre=R.chance(0.5)?"":pre; call="MPI_RANKS 1 THREADS "+std::to_string(a)+" "+std::to_string(b)+" "+I(1,3); break;
      case 19: bad=false; call="MPI_RANKS "+std::to_string(b)+" "+std::to_string(a)+" "+I(-3,-1)+" FIXTURES_CLEANUP_INDIVIDUAL fx"; break;
    }
    writef(top+"/CMakeLists.txt",preamble(false,"Debug",false)+pre+"include(EkatCreateUnitTest)\nadd_executable(ex IMPORTED)\nEkatCreateUnitTestFromExec(tt ex "+call+")\n");
    auto r=run({"cmake","-S",top,"-B",top+"/b"},S);
    VM_CHECK((r.status!=0)==bad,bad?"refused.bad-request":"refused.good-request","EkatCreateUnitTestFromExec(tt ex " << call << ") with " << pre << " was " << (r.status?"refused: ":"taken: ") << r.out.substr(0,400));
    vm::count(bad?"refused":"taken"); vm::nontrivial(call+pre);
    rm_rf(top);
  });
  return vm::finish();
}
