// C32: the test launcher (bin/test-launcher, configured by cmake's configure_file as EKAT's build does) runs
// exactly the program it is given. This program is also that program: run with VMREC_OUT in its environment it
// records what it was given (arguments, environment, directory, input, CPUs) and ends as told.
#include "vmon.hpp"
#include <poll.h>
#include <sched.h>
#include <sys/stat.h>
#include <dirent.h>
#include <climits>
#include <algorithm>
using std::string; using std::vector;
extern char** environ;

static void put (FILE* f, char tag, const string& s) { fprintf(f,"%c%zu:",tag,s.size()); fwrite(s.data(),1,s.size(),f); fputc('\n',f); }
static string slurp_fd (int fd) { string s; char b[65536]; ssize_t n; while ((n=read(fd,b,sizeof b))>0) s.append(b,n); return s; }
static string slurp (const string& p) { int fd=open(p.c_str(),O_RDONLY); if (fd<0) return ""; string s=slurp_fd(fd); close(fd); return s; }

static void all_out (int fd, const string& s) { size_t k=0; while (k<s.size()) { ssize_t n=write(fd,s.data()+k,s.size()-k); if (n<=0) break; k+=n; } }

static void record (int argc, char** argv) {
  const char* out = getenv("VMREC_OUT");
  if (!out) return;
  const string part = string(out)+"-part."+std::to_string(getpid());
  FILE* f = fopen(part.c_str(),"wb");
  if (!f) _exit(99);
  for (int i=0; i<argc; ++i) put(f,'a',argv[i]);
  for (char** e=environ; *e; ++e) put(f,'e',*e);
  char cwd[PATH_MAX]; put(f,'d',getcwd(cwd,sizeof cwd) ? cwd : "?");
  put(f,'i',slurp_fd(0));
  cpu_set_t c; CPU_ZERO(&c); sched_getaffinity(0,sizeof c,&c);
  string s; for (int i=0; i<CPU_SETSIZE; ++i) if (CPU_ISSET(i,&c)) s += std::to_string(i)+",";
  put(f,'c',s);
  fclose(f);
  if (rename(part.c_str(),(string(out)+"."+std::to_string(getpid())).c_str())) _exit(99);
  all_out(1,slurp(string(getenv("VMREC_SAY"))+".out"));
  all_out(2,slurp(string(getenv("VMREC_SAY"))+".err"));
  const char* end = getenv("VMREC_END");
  if (end[0]=='s') { signal(atoi(end+1),SIG_DFL); kill(getpid(),atoi(end+1)); pause(); }
  _exit(atoi(end+1));
}

struct Rec { vector<string> args; std::map<string,string> env; string cwd, input, cpus; };
static Rec parse (const string& s) {
  Rec r; size_t k=0;
  while (k<s.size()) {
    char t=s[k++]; size_t c=s.find(':',k); size_t n=std::stoul(s.substr(k,c-k)); string v=s.substr(c+1,n); k=c+1+n+1;
    if (t=='a') r.args.push_back(v);
    else if (t=='e') { auto q=v.find('='); r.env[v.substr(0,q)]=v.substr(q+1); }
    else if (t=='d') r.cwd=v; else if (t=='i') r.input=v; else if (t=='c') r.cpus=v;
  }
  return r;
}

struct Run { int status=-1; string out, err; };
static Run run (const vector<string>& cmd, const std::map<string,string>& env, const string& cwd, const string& input) {
  Run r; int pi[2], po[2], pe[2];
  if (pipe(pi) || pipe(po) || pipe(pe)) return r;
  vector<string> es; for (auto& e : env) es.push_back(e.first+"="+e.second);
  vector<char*> av, ev;
  for (auto& a : cmd) av.push_back(const_cast<char*>(a.c_str()));
  for (auto& e : es) ev.push_back(const_cast<char*>(e.c_str()));
  av.push_back(nullptr); ev.push_back(nullptr);
  fflush(nullptr);
  pid_t p = fork();
  if (p==0) {
    alarm(0); signal(SIGPIPE,SIG_DFL);
    dup2(pi[0],0); dup2(po[1],1); dup2(pe[1],2);
    for (int fd : {pi[0],pi[1],po[0],po[1],pe[0],pe[1]}) close(fd);
    if (chdir(cwd.c_str())) _exit(126);
    execvpe(av[0],av.data(),ev.data()); _exit(127);
  }
  close(pi[0]); close(po[1]); close(pe[1]);
  size_t sent=0; if (input.empty()) { close(pi[1]); pi[1]=-1; }
  else fcntl(pi[1],F_SETFL,O_NONBLOCK);
  bool o=true, e=true; char b[65536];
  while (o || e) {
    pollfd f[3] = {{o?po[0]:-1,POLLIN,0},{e?pe[0]:-1,POLLIN,0},{pi[1],POLLOUT,0}};
    if (poll(f,3,-1)<0) break;
    if (o && f[0].revents) { ssize_t n=read(po[0],b,sizeof b); if (n>0) r.out.append(b,n); else o=false; }
    if (e && f[1].revents) { ssize_t n=read(pe[0],b,sizeof b); if (n>0) r.err.append(b,n); else e=false; }
    if (pi[1]>=0 && f[2].revents) {
      ssize_t n=write(pi[1],input.data()+sent,input.size()-sent);
      if (n>0) sent+=n;
      if (n<0 || sent==input.size()) { close(pi[1]); pi[1]=-1; }
    }
  }
  if (pi[1]>=0) close(pi[1]);
  close(po[0]); close(pe[0]);
  int s; waitpid(p,&s,0);
  r.status = WIFEXITED(s) ? WEXITSTATUS(s) : 1000+WTERMSIG(s);
  return r;
}

static string S;   // scratch
static string writef (const string& p, const string& s) { std::ofstream(p,std::ios::binary) << s; return p; }

struct Config { string file, size_var, rank_var; bool managed, gpu; };
static vector<Config> configs;

static void configure () {
  const char* repo = getenv("VMON_REPO");
  int k=0;
  for (int mpich=0; mpich<2; ++mpich) for (int m=0; m<2; ++m) for (int g=0; g<2; ++g) {
    Config c; c.managed=m; c.gpu=g;
    c.size_var = mpich ? "PMI_SIZE" : "OMPI_COMM_WORLD_SIZE"; c.rank_var = mpich ? "PMI_RANK" : "OMPI_COMM_WORLD_RANK";
    c.file = S+"/launcher"+std::to_string(k++)+"/test-launcher";
    string src = writef(S+"/conf.cmake","set(EKAT_MPIRUN_COMM_WORLD_SIZE \""+c.size_var+"\")\nset(EKAT_MPIRUN_COMM_WORLD_RANK \""+c.rank_var
      +"\")\nset(TEST_LAUNCHER_MANAGE_RESOURCES "+(m?"True":"False")+")\nset(TEST_LAUNCHER_ON_GPU "+(g?"True":"False")
      +")\nconfigure_file(\""+repo+"/bin/test-launcher\" \""+c.file+"\")\n");
    std::map<string,string> env; for (char** e=environ; *e; ++e) { string v=*e; auto q=v.find('='); env[v.substr(0,q)]=v.substr(q+1); }
    auto r = run({"cmake","-P",src},env,S,"");
    VM_CHECK(r.status==0,"configure","cmake's configure_file of the launcher failed: " << r.err);
    configs.push_back(c);
  }
}

// Text that a shell would take apart, and ordinary one
static string word (vm::Rng& R, bool hostile, int maxlen) {
  static const vector<string> odd = {" ","  ","\"","'","$","$HOME","`","\\","*","?","~","#",";","|","&","<",">","(",")","{a,b}","[a]","!","\t","\n","%s","=","--","-b","-p","$(echo x)","\u00e9","\u4e2d","${X}","%","^","a b","$$","&&"};
  string s; int n=R.range(0,maxlen);
  for (int i=0; i<n; ++i) {
    if (hostile && R.chance(0.4)) s += R.pick(odd);
    else s += "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_./:,-+@"[R.range(0,49)];
  }
  return s;
}
static vector<string> lines (const string& s) {
  vector<string> v; string l; std::istringstream is(s);
  while (std::getline(is,l)) { while (!l.empty() && (l.back()==' ' || l.back()=='\t' || l.back()=='\r')) l.pop_back(); size_t k=l.find_first_not_of(" \t"); if (k!=string::npos) v.push_back(l.substr(k)); }
  return v;
}
// Every line of what, in order and (being unique) once
static bool holds (const vector<string>& all, const vector<string>& what, string& why) {
  size_t k=0;
  for (auto& w : what) {
    if (std::count(all.begin(),all.end(),w)!=1) { why = std::to_string(std::count(all.begin(),all.end(),w))+" times: "+w.substr(0,80); return false; }
    while (k<all.size() && all[k]!=w) ++k;
    if (k==all.size()) { why = "out of order: "+w.substr(0,80); return false; }
  }
  return true;
}
static vector<string> records (const string& dir) {
  vector<string> v; DIR* d=opendir(dir.c_str()); if (!d) return v;
  while (dirent* e=readdir(d)) { string n=e->d_name; if (n.rfind("rec.",0)==0) v.push_back(dir+"/"+n); }
  closedir(d); return v;
}
static void clear (const string& dir) { for (auto& f : records(dir)) unlink(f.c_str()); }

struct Case { vector<string> opts, args; string prog, cwd, input, say_out, say_err, end; std::map<string,string> env; };

static string one_line (vm::Rng& R, int i, const char* tag) { return string(tag)+std::to_string(i)+" "+word(R,true,20); }
static string tidy (string s) { for (auto& c : s) if (c=='\n') c='_'; return s; }

static Case draw (vm::Rng& R, bool tame) {
  Case c;
  if (R.chance(0.5)) c.opts.push_back(R.chance(0.5)?"-b":"--buffer-output");
  if (R.chance(0.3)) c.opts.push_back(R.chance(0.5)?"-p":"--print-omp-affinity");
  if (c.opts.size()==2 && R.chance(0.3)) c.opts = {"-bp"};
  int n = R.range(0,8);
  static const vector<string> own = {"--","-b","-p","--help","-h","--buffer-output","--print-omp-affinity","-"};
  for (int i=0; i<n; ++i) c.args.push_back(!tame && R.chance(0.1) ? R.pick(own) : tame ? "x"+word(R,false,8) : word(R,true,8));
  c.cwd = S + "/w" + (tame ? "" : word(R,true,3)); std::replace(c.cwd.begin()+S.size()+1,c.cwd.end(),'/','_');
  string pn = tame ? "prog" : "p"+word(R,true,4); std::replace(pn.begin(),pn.end(),'/','_');
  mkdir(c.cwd.c_str(),0700);
  string link=c.cwd+"/"+pn; if (symlink(vm::st().self.c_str(),link.c_str())) {}
  c.prog = R.chance(0.7) ? "./"+pn : link;
  if (R.chance(0.5)) { int m=R.range(1,R.chance(0.1)?20000:20); for (int i=0; i<m; ++i) c.input += one_line(R,i,"in")+"\n"; if (R.chance(0.2)) c.input += string("\0\x01\xff",3); }
  int m=R.chance(0.05) ? 5000 : (int)R.range(0,20);
  for (int i=0; i<m; ++i) c.say_out += tidy(one_line(R,i,"out"))+"\n";
  m=R.chance(0.05) ? 5000 : (int)R.range(0,5);
  for (int i=0; i<m; ++i) c.say_err += tidy(one_line(R,i,"err"))+"\n";
  static const vector<string> sig = {"s6","s9","s11","s15","s8"};
  c.end = R.chance(0.5) ? "x0" : R.chance(0.3) ? R.pick(sig) : "x"+std::to_string(R.range(1,255));
  c.env = {{"PATH",getenv("PATH")},{"HOME",S}};
  int ne=R.range(0,4); for (int i=0; i<ne; ++i) c.env["VMU"+std::to_string(i)] = word(R,!tame,10);
  if (R.chance(0.4)) { static const vector<string> b={"false","close","spread","true",""}; c.env["OMP_PROC_BIND"]=R.pick(b); }
  if (R.chance(0.4)) { static const vector<string> b={"cores","sockets","{0,1},{2,3}","","threads(2)"}; c.env["OMP_PLACES"]=R.pick(b); }
  if (R.chance(0.5)) c.env["OMP_NUM_THREADS"]=std::to_string(R.range(1,8));
  return c;
}

static string show (const vector<string>& v) { string s; for (auto& x : v) s += "["+x+"] "; return s; }

// Runs it; r is what the program recorded, when it ran (once)
static Run launch (const Config& cf, Case& c, vector<Rec>& recs) {
  c.env["VMREC_OUT"]=S+"/rec"; c.env["VMREC_SAY"]=S+"/say"; c.env["VMREC_END"]=c.end;
  writef(S+"/say.out",c.say_out); writef(S+"/say.err",c.say_err);
  clear(S);
  vector<string> cmd={"python3",cf.file};
  for (auto& o : c.opts) cmd.push_back(o);
  cmd.push_back("--"); cmd.push_back(c.prog);
  for (auto& a : c.args) cmd.push_back(a);
  auto r = run(cmd,c.env,c.cwd,c.input);
  for (auto& f : records(S)) recs.push_back(parse(slurp(f)));
  return r;
}

static void judge (const Config& cf, const Case& c, const Run& r, const vector<Rec>& recs) {
  const string what = show(c.opts)+"-- ["+c.prog+"] "+show(c.args);
  VM_CHECK(recs.size()==1,"launcher.runs-once","the program ran " << recs.size() << " times: " << what << " status " << r.status << " err: " << r.err.substr(0,300));
  if (recs.size()!=1) return;
  const Rec& q = recs[0];
  vector<string> got(q.args.begin()+1,q.args.end());
  VM_CHECK(q.args[0]==c.prog,"launcher.program","given " << c.prog << " ran as " << q.args[0]);
  VM_CHECK(got==c.args,"launcher.args","given " << what << " the program got " << show(got));
  VM_CHECK(q.cwd==c.cwd,"launcher.directory","started in " << c.cwd << " ran in " << q.cwd);
  VM_CHECK(q.input==c.input,"launcher.input","the program read " << q.input.size() << " of " << c.input.size() << " bytes of input");
  VM_CHECK((r.status==0)==(c.end=="x0"),"launcher.status","the program ended with " << c.end << ", the launcher with " << r.status);
  // environment
  bool p=false, b=false; for (auto& o : c.opts) { if (o=="-p" || o=="--print-omp-affinity" || o=="-bp") p=true; if (o=="-b" || o=="--buffer-output" || o=="-bp") b=true; }
  auto want=c.env;
  want.insert({"OMP_PROC_BIND","spread"}); want.insert({"OMP_PLACES","threads"});
  if (p) { want.insert({"OMP_DISPLAY_ENV","verbose"}); want.insert({"OMP_DISPLAY_AFFINITY","true"}); }
  auto have=q.env; for (auto k : {"_","PWD","OLDPWD","SHLVL","LC_CTYPE"}) have.erase(k);
  for (auto& e : want) {
    auto it=have.find(e.first);
    VM_CHECK(it!=have.end() && it->second==e.second,"launcher.environment",e.first << " should be [" << e.second << "] and is " << (it==have.end() ? "not set" : "["+it->second+"]") << " for " << what);
  }
  for (auto& e : have) VM_CHECK(want.count(e.first),"launcher.environment","the launcher set " << e.first << "=" << e.second << " for " << what);
  // output
  string why; auto lo=lines(c.say_out), le=lines(c.say_err);
  auto ro=lines(r.out), re=lines(r.err);
  VM_CHECK(holds(ro,lo,why),"launcher.output","standard output of the program in that of the launcher (buffered " << b << "): " << why);
  if (b) VM_CHECK(holds(ro,le,why),"launcher.output","standard error of the program in the launcher's buffered output: " << why);
  else VM_CHECK(holds(re,le,why),"launcher.output","standard error of the program in that of the launcher: " << why);
  vm::count("programs_run"); vm::count("arguments",c.args.size()); vm::count("lines",lo.size()+le.size()); vm::count(b?"buffered":"unbuffered");
  if (c.end[0]=='s') vm::count("killed_by_signal"); else if (c.end!="x0") vm::count("failing_programs");
  if (!c.input.empty()) vm::count("with_input");
  vm::nontrivial(what+c.end+c.say_out);
  vm::sample(what+" end "+c.end);
  (void)cf;
}

static vector<int> cpus () { cpu_set_t c; CPU_ZERO(&c); sched_getaffinity(0,sizeof c,&c); vector<int> v; for (int i=0; i<CPU_SETSIZE; ++i) if (CPU_ISSET(i,&c)) v.push_back(i); return v; }
static string str_cpus (vector<int> v) { std::sort(v.begin(),v.end()); v.erase(std::unique(v.begin(),v.end()),v.end()); string s; for (int i : v) s += std::to_string(i)+","; return s; }

__attribute__((constructor)) static void early (int argc, char** argv, char**) { if (getenv("VMREC_OUT")) record(argc,argv); }

int main (int argc, char** argv) {
  vm::init(argc,argv);
  signal(SIGPIPE,SIG_IGN);
  char self[PATH_MAX]; ssize_t n=readlink("/proc/self/exe",self,sizeof self-1); self[n]=0; vm::st().self=self;
  { const char* s=getenv("VMON_SCRATCH"); string base=s?s:"/tmp"; S=base+"/c32"; mkdir(S.c_str(),0700); char b[PATH_MAX]; if (realpath(S.c_str(),b)) S=b; }
  setenv("LC_ALL","C.UTF-8",1);
  configure();
  const auto all = cpus();

  vm::sub("programs",vm::ncases(260,4000),[&](vm::Rng& R, long long) {
    auto& cf = R.pick(configs);
    Case c = draw(R,R.chance(0.15));
    if (R.chance(0.3)) { int nr=R.range(1,6); c.env[cf.size_var]=std::to_string(nr); c.env[cf.rank_var]=std::to_string(R.range(0,nr-1)); }
    if (!cf.managed && R.chance(0.3)) { c.env["CTEST_RESOURCE_GROUP_COUNT"]="1"; c.env["CTEST_RESOURCE_GROUP_0"]="devices"; c.env["CTEST_RESOURCE_GROUP_0_DEVICES"]="id:"+std::to_string(all[0])+",slots:1"; }
    vector<Rec> recs; auto r=launch(cf,c,recs);
    judge(cf,c,r,recs);
    if (recs.size()==1) VM_CHECK(recs[0].cpus==str_cpus(all),"launcher.unmanaged-cpus","without resources to manage the program ran on CPUs " << recs[0].cpus << " of " << str_cpus(all));
  });

  // Ranks of a job with resources from ctest: rank r gets the r-th chunk of the ids of its group
  vm::sub("resources",vm::ncases(60,900),[&](vm::Rng& R, long long) {
    auto& cf = configs[(R.range(0,1)*4)+2+(R.chance(0.3)?1:0)];
    int nr=R.range(1,cf.gpu ? 6 : std::min<int>(6,all.size())), per = cf.gpu ? 1 : R.range(1,std::max<int>(1,all.size()/nr));
    vector<int> ids = cf.gpu ? vector<int>{0,1,2,3,4,5,6,7,8,9,10,11} : all;
    for (int i=ids.size()-1; i>0; --i) std::swap(ids[i],ids[R.range(0,i)]);
    ids.resize(nr*per);
    if (R.chance(0.5)) std::sort(ids.begin(),ids.end());
    int kind = R.range(0,9);   // 0: one id too many, 1: group of another kind, 2: group missing, 3: no devices, 4: no resources
    auto given=ids;
    if (kind==0) { if (nr==1 && !cf.gpu) kind=9; else given.push_back(nr==1 ? 13 : all[0]); }
    bool pad=R.chance(0.5); int slots=R.range(1,4); string dev;
    for (int i : given) { char b[40]; snprintf(b,sizeof b,pad?"%sid:%03d,slots:%d":"%sid:%d,slots:%d",dev.empty()?"":";",i,slots); dev+=b; }
    std::sort(ids.begin(),ids.end());
    vector<int> covered;
    for (int r=0; r<nr; ++r) {
      Case c = draw(R,true);
      if (nr>1 || R.chance(0.7)) { c.env[cf.size_var]=std::to_string(nr); c.env[cf.rank_var]=std::to_string(r); }
      if (kind!=4) c.env["CTEST_RESOURCE_GROUP_COUNT"]="1";
      if (kind!=2) c.env["CTEST_RESOURCE_GROUP_0"]=kind==1?"gadgets":"devices";
      if (kind!=3) c.env[kind==1?"CTEST_RESOURCE_GROUP_0_GADGETS":"CTEST_RESOURCE_GROUP_0_DEVICES"]=dev;
      vector<Rec> recs; auto q=launch(cf,c,recs);
      if (kind<=3) {
        VM_CHECK(recs.empty() && q.status!=0,"launcher.refuses-resources","resources [" << dev << "] kind " << kind << " for " << nr << " ranks: the program ran " << recs.size() << " times, status " << q.status);
        vm::count("refused_resources"); vm::nontrivial(dev+std::to_string(nr*100+r));
        continue;
      }
      judge(cf,c,q,recs);
      if (recs.size()!=1) continue;
      vector<int> mine(ids.begin()+r*per,ids.begin()+(r+1)*per);
      string want = kind==4 || cf.gpu ? str_cpus(all) : str_cpus(mine);
      VM_CHECK(recs[0].cpus==want,"launcher.cpus","rank " << r << " of " << nr << " with [" << dev << "] ran on CPUs " << recs[0].cpus << " instead of " << want);
      vm::count(kind==4 ? "without_resources" : cf.gpu ? "device_ranks" : "bound_ranks");
      vm::nontrivial(dev+std::to_string(nr*100+r));
    }
  });

  // The same in a real job
  vm::sub("jobs",vm::ncases(6,60),[&](vm::Rng& R, long long) {
    auto& cf = configs[R.range(0,3)];
    int nr=R.range(1,std::min<int>(4,all.size())), per=R.range(1,all.size()/nr);
    if (cf.gpu) per=1;
    vector<int> ids=all; for (int i=ids.size()-1; i>0; --i) std::swap(ids[i],ids[R.range(0,i)]);
    ids.resize(nr*per); string dev; for (int i : ids) dev += (dev.empty()?"id:":";id:")+std::to_string(i)+",slots:1";
    std::sort(ids.begin(),ids.end());
    Case c = draw(R,false); c.end = R.chance(0.7) ? "x0" : "x3"; c.say_out.clear(); c.say_err.clear(); c.input.clear();
    for (char** e=environ; *e; ++e) { string v=*e; auto q=v.find('='); if (v.rfind("OMPI_",0)==0) c.env[v.substr(0,q)]=v.substr(q+1); }
    c.env["VMREC_OUT"]=S+"/rec"; c.env["VMREC_SAY"]=S+"/say"; c.env["VMREC_END"]=c.end;
    c.env["CTEST_RESOURCE_GROUP_COUNT"]="1"; c.env["CTEST_RESOURCE_GROUP_0"]="devices"; c.env["CTEST_RESOURCE_GROUP_0_DEVICES"]=dev;
    writef(S+"/say.out",""); writef(S+"/say.err",""); clear(S);
    vector<string> cmd={"mpirun","--oversubscribe","--bind-to","none","-n",std::to_string(nr),"python3",cf.file};
    for (auto& o : c.opts) cmd.push_back(o);
    cmd.push_back("--"); cmd.push_back(c.prog); for (auto& a : c.args) cmd.push_back(a);
    auto q=run(cmd,c.env,c.cwd,"");
    auto rs=records(S); std::set<string> ranks;
    VM_CHECK((q.status==0)==(c.end=="x0"),"launcher.job-status","the programs of the job end with " << c.end << ", the job with " << q.status << ": " << q.err.substr(0,500));
    // mpirun ends a job at the first failure, maybe before other ranks began
    VM_CHECK((int)rs.size()==nr || (c.end!="x0" && !rs.empty() && (int)rs.size()<nr),"launcher.job-runs-once","job of " << nr << " ranks ran the program " << rs.size() << " times: " << q.err.substr(0,500));
    for (auto& f : rs) {
      Rec t=parse(slurp(f));
      vector<string> got(t.args.begin()+1,t.args.end());
      VM_CHECK(got==c.args,"launcher.args","in a job, given " << show(c.args) << " the program got " << show(got));
      string rk=t.env["OMPI_COMM_WORLD_RANK"]; ranks.insert(rk); int r=atoi(rk.c_str());
      vector<int> mine(ids.begin()+r*per,ids.begin()+(r+1)*per);
      string want = cf.managed && !cf.gpu ? str_cpus(mine) : str_cpus(all);
      VM_CHECK(t.cpus==want,"launcher.cpus","rank " << r << " of a job of " << nr << " with [" << dev << "] ran on CPUs " << t.cpus << " instead of " << want);
      vm::count("job_ranks");
    }
    if (c.end=="x0") VM_CHECK((int)ranks.size()==nr,"launcher.job-ranks","the records name " << ranks.size() << " ranks of " << nr);
    vm::nontrivial(dev+show(c.args));
  });

  vm::sub("refused",vm::ncases(30,300),[&](vm::Rng& R, long long i) {
    auto& cf = R.pick(configs);
    Case c = draw(R,true);
    c.env["VMREC_OUT"]=S+"/rec"; c.env["VMREC_SAY"]=S+"/say"; c.env["VMREC_END"]="x0";
    clear(S);
    vector<string> cmd={"python3",cf.file}; for (auto& o : c.opts) cmd.push_back(o);
    switch (i%5) {
      case 0: break;
      case 1: cmd.push_back("--"); break;
      case 2: cmd.push_back(c.prog); for (auto& a : c.args) cmd.push_back(a); break;
      case 3: cmd.push_back("--no-such-option"); cmd.push_back("--"); cmd.push_back(c.prog); break;
      case 4: cmd.push_back("--"); cmd.push_back("./no-such-program"); break;
    }
    auto r=run(cmd,c.env,c.cwd,"");
    VM_CHECK(r.status!=0 && records(S).empty(),"launcher.refuses","" << show(cmd) << " ended with " << r.status << " after " << records(S).size() << " programs");
    vm::count("refused"); vm::nontrivial(show(cmd));
  });
  return vm::finish();
}
