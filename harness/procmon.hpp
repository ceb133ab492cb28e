// Running programs and handling files, for the monitors of scripts.
#ifndef PROCMON_HPP
#define PROCMON_HPP
#include "vmon.hpp"
#include <algorithm>
#include <dirent.h>
#include <signal.h>
#include <sys/stat.h>
extern char** environ;
namespace pm {
using std::string; using std::vector;
inline string slurp_fd (int fd) { string s; char b[65536]; ssize_t n; while ((n=read(fd,b,sizeof b))>0) s.append(b,n); return s; }
inline string slurp (const string& p) { int fd=open(p.c_str(),O_RDONLY); if (fd<0) return ""; string s=slurp_fd(fd); close(fd); return s; }
inline void writef (const string& p, const string& s) { std::ofstream(p,std::ios::binary) << s; }
inline bool exists (const string& p) { struct stat s; return stat(p.c_str(),&s)==0; }
inline string tail (const string& s, size_t n) { return s.size()>n ? s.substr(s.size()-n) : s; }
inline vector<string> words (const string& s) { std::istringstream i(s); vector<string> v; string w; while (i>>w) v.push_back(w); return v; }
inline vector<string> list_dir (const string& dir) {
  vector<string> v; DIR* d=opendir(dir.c_str()); if (!d) return v;
  while (dirent* e=readdir(d)) { string n=e->d_name; if (n!="." && n!="..") v.push_back(n); }
  closedir(d); std::sort(v.begin(),v.end()); return v;
}
struct Run { int status=-1; string out; };
// A program in a process group of its own, its output in a file
struct Proc { pid_t pid=-1; string file; };
inline Proc start (const vector<string>& cmd, const string& cwd, const string& file, const std::map<string,string>& more={}) {
  std::map<string,string> env;
  for (char** e=environ; *e; ++e) { string v=*e; auto q=v.find('='); string k=v.substr(0,q); bool keep=true; for (const char* p : {"OMPI_","VMON","OMP_","VERIF","CTEST_","CMAKE_","CXXFLAGS","CFLAGS","FFLAGS","LDFLAGS","GIT_"}) if (k.rfind(p,0)==0) keep=false; if (keep) env[k]=v.substr(q+1); }
  for (auto& m : more) env[m.first]=m.second;
  vector<string> es; for (auto& e : env) es.push_back(e.first+"="+e.second);
  vector<char*> av, ev;
  for (auto& a : cmd) av.push_back(const_cast<char*>(a.c_str()));
  for (auto& e : es) ev.push_back(const_cast<char*>(e.c_str()));
  av.push_back(nullptr); ev.push_back(nullptr);
  Proc r; r.file=file; fflush(nullptr);
  r.pid=fork();
  if (r.pid==0) {
    alarm(0); setpgid(0,0);
    int z=open("/dev/null",O_RDONLY), o=open(file.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0600); dup2(z,0); dup2(o,1); dup2(o,2); close(z); close(o);
    if (chdir(cwd.c_str())) _exit(126);
    execvpe(av[0],av.data(),ev.data()); _exit(127);
  }
  setpgid(r.pid,r.pid);
  return r;
}
inline Run wait_for (const Proc& p) { Run r; int s; waitpid(p.pid,&s,0); r.status = WIFEXITED(s)?WEXITSTATUS(s):1000+WTERMSIG(s); r.out=slurp(p.file); unlink(p.file.c_str()); return r; }
inline Run run (const vector<string>& cmd, const string& cwd, const std::map<string,string>& more={}) {
  static int n=0; return wait_for(start(cmd,cwd,cwd+"/.out."+std::to_string(getpid())+"."+std::to_string(n++),more));
}
inline void rm_rf (const string& d) { if (d.size()>12 && d.find("..")==string::npos) run({"rm","-rf",d},"/tmp"); }
inline string q (const string& s) { return "[==["+s+"]==]"; }
inline string errors (const string& o) { size_t k=o.find("CMake Error"); if (k==string::npos) k=o.find("error:"); return k==string::npos ? tail(o,1200) : o.substr(k>200?k-200:0,1500); }
} // namespace pm
#endif
