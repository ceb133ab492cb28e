// logmon.hpp: a model of the logger: every message goes to exactly the sinks whose level, and whose logger's level, let it through
#ifndef LOGMON_HPP
#define LOGMON_HPP
#include "vmon.hpp"
#include "ekat_logger.hpp"
#include <dirent.h>
#include <sys/stat.h>
#include <algorithm>
#include <memory>
#include <regex>
namespace lm {
using namespace ekat::logger; using std::string; using vm::Rng;
inline string scratch () { const char* s=getenv("VMON_SCRATCH"); return s?s:"/tmp"; }
inline string slurp (const string& f) { std::ifstream i(f,std::ios::binary); return string((std::istreambuf_iterator<char>(i)),{}); }
inline bool exists (const string& f) { struct stat s; return stat(f.c_str(),&s)==0; }
inline std::vector<string> list_dir (const string& d) { std::vector<string> v; if (DIR* p=opendir(d.c_str())) { while (dirent* e=readdir(p)) { string n=e->d_name; if (n!="." && n!="..") v.push_back(n); } closedir(p); } std::sort(v.begin(),v.end()); return v; }
inline void clear_dir (const string& d) { for (auto& f : list_dir(d)) unlink((d+"/"+f).c_str()); }
struct Capture {       // standard output of this process, into a file
  int old; string f; explicit Capture (const string& f_) : f(f_) { fflush(stdout); old=dup(1); int fd=open(f.c_str(),O_RDWR|O_CREAT|O_TRUNC,0600); dup2(fd,1); close(fd); }
  string text () { fflush(stdout); return slurp(f); }
  ~Capture () { fflush(stdout); dup2(old,1); close(old); unlink(f.c_str()); }
};
static const LogLevel LEV[7]={LogLevel::trace,LogLevel::debug,LogLevel::info,LogLevel::warn,LogLevel::err,LogLevel::critical,LogLevel::off};
static const char* LNAME[7]={"trace","debug","info","warning","error","critical","off"};
inline int lidx (LogLevel l) { for (int i=0;i<7;++i) if (LEV[i]==l) return i; return -1; }
struct Sink { int level=0; string fmt="*default*"; std::vector<std::pair<string,bool>> lines; bool off=false; };   // (expected text, exact?)
inline string render (const string& fmt, const string& name, int lev, const string& msg) {
  string o; for (size_t i=0;i<fmt.size();++i) if (fmt[i]=='%' && i+1<fmt.size()) { char c=fmt[++i]; o += c=='v'?msg:c=='n'?name:c=='l'?string(LNAME[lev]):c=='%'?string("%"):string(); } else o+=fmt[i]; return o; }
// the text of a default-format line starts with the date, then the logger's name and the level
inline bool starts_default (const string& s, size_t p, const string& rest, size_t& end) {
  if (s.size()<p+25 || s[p]!='[' || s[p+24]!=']') return false; static const char* pat="dddd-dd-dd dd:dd:dd.ddd"; for (int i=0;pat[i];++i) if (pat[i]=='d' ? !isdigit((unsigned char)s[p+1+i]) : s[p+1+i]!=pat[i]) return false;
  if (s.compare(p+25,rest.size(),rest)) return false; end=p+25+rest.size(); return true;
}
inline string check_stream (const string& got, const std::vector<std::pair<string,bool>>& want) {   // "" if got is the lines in order, nothing else
  size_t p=0; for (size_t i=0;i<want.size();++i) { const string w=want[i].first+"\n"; size_t e;
    if (want[i].second) { if (got.compare(p,w.size(),w)) return "line "+std::to_string(i)+" of "+std::to_string(want.size())+" is not \""+want[i].first.substr(0,80)+"\" but \""+got.substr(p,100)+"\""; p+=w.size(); }
    else { if (!starts_default(got,p,w,e)) return "line "+std::to_string(i)+" is not a default line of \""+want[i].first.substr(0,80)+"\" but \""+got.substr(p,120)+"\""; p=e; } }
  if (p!=got.size()) return "there is more than the "+std::to_string(want.size())+" lines expected: \""+got.substr(p,100)+"\""; return "";
}
inline string message (Rng& r) {
  switch (r.range(0,9)) { case 0: return ""; case 1: return "a {} brace {0} {x} }{"; case 2: return "per %v cent %n %d %%"; case 3: { string s; for (int i=0,n=(int)r.range(1,20);i<n;++i) s+=(char)r.range(128,255); return s; }
    case 4: return string("nul\0in",6); case 5: return string(r.range(1,40000),(char)('a'+r.range(0,25))); default: { string s; for (int i=0,n=(int)r.range(1,40);i<n;++i) s+=(char)r.range(32,126); return s; } }
}
// send a message at a level through one of the ways the logger offers
template<typename L> void send (L& l, int lev, const string& m, int way) {
  if (way==0) { l.log(LEV[lev],m); return; } if (way==1) { l.log(LEV[lev],"{}",m); return; }
  auto one=[&](auto&&... a){ switch (lev) { case 0: l.trace(a...); break; case 1: l.debug(a...); break; case 2: l.info(a...); break; case 3: l.warn(a...); break; case 4: l.error(a...); break; default: l.critical(a...); } };
  if (way==2) one(m); else one("{}",m);
}
}
#endif
