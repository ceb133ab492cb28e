// C29: a message reaches exactly the sinks that the levels let it through to, once, whole and in order, whatever loggers
// share the sinks and whatever threads log; files hold all of it once the loggers are gone.
#include "logmon.hpp"
#include <thread>
#include <pthread.h>
using namespace lm;
static string DIR_;
struct Box { std::unique_ptr<LoggerBase> l; int sink=-1, level=0; string name; };      // sink: index of the (console,file) pair
struct Pair { Sink con, file; string path; int policy=0; bool built=false; };
template<typename P> std::unique_ptr<LoggerBase> make (const string& n, int lev, const ekat::Comm& c, const string& suf, bool all, bool dflt) {
  if (dflt) { if (all) return std::make_unique<Logger<P,LogAllRanks>>(n,LEV[lev],c); return std::make_unique<Logger<P,LogRootRank>>(n,LEV[lev],c); }
  if (all) return std::make_unique<Logger<P,LogAllRanks>>(n,LEV[lev],c,suf); return std::make_unique<Logger<P,LogRootRank>>(n,LEV[lev],c,suf); }
template<typename P> std::unique_ptr<LoggerBase> share (const string& n, int lev, const ekat::Comm& c, bool all, LoggerBase& src, bool src_all) {
  if (all) { if (src_all) return std::make_unique<Logger<P,LogAllRanks>>(n,LEV[lev],c,dynamic_cast<Logger<P,LogAllRanks>&>(src)); return std::make_unique<Logger<P,LogAllRanks>>(n,LEV[lev],c,dynamic_cast<Logger<P,LogRootRank>&>(src)); }
  if (src_all) return std::make_unique<Logger<P,LogRootRank>>(n,LEV[lev],c,dynamic_cast<Logger<P,LogAllRanks>&>(src)); return std::make_unique<Logger<P,LogRootRank>>(n,LEV[lev],c,dynamic_cast<Logger<P,LogRootRank>&>(src)); }

static void history (Rng& r, long long ic) {
  clear_dir(DIR_); Capture cap(DIR_+".stdout"); ekat::Comm comm; std::vector<Pair> pairs; std::vector<Box> box; std::vector<bool> isall; std::vector<std::pair<string,bool>> console;
  string trace; auto desc=[&]{ return trace; }; uint64_t hash=ic;
  auto levels=[&](Box& b){ Pair& p=pairs[b.sink]; VM_CHECK((lidx(b.l->log_level())==b.level) && (lidx(b.l->console_level())==p.con.level) && (lidx(b.l->file_level())==p.file.level),"levels","after "<<desc()<<": levels of "<<b.name<<" are "<<lidx(b.l->log_level())<<","<<lidx(b.l->console_level())<<","<<lidx(b.l->file_level())<<", should be "<<b.level<<","<<p.con.level<<","<<p.file.level); };
  const int steps=(int)r.range(5,60);
  for (int s=0;s<steps;++s) {
    const int k=box.empty()?0:(int)r.range(0,19);
    if (k==0 || (k==1 && pairs.size()<5)) {             // a logger with its own sinks
      Pair p; p.policy=(int)r.range(0,2); const bool all=r.chance(0.4); const int lev=(int)r.range(0,r.chance(0.1)?6:5); const bool dflt=r.chance(0.5);
      const string suf=dflt?".log":r.pick(std::vector<string>{"",".txt",".log",".a.b","_x"}), base="log"+std::to_string(pairs.size()), name=DIR_+"/"+base, fn=name+(all?".1.0":"")+suf;
      if (p.policy) p.path=fn; const bool pre=p.policy==1 && r.chance(0.3); if (pre) { std::ofstream(fn)<<"old content\n"; vm::count("files_replaced"); }
      Box b; b.name=name; b.sink=(int)pairs.size(); b.level=lev; p.con.level=p.file.level=lev;
      b.l = p.policy==0 ? make<LogNoFile>(name,lev,comm,suf,all,dflt) : p.policy==1 ? make<LogBasicFile>(name,lev,comm,suf,all,dflt) : make<LogBigFiles>(name,lev,comm,suf,all,dflt);
      trace+=" new("+base+","+LNAME[lev]+",policy "+std::to_string(p.policy)+(all?",all)":")"); pairs.push_back(p); box.push_back(std::move(b)); isall.push_back(all); levels(box.back());
      VM_CHECK(box.back().l->get_logfile_name()==p.path && box.back().l->name()==name,"file-name","the file of a new logger is \""<<box.back().l->get_logfile_name()<<"\", should be \""<<p.path<<"\"");
      vm::count("loggers");
    } else if (k<=2) {                                   // one that shares the sinks of another
      const size_t i=r.range(0,(long long)box.size()-1); Box b; b.sink=box[i].sink; b.level=(int)r.range(0,6); b.name="shared"+std::to_string(box.size()); const bool all=r.chance(0.5); Pair& p=pairs[b.sink];
      b.l = p.policy==0 ? share<LogNoFile>(b.name,b.level,comm,all,*box[i].l,isall[i]) : p.policy==1 ? share<LogBasicFile>(b.name,b.level,comm,all,*box[i].l,isall[i]) : share<LogBigFiles>(b.name,b.level,comm,all,*box[i].l,isall[i]);
      VM_CHECK(b.l->get_console_sink()==box[i].l->get_console_sink() && b.l->get_file_sink()==box[i].l->get_file_sink(),"shared","a logger built on another's sinks has others"); VM_CHECK(b.l->get_logfile_name()==p.path,"shared-name","a logger sharing the file \""<<p.path<<"\" says its file is \""<<b.l->get_logfile_name()<<"\"");
      trace+=" share("+box[i].name.substr(box[i].name.rfind('/')+1)+","+LNAME[b.level]+")"; box.push_back(std::move(b)); isall.push_back(all); levels(box.back()); vm::count("sharing_loggers");
    } else if (k==3) {                                   // a logger goes; its sinks stay while another uses them
      const size_t i=r.range(0,(long long)box.size()-1); const int sk=box[i].sink; trace+=" drop("+box[i].name.substr(box[i].name.rfind('/')+1)+")"; box.erase(box.begin()+i); isall.erase(isall.begin()+i); vm::count("dropped");
      bool last=true; for (auto& b : box) last=last && b.sink!=sk; Pair& p=pairs[sk];
      if (last && p.policy) { string e=check_stream(slurp(p.path),p.file.lines); VM_CHECK(e=="","file","after"<<desc()<<": the file "<<p.path<<": "<<e); vm::count("files_complete_after_last_logger"); }
    } else if (k<=6) {
      Box& b=box[r.range(0,(long long)box.size()-1)]; Pair& p=pairs[b.sink]; const int lev=(int)r.range(0,6); const int w=(int)r.range(0,2);
      if (w==0) { b.l->set_log_level(LEV[lev]); b.level=lev; } else if (w==1) { b.l->set_console_level(LEV[lev]); p.con.level=lev; } else { b.l->set_file_level(LEV[lev]); p.file.level=lev; }
      trace+=string(" ")+(w==0?"log":w==1?"console":"file")+"_level("+LNAME[lev]+")"; for (auto& x : box) levels(x);
    } else if (k==7) {
      Box& b=box[r.range(0,(long long)box.size()-1)]; Pair& p=pairs[b.sink]; string f="%v"; const int w=(int)r.range(0,2);
      if (w==0) b.l->set_no_format(); else if (w==1) b.l->set_format(); else { f=r.pick(std::vector<string>{"<%l> %v","%n|%l|%v!","%v %v","%%%v"}); b.l->set_format(f); } p.con.fmt=p.file.fmt=f; trace+=" format("+f+")"; vm::count("formats");
    } else if (k==8) {                                   // what is flushed is in the file
      Box& b=box[r.range(0,(long long)box.size()-1)]; Pair& p=pairs[b.sink]; b.l->flush(); if (p.policy) { string e=check_stream(slurp(p.path),p.file.lines); VM_CHECK(e=="","flush","after"<<desc()<<" flush: "<<e); } vm::count("flushes");
    } else {
      Box& b=box[r.range(0,(long long)box.size()-1)]; Pair& p=pairs[b.sink]; const int lev=(int)r.range(0,5); const string m=message(r); send(*b.l,lev,m,(int)r.range(0,3)); vm::count("messages");
      VM_CHECK(b.l->should_log(LEV[lev])==(lev>=b.level),"should-log","");
      const bool pass=lev>=b.level; auto text=[&](Sink& k2){ return k2.fmt=="*default*" ? std::make_pair(" ["+b.name+"] ["+LNAME[lev]+"] "+m,false) : std::make_pair(render(k2.fmt,b.name,lev,m),true); };
      if (pass && lev>=p.con.level) { console.push_back(text(p.con)); vm::count("on_console"); } else vm::count("not_on_console");
      if (pass && lev>=p.file.level && p.policy) { p.file.lines.push_back(text(p.file)); vm::count("in_file"); } else if (p.policy) vm::count("not_in_file");
      if (pass && lev>=p.con.level && lev<p.file.level && p.policy) vm::count("console_only"); if (pass && lev<p.con.level && lev>=p.file.level && p.policy) vm::count("file_only");
      if (console.size()%16==1) { string e=check_stream(cap.text(),console); VM_CHECK(e=="","console","after"<<desc()<<" message "<<LNAME[lev]<<": on the console "<<e); }
      hash=vm::mix(hash^vm::mix(lev*131+b.level)^vm::hash_str(m));
    }
  }
  // loggers go in a random order; whoever is last closes the file
  while (!box.empty()) { const size_t i=r.range(0,(long long)box.size()-1); box.erase(box.begin()+i); }
  string e=check_stream(cap.text(),console); VM_CHECK(e=="","console","after"<<desc()<<": on the console "<<e);
  std::vector<string> expect; for (auto& p : pairs) if (p.policy) { e=check_stream(slurp(p.path),p.file.lines); VM_CHECK(e=="","file","after"<<desc()<<": the file "<<p.path<<": "<<e); expect.push_back(p.path.substr(DIR_.size()+1)); vm::count("files_judged"); }
  std::sort(expect.begin(),expect.end()); VM_CHECK(list_dir(DIR_)==expect,"files","after"<<desc()<<": there are files "<<vm::list(list_dir(DIR_))<<", should be "<<vm::list(expect)); vm::nontrivial(trace+std::to_string(hash)); vm::sample(trace);
}

// several threads log at once; each line must be whole, once, in its thread's order
static void threads (Rng& r, long long) {
  clear_dir(DIR_); ekat::Comm comm; const int nt=(int)r.range(2,8), nm=(int)r.range(20,vm::st().thorough?600:200), pol=(int)r.range(1,2); const bool churn=r.chance(0.5), dflt=r.chance(0.3); const string name=DIR_+"/mt"; string con, file; std::vector<std::vector<string>> sent(nt);
  for (int t=0;t<nt;++t) for (int i=0;i<nm;++i) { string s="t"+std::to_string(t)+" m"+std::to_string(i)+" "; s+=string(r.range(0,r.chance(0.02)?9000:60),(char)('a'+t)); s+=" #"+std::to_string(vm::hash_str(s)); sent[t].push_back(s); }
  { Capture cap(DIR_+".stdout"); {
      auto run=[&](auto& src){ using Lg=std::remove_reference_t<decltype(src)>; if (!dflt) src.set_no_format(); std::vector<std::unique_ptr<LoggerBase>> own; for (int t=0;t<nt;++t) own.push_back(std::make_unique<Lg>("own"+std::to_string(t),LogLevel::trace,comm,src));
        if (!dflt) for (auto& o : own) o->set_no_format();
        std::atomic<int> ready{0}; std::vector<std::thread> th; std::atomic<bool> done{false};
        for (int t=0;t<nt;++t) th.emplace_back([&,t]{ ready++; while (ready<nt) std::this_thread::yield(); for (int i=0;i<nm;++i) { if (t%2) src.info(sent[t][i]); else own[t]->log(LogLevel::warn,"{}",sent[t][i]); if (i%37==5) own[t]->flush(); } });
        std::thread lev; if (churn) lev=std::thread([&]{ int k=0; while (!done) { src.set_console_level(LEV[k%3]); src.set_file_level(LEV[(k+1)%3]); own[0]->set_log_level(LEV[k%4]); src.set_log_level(LEV[k%3]); ++k; std::this_thread::yield(); } });
        for (auto& t : th) t.join(); done=true; if (churn) lev.join(); };
      if (pol==1) { Logger<LogBasicFile,LogRootRank> l(name,LogLevel::trace,comm); run(l); } else { Logger<LogBigFiles,LogRootRank> l(name,LogLevel::trace,comm); run(l); } }
    con=cap.text(); }
  file=slurp(name+".log");
  auto judge=[&](const string& s, const char* what){ std::vector<int> next(nt,0); size_t p=0; long n=0, sw=0; int last=-1; bool ok=true; string bad;
    while (p<s.size() && ok) { size_t e=s.find('\n',p); if (e==string::npos) { ok=false; bad="an unfinished line"; break; } string line=s.substr(p,e-p), l=line; p=e+1; ++n;
      if (dflt) { size_t q=l.find("] t"); if (l.empty() || l[0]!='[' || q==string::npos) { ok=false; bad="the line \""+line.substr(0,100)+"\""; break; } size_t e2; if (!starts_default(l,0,"",e2)) { ok=false; bad="the line \""+line.substr(0,100)+"\" (date)"; break; } l=l.substr(q+2); }
      int t=l.size()>1&&l[0]=='t'?l[1]-'0':-1; if (t<0||t>=nt||next[t]>=nm||l!=sent[t][next[t]]) { ok=false; bad="the line \""+line.substr(0,100)+"\" where thread "+std::to_string(t)+(t>=0&&t<nt&&next[t]<nm?" should continue with \""+sent[t][next[t]].substr(0,60)+"\"":""); break; } ++next[t]; if (t!=last) ++sw; last=t; }
    for (int t=0;t<nt && ok;++t) if (next[t]!=nm) { ok=false; bad="only "+std::to_string(next[t])+" of the "+std::to_string(nm)+" messages of thread "+std::to_string(t); }
    VM_CHECK(ok,string("threads-")+what,nt<<" threads logging "<<nm<<" messages each: the "<<what<<" has "<<bad); vm::count("thread_switches_seen",sw); return sw; };
  const long a=judge(con,"console"), b=judge(file,"file"); vm::count("concurrent_messages",(long)nt*nm); if (a>nt && b>nt) vm::count("interleaved_runs"); vm::nontrivial(vm::hash_str(file)); vm::sample(std::to_string(nt)+" threads x "+std::to_string(nm)+" messages, "+std::to_string(b)+" switches between threads in the file");
}

// more than all the files can hold
static void big (Rng& r, long long) {
  clear_dir(DIR_); ekat::Comm comm; const string name=DIR_+"/big"; const size_t cap1=(size_t)LogBigFiles::mb_per_file*1024*1024; const size_t total=r.chance(0.3)?(size_t)r.range(1,3)*cap1/2:(size_t)r.range(30,110)*1024*1024; std::vector<string> sent; size_t sum=0, maxm=0;
  { Capture cap(DIR_+".stdout"); Logger<LogBigFiles,LogRootRank> l(name,LogLevel::info,comm); l.set_console_level(LogLevel::off); l.set_no_format(); long i=0;
    while (sum<total) { size_t n=r.chance(0.05)?(size_t)r.range(1,3000000):(size_t)r.range(1,200000); string m="m"+std::to_string(i++)+" "; m.resize(std::max(n,m.size()),(char)('a'+i%26)); sent.push_back(m); l.info(m); sum+=m.size()+1; maxm=std::max(maxm,m.size()+1); } VM_CHECK(cap.text()=="","big-console","a silenced console printed"); }
  auto files=list_dir(DIR_); std::map<int,string> byage; bool names=true; for (auto& f : files) { if (f=="big.log") byage[0]=f; else if (f.size()>8 && f.compare(0,4,"big.")==0 && f.compare(f.size()-4,4,".log")==0) byage[atoi(f.c_str()+4)]=f; else names=false; }
  VM_CHECK(names,"big-names","files "<<vm::list(files)); VM_CHECK((int)files.size()<=LogBigFiles::num_files,"big-count","there are "<<files.size()<<" files, more than "<<(int)LogBigFiles::num_files<<": "<<vm::list(files));
  { string prev; bool first=true; for (auto it=byage.rbegin();it!=byage.rend();++it) { string t=slurp(DIR_+"/"+it->second); if (!first) { const size_t e=t.find('\n'); VM_CHECK(e==string::npos || prev.size()+e+1>cap1,"big-early","a file was closed at "<<prev.size()<<" bytes though the next message, "<<e+1<<" bytes, still fitted in "<<LogBigFiles::mb_per_file<<" MB"); vm::count("files_filled"); } prev.swap(t); first=false; } }
  string all; bool sizes=true; for (auto it=byage.rbegin();it!=byage.rend();++it) { string t=slurp(DIR_+"/"+it->second); if (t.size()>cap1) sizes=false; all+=t; } VM_CHECK(sizes,"big-size","a file is larger than "<<LogBigFiles::mb_per_file<<" MB");
  size_t p=all.size(); long kept=0; bool ok=true; for (long i=(long)sent.size()-1;i>=0 && p>0;--i) { const string& m=sent[i]; if (p<m.size()+1 || all[p-1]!='\n' || all.compare(p-1-m.size(),m.size(),m)) { ok=false; break; } p-=m.size()+1; ++kept; }
  VM_CHECK(ok && p==0,"big-content","the files do not hold the last messages in order (after "<<kept<<" of "<<sent.size()<<")"); const size_t want=std::min(sum,(size_t)(LogBigFiles::num_files-1)*(cap1-maxm)); VM_CHECK(all.size()>=want,"big-kept","only "<<all.size()<<" bytes of "<<sum<<" were kept");
  vm::count("big_runs"); if (all.size()<sum) vm::count("wrapped_around"); vm::count("max_files_seen",(long)files.size()); vm::nontrivial(vm::mix(sum)); vm::sample(std::to_string(sum)+" bytes in "+std::to_string(files.size())+" files, "+std::to_string(kept)+" of "+std::to_string(sent.size())+" messages kept");
}
int main (int argc, char** argv) {
  vm::init(argc,argv); DIR_=scratch()+"/logs"; mkdir(DIR_.c_str(),0700);
  const bool tsan = argc>1 && string(argv[argc-1])=="threads-only";
  if (!tsan) { vm::sub("history",vm::ncases(700,12000),history); vm::sub("big",vm::ncases(6,60),big); }
  vm::sub("threads",vm::ncases(60,800),threads);
  clear_dir(DIR_); rmdir(DIR_.c_str());
  return vm::finish();
}
