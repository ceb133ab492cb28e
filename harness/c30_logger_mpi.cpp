// C30: only the ranks the output policy allows produce output, each rank's log holds its own messages, named as documented
#include "logmon.hpp"
#include "ekat_comm.hpp"
#include <mpi.h>
using namespace lm;
static string DIR_; static int wr, ws;
struct Box { std::unique_ptr<LoggerBase> l; bool logs=false, src_all=false, mute=false; int pair=0, level=0; string name; };
struct Pair { Sink con, file; string path; bool real=false, logs=false; int policy=0; };
template<typename P> std::unique_ptr<LoggerBase> make (const string& n, int lev, const ekat::Comm& c, const string& suf, bool all) {
  if (all) return std::make_unique<Logger<P,LogAllRanks>>(n,LEV[lev],c,suf); return std::make_unique<Logger<P,LogRootRank>>(n,LEV[lev],c,suf); }
template<typename P> std::unique_ptr<LoggerBase> share (const string& n, int lev, const ekat::Comm& c, bool all, LoggerBase& src, bool src_all) {
  if (all) { if (src_all) return std::make_unique<Logger<P,LogAllRanks>>(n,LEV[lev],c,dynamic_cast<Logger<P,LogAllRanks>&>(src)); return std::make_unique<Logger<P,LogAllRanks>>(n,LEV[lev],c,dynamic_cast<Logger<P,LogRootRank>&>(src)); }
  if (src_all) return std::make_unique<Logger<P,LogRootRank>>(n,LEV[lev],c,dynamic_cast<Logger<P,LogAllRanks>&>(src)); return std::make_unique<Logger<P,LogRootRank>>(n,LEV[lev],c,dynamic_cast<Logger<P,LogRootRank>&>(src)); }

static void policies (Rng& r, long long ic) {
  // r is the same on all ranks, q belongs to this one
  Rng q(vm::mix(r.u64()^(uint64_t)wr)); std::vector<ekat::Comm> comms; std::vector<MPI_Comm> mine; std::vector<string> tag; std::vector<std::pair<int,int>> rs;
  comms.emplace_back(MPI_COMM_WORLD); tag.push_back("w"); rs.push_back({wr,ws});
  for (int k=0;k<2;++k) { std::vector<int> col(ws), key(ws); for (int i=0;i<ws;++i) { col[i]=(int)r.range(0,2); key[i]=(int)r.range(0,50)*8+i; } MPI_Comm m; MPI_Comm_split(MPI_COMM_WORLD,col[wr],key[wr],&m); mine.push_back(m); comms.emplace_back(m); tag.push_back("s"+std::to_string(k)+"c"+std::to_string(col[wr]));
    int rk=0, sz=0; for (int i=0;i<ws;++i) if (col[i]==col[wr]) { ++sz; if (key[i]<key[wr]) ++rk; } rs.push_back({rk,sz}); }
  Capture cap(DIR_+".stdout."+std::to_string(wr)); std::vector<Pair> pairs; std::vector<Box> box; std::vector<std::pair<string,bool>> console; string trace; std::vector<string> mypaths; bool any_silent=false;
  auto levels=[&](const Box& b, const string& when){ const Pair& p=pairs[b.pair]; const int want=b.logs?b.level:6;
    VM_CHECK(lidx(b.l->log_level())==want,"level",when<<" on rank "<<wr<<", which "<<(b.logs?"logs":"is silent")<<", the level of "<<b.name<<" is "<<lidx(b.l->log_level())<<", should be "<<want); if (p.real) VM_CHECK(lidx(b.l->file_level())==p.file.level && lidx(b.l->console_level())==p.con.level,"sink-levels",when); };
  const int steps=(int)r.range(6,30);
  for (int s=0;s<steps;++s) {
    const int k=box.empty()?0:(int)r.range(0,11);
    if (k==0 && pairs.size()<6) {
      const int ci=(int)r.range(0,2), pol=(int)r.range(0,2), lev=(int)r.range(0,5); const bool all=r.chance(0.5); const string suf=r.pick(std::vector<string>{".log",".log","",".txt"}); const string name=DIR_+"/L"+std::to_string(pairs.size())+tag[ci]; const int rk=rs[ci].first, sz=rs[ci].second;
      const string fn=all?name+"."+std::to_string(sz)+"."+std::to_string(rk)+suf:name+suf; Pair p; p.policy=pol; p.logs=all||rk==0; p.real=p.logs; p.path=pol?fn:""; p.con.level=p.file.level=p.logs?lev:6;
      Box b; b.name=name; b.logs=p.logs; b.level=lev; b.src_all=all; b.pair=(int)pairs.size(); b.l=pol==0?make<LogNoFile>(name,lev,comms[ci],suf,all):pol==1?make<LogBasicFile>(name,lev,comms[ci],suf,all):make<LogBigFiles>(name,lev,comms[ci],suf,all);
      VM_CHECK(b.l->get_logfile_name()==p.path,"file-name","rank "<<rk<<" of "<<sz<<" has file name \""<<b.l->get_logfile_name()<<"\", should be \""<<p.path<<"\""); if (!p.logs) { VM_CHECK(b.l->file_level()==LogLevel::off,"silent-file-level","the file sink of a silent rank is not off"); any_silent=true; vm::count("silent_loggers"); } else vm::count("logging_loggers");
      if (p.logs && pol) mypaths.push_back(fn.substr(DIR_.size()+1)); trace+=" new("+std::to_string(pol)+(all?",all,":",root,")+tag[ci].substr(0,2)+")"; pairs.push_back(p); box.push_back(std::move(b)); levels(box.back(),"at first");
    } else if (k==1) {
      const size_t i=r.range(0,(long long)box.size()-1); const int ci=(int)r.range(0,2), lev=(int)r.range(0,5); const bool all=r.chance(0.5); Pair& p=pairs[box[i].pair]; Box b; b.name="S"+std::to_string(box.size()); b.logs=all||rs[ci].first==0; b.level=lev; b.src_all=all; b.pair=box[i].pair; b.mute=!p.real;
      b.l=p.policy==0?share<LogNoFile>(b.name,lev,comms[ci],all,*box[i].l,box[i].src_all):p.policy==1?share<LogBasicFile>(b.name,lev,comms[ci],all,*box[i].l,box[i].src_all):share<LogBigFiles>(b.name,lev,comms[ci],all,*box[i].l,box[i].src_all);
      VM_CHECK(b.l->get_logfile_name()==p.path,"shared-name",""); trace+=string(" share(")+(all?"all)":"root)"); vm::count(b.logs?"logging_sharers":"silent_sharers"); if (!b.logs) any_silent=true; box.push_back(std::move(b)); levels(box.back(),"sharing");
    } else if (k<=4) {     // every rank sets a level, as a program that runs the same code on all ranks does
      Box& b=box[r.range(0,(long long)box.size()-1)]; const int lev=(int)r.range(0,6), w=(int)r.range(0,2); const int mylev=r.chance(0.5)?lev:(int)q.range(0,6); Pair& p=pairs[b.pair];
      if (w==0) { b.l->set_log_level(LEV[mylev]); b.level=mylev; } else if (w==1) { b.l->set_console_level(LEV[mylev]); p.con.level=mylev; } else { b.l->set_file_level(LEV[mylev]); p.file.level=mylev; } trace+=string(" level(")+std::to_string(w)+","+LNAME[lev]+")"; for (auto& x : box) levels(x,"after a level was set");
    } else if (k==5) { Box& b=box[r.range(0,(long long)box.size()-1)]; b.l->set_no_format(); pairs[b.pair].con.fmt=pairs[b.pair].file.fmt="%v"; trace+=" format"; }
    else {
      Box& b=box[r.range(0,(long long)box.size()-1)]; Pair& p=pairs[b.pair]; const int n=(int)r.range(1,4);
      for (int j=0;j<n;++j) { const int lev=(int)q.range(0,5), way=(int)q.range(0,3); const string m="from "+std::to_string(wr)+": "+(q.chance(0.5)?message(q):string("hello")); if (b.logs && b.mute) continue;   // borrowed from a silent logger: nothing documented
        send(*b.l,lev,m,way); vm::count("messages"); if (!b.logs) { vm::count("messages_on_silent_ranks"); continue; } const bool pass=lev>=b.level; auto text=[&](Sink& k2){ return k2.fmt=="*default*"?std::make_pair(" ["+b.name+"] ["+LNAME[lev]+"] "+m,false):std::make_pair(m,true); };
        if (pass && lev>=p.con.level) { console.push_back(text(p.con)); vm::count("on_console"); } if (pass && lev>=p.file.level && p.policy) { p.file.lines.push_back(text(p.file)); vm::count("in_file"); } }
      trace+=" log";
    }
  }
  while (!box.empty()) box.erase(box.begin()+(long)q.range(0,(long long)box.size()-1));
  string e=check_stream(cap.text(),console); VM_CHECK(e=="","console","rank "<<wr<<" of "<<ws<<(any_silent?" (with silent loggers)":"")<<" after"<<trace<<": on its console "<<e);
  MPI_Barrier(MPI_COMM_WORLD);
  for (auto& p : pairs) if (p.policy && p.logs) { e=check_stream(slurp(p.path),p.file.lines); VM_CHECK(e=="","file","rank "<<wr<<" of "<<ws<<" after"<<trace<<": its file "<<p.path<<": "<<e); vm::count("files_judged"); }
  // the files there are, are those of the ranks that log
  string my; for (auto& f : mypaths) my+=f+"\n"; my.resize(4000,'\0'); std::vector<char> all((size_t)4000*ws); MPI_Allgather(my.data(),4000,MPI_CHAR,all.data(),4000,MPI_CHAR,MPI_COMM_WORLD);
  std::vector<string> want; for (int i=0;i<ws;++i) { std::istringstream is(string(all.data()+(size_t)4000*i)); string f; while (std::getline(is,f)) want.push_back(f); } std::sort(want.begin(),want.end()); const auto have=list_dir(DIR_); VM_CHECK(have==want,"files","after"<<trace<<" there are files "<<vm::list(have)<<", should be "<<vm::list(want));
  vm::nontrivial(trace+std::to_string(ic)+"/"+std::to_string(wr)+"/"+std::to_string(ws)); if (wr==ws-1) vm::sample(trace); MPI_Barrier(MPI_COMM_WORLD); if (wr==0) clear_dir(DIR_); MPI_Barrier(MPI_COMM_WORLD);
  comms.clear(); for (auto& m : mine) MPI_Comm_free(&m);
}
int main (int argc, char** argv) {
  MPI_Init(&argc,&argv); vm::init(argc,argv); vm::st().keep_going=true; MPI_Comm_rank(MPI_COMM_WORLD,&wr); MPI_Comm_size(MPI_COMM_WORLD,&ws);
  DIR_=scratch()+"/logs"; mkdir(DIR_.c_str(),0700); MPI_Barrier(MPI_COMM_WORLD);
  vm::sub("policies",vm::ncases(400,6000),policies);
  vm::sub("names",1,[&](Rng&, long long){ ekat::Comm c(MPI_COMM_WORLD); VM_CHECK(LogAllRanks::get_log_name("a.b",c)=="a.b."+std::to_string(ws)+"."+std::to_string(wr) && LogRootRank::get_log_name("a.b",c)=="a.b","names",""); VM_CHECK(LogAllRanks::should_log(c) && LogRootRank::should_log(c)==(wr==0),"should-log",""); });
  MPI_Barrier(MPI_COMM_WORLD); if (wr==0) rmdir(DIR_.c_str());
  const int rc=vm::finish(); MPI_Finalize(); return rc;
}
