// C05: what is written to a yaml file is read back with the same structure, types and values.
#include "plist_model.hpp"
#include "ekat_yaml.hpp"
#include <climits>
#include <fstream>
#include <limits>
#include <csignal>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
using vm::Rng;

static std::string scratch () { const char* s = getenv("VMON_SCRATCH"); return s ? s : "/tmp"; }
static double rnd_double (Rng& r) {
  switch (r.range(0,8)) {
    case 0: return (double)r.range(-100,100);
    case 1: return r.real(-10,10);
    case 2: { double d; do { uint64_t b=r.u64(); memcpy(&d,&b,8); } while (!std::isfinite(d)); return d; }
    case 3: return std::pow(10.0,(double)r.range(-320,308))*(r.chance(0.5)?1:-1);
    case 4: return (double)r.range(-1000000,1000000)/100;
    case 5: return (double)r.range(-(1LL<<53),1LL<<53);
    case 6: { double s[] = {0.0,0.1,1.0/3,1e20,1e-10,100000.0,1e14,99999999999999.0,12345678901234.0,1e15,1e16,std::numeric_limits<double>::max(),std::numeric_limits<double>::min(),std::numeric_limits<double>::denorm_min(),std::numeric_limits<double>::lowest(),-0.0,2147483648.0,1e100,3.0e8}; return r.pick(s); }
    case 7: return (double)(float)r.real(-1000,1000);
    default: return (double)r.range(1,999)*std::pow(10.0,(double)r.range(-20,20));
  }
}
static std::string rnd_string (Rng& r) {
  static const char* S[] = {"","5","-17","true","False","TRUE","1.5","1e10","-.5","3000000000","null","~","Null"," lead","trail ","a: b","a #b","#c","[1]","{a}","it's","\"q\"","tab\tx","!t","&a","*a","%x","@x","`x","- x","-","?","? x",": x","yes","no","0x10","0o17","1_000","1:30","2001-01-01","...","---","= ","<<","a\\b","é","日本","5 ","1,5","--5","1e400","1e-400",".inf","-.inf",".nan","inf","nan","'","\"","|",">","a,b","x]","}","0","00","+5","true ","e","E5"};
  static const char* P[] = {"line","  indented","trail ","# hash","- dash","key: v","","1","true","\ttab","---","...","é"};
  switch (r.range(0,5)) {
    case 5: { // any text at all: every control character, line breaks of every kind, code points of every length
      static const char* B[] = {"\xc2\x85","\xe2\x80\xa8","\xe2\x80\xa9","\xef\xbb\xbf","\xc2\xa0","\xf0\x9f\x98\x80","\xc2\x80","\xed\x9f\xbf","\xee\x80\x80","\r\n","\r","\x7f","\xef\xbf\xbd","\xf4\x8f\xbf\xbd"};
      std::string s; int n=(int)r.range(1,8);
      for (int i=0;i<n;++i) { const int k=(int)r.range(0,3); if (k==0) s+=r.pick(B); else if (k==1) s+=(char)r.range(0,31); else if (k==2) s+=(char)r.range(0,127); else s+=r.pick("ab1.: -#'\"[]{},&*!|>%@`"); }
      vm::count("odd_texts"); return s; }
    case 0: case 1: return r.pick(S);
    case 2: { std::string s; int n=(int)r.range(1,5); for (int i=0;i<n;++i) { s+=r.pick(P); if (i+1<n||r.chance(0.5)) s+='\n'; } vm::count("multiline_strings"); return s; }
    case 3: { std::string s; int n=(int)r.range(0,r.chance(0.05)?5000:120); for (int i=0;i<n;++i) s+=(char)r.range(32,126); return s; }
    default: { std::string s; int n=(int)r.range(1,12); for (int i=0;i<n;++i) s+=r.pick("0123456789+-.eE: \n'\"#abtrufls,[]{}\t"); if (s.back()=='\0') s="x"; for (auto& c : s) if (c=='\0') c='0'; return s; }
  }
}
static std::string rnd_key (Rng& r) {
  static const char* K[] = {"a","b","Long Key","5","true","1.5","key: odd","x#y","é"," k","k ","a,b","[x]","it's","-","null","~","two\nlines","q\"q"};
  std::string k = r.pick(K); if (r.chance(0.5)) k+=std::to_string(r.range(0,50)); if (r.chance(0.05)) k+=rnd_string(r);
  if (r.chance(0.01)) { k+=std::string((size_t)r.range(900,3000),r.pick("xyz ")); k+='e'; vm::count("long_keys"); }
  return k;
}
static Val rnd_val (Rng& r) {
  int n=(int)r.range(0,8); if (r.chance(0.1)) n=(int)r.range(20,60);
  switch (r.range(0,9)) {
    case 0: return (int)(r.chance(0.5)?r.range(-100,100):r.range(INT_MIN,INT_MAX));
    case 1: return r.chance(0.5);
    case 2: case 3: return rnd_double(r);
    case 4: case 5: return rnd_string(r);
    case 6: { std::vector<int> v(n); for (auto& e : v) e=(int)r.range(INT_MIN,INT_MAX); return v; }
    case 7: { std::vector<char> v(n); for (auto& e : v) e=(char)r.range(0,1); return v; }
    case 8: { std::vector<double> v(n); for (auto& e : v) e=rnd_double(r); return v; }
    default: { std::vector<std::string> v(n); for (auto& e : v) e=rnd_string(r); return v; }
  }
}
static void gen (Rng& r, PL& l, Node& n, int depth) {
  int m=(int)r.range(0,6);
  for (int i=0;i<m;++i) {
    std::string k=rnd_key(r); if (n.s.count(k) || n.p.count(k)) continue;
    if (depth>0 && r.chance(0.25)) { n.s[k].name=k; gen(r,l.sublist(k),n.s[k],depth-1); continue; }
    Val v = r.chance(0.05) ? Val(Empty()) : rnd_val(r);
    std::visit([&](auto& x) { using T = std::decay_t<decltype(x)>;
      if constexpr (std::is_same_v<T,Empty>) l.set(k,PL::EmptySeq());
      else l.set<T>(k,x);
      n.p[k]=x; },v);
    vm::count("type_"+std::to_string(v.index()));
  }
}

// The type of the elements of an empty vector is not part of the text
static Node forget_types (Node n) {
  for (auto& it : n.p) {
    bool e = std::visit([](auto& x) { if constexpr (is_vec<std::decay_t<decltype(x)>>::value) return x.empty(); else return false; },it.second);
    if (e) { it.second = Empty(); vm::count("empty_vectors"); }
  }
  for (auto& it : n.s) it.second = forget_types(it.second);
  return n;
}
int main (int argc, char** argv) {
  vm::init(argc,argv);
  const std::string f = scratch()+"/rt.yaml";
  auto slurp = [&](const std::string& x) { std::ifstream i(x); std::stringstream s; s<<i.rdbuf(); return s.str(); };
  vm::sub("roundtrip",vm::ncases(4000,150000),[&](Rng& r, long long) {
    PL l("top"); Node n; n.name="top"; gen(r,l,n,3);
    std::string msg; int o = vm::outcome([&]{ ekat::write_yaml_file(f,l); },&msg);
    VM_CHECK(o==0,"write-throws","writing threw: "<<msg);
    if (o) return;
    check_tree(l,n,"after writing","write-changes-list");
    const std::string t = slurp(f);
    PL q("top"); o = vm::outcome([&]{ ekat::parse_yaml_file(f,q); },&msg);
    VM_CHECK(o==0,"read-throws","the written file is refused: "<<msg<<"\n"<<t);
    if (o==0) check_tree(q,forget_types(n),"written file:\n"+t+"\n","roundtrip");
    vm::nontrivial(tree_hash(n)); vm::sample(t); vm::count("documents");
  });
  vm::sub("doubles",vm::ncases(300,10000),[&](Rng& r, long long) {
    PL l("top"); Node n; n.name="top";
    std::vector<double> v; for (int i=0;i<100;++i) { double d=rnd_double(r); v.push_back(d); std::string k="d"+std::to_string(i); l.set(k,d); n.p[k]=d; }
    l.set("v",v); n.p["v"]=v;
    ekat::write_yaml_file(f,l); PL q("top"); ekat::parse_yaml_file(f,q);
    check_tree(q,n,"doubles","roundtrip");
    for (int i=0;i<100;++i) VM_CHECK(q.isType<double>("d"+std::to_string(i)) && vm::same_bits(q.get<double>("d"+std::to_string(i)),v[i]),"roundtrip.bits",v[i]<<" is not read back bit for bit");
    vm::nontrivial(vm::hash_bytes(v.data(),800)); vm::count("doubles",200);
  });
  vm::sub("refused",vm::ncases(300,3000),[&](Rng& r, long long) {
    PL l("top"); Node n; n.name="top"; gen(r,l,n,2);
    { std::ofstream o(f); o<<"precious: 1\n"; }
    PL* t=&l; if (r.chance(0.5)) t=&l.sublist("sub"); 
    switch (r.range(0,3)) { case 0: t->set("bad",1.5f); break; case 1: t->set("bad",(long long)4); break; case 2: t->set("bad",Custom{1,"x"}); break; default: t->set("bad",std::vector<float>{1,2}); }
    VM_CHECK(vm::outcome([&]{ ekat::write_yaml_file(f,l); })==1,"unsupported-type","a value of an unsupported type was written without an error");
    VM_CHECK(slurp(f)=="precious: 1\n","refusal-keeps-file","a refused write changed the file");
    PL ok("t"); ok.set("a",1);
    VM_CHECK(vm::outcome([&]{ ekat::write_yaml_file(scratch()+"/no/such/dir/x.yaml",ok); })==1,"unopenable","writing to a path that can't be opened raised no error");
    vm::count("refused_writes");
  });
  // A file system that takes only part of the file: the write is complete, or it is refused
  vm::sub("full-disk",vm::ncases(120,2000),[&](Rng& r, long long) {
    PL l("top"); Node n; n.name="top"; gen(r,l,n,2);
    if (r.chance(0.2)) { std::vector<int> v(r.range(1000,20000)); for (auto& e : v) e=(int)r.range(-9,9); l.set("long",v); vm::count("long_files"); }
    const std::string g = scratch()+"/full.yaml";
    ::unlink(g.c_str());
    ekat::write_yaml_file(g,l);
    const std::string whole = slurp(g);
    ::unlink(g.c_str());
    const size_t limit = r.chance(0.2) ? whole.size()+(size_t)r.range(0,1) : (size_t)r.range(0,(long long)whole.size()-1);
    const pid_t pid = fork();
    if (pid==0) {
      signal(SIGXFSZ,SIG_IGN);
      rlimit rl; getrlimit(RLIMIT_FSIZE,&rl); rl.rlim_cur=limit; setrlimit(RLIMIT_FSIZE,&rl);
      const int o = vm::outcome([&]{ ekat::write_yaml_file(g,l); });
      _exit(o==0 ? 0 : o==1 ? 7 : 9);
    }
    int st=0; waitpid(pid,&st,0);
    const bool done = WIFEXITED(st) && WEXITSTATUS(st)==0, refused = WIFEXITED(st) && WEXITSTATUS(st)==7;
    VM_CHECK(done || refused,"full-disk.crash","the writer ended with status "<<st<<" on a file system that takes "<<limit<<" of "<<whole.size()<<" bytes");
    if (limit<whole.size()) { VM_CHECK(refused,"full-disk.silent","only "<<slurp(g).size()<<" of "<<whole.size()<<" bytes could be written, and the writer raised no error"); vm::count("short_writes"); }
    else { VM_CHECK(done && slurp(g)==whole,"full-disk.fits","a file that fits was not written"); vm::count("fitting_writes"); }
    ::unlink(g.c_str());
    vm::nontrivial(vm::hash_bytes(whole.data(),whole.size())^limit);
  });
  vm::sub("full-device",1,[&](Rng&, long long) {
    PL ok("t"); ok.set("a",1);
    VM_CHECK(vm::outcome([&]{ ekat::write_yaml_file("/dev/full",ok); })==1,"full-disk.device","writing to /dev/full raised no error");
  });
  return vm::finish();
}
