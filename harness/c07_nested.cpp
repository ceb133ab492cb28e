// C07: texts of nested lists: accepted exactly when well formed, and parsed into the tree they denote.
#include "vmon.hpp"
#include "ekat_string_utils.hpp"
using vm::Rng; using std::string;
static const string NAME = "abcxyzABCXYZ0189_.-!@#$%^&*+=?";
struct T { bool leaf=true; string v; std::vector<T> c; };
// Independent recursive-descent reader
struct Rd { const string& s; char o,c; size_t p=0;
  bool list (T& t) { t.leaf=false; if (p>=s.size()||s[p]!=o) return false; ++p;
    for (;;) { T k; if (p<s.size() && s[p]==o) { if (!list(k)) return false; } else { while (p<s.size() && isname(s[p])) k.v+=s[p++]; if (k.v.empty()) return false; }
      t.c.push_back(k); if (p>=s.size()) return false; if (s[p]==',') { ++p; continue; } if (s[p]==c) { ++p; return true; } return false; } }
  static bool isname (char x) { return isalnum((unsigned char)x) || (x && strchr("_.-!@#$%^&*+=?",x)); }
};
static bool reference (const string& s, T& t) {
  if (s.empty()) return false;
  for (auto b : {"()","[]","{}","<>"}) if (s[0]==b[0]) { Rd r{s,b[0],b[1]}; t=T(); return r.list(t) && r.p==s.size(); }
  return false;
}
static string text (const T& t, char o, char c) { if (t.leaf) return t.v; string s(1,o); for (size_t i=0;i<t.c.size();++i) { if (i) s+=','; s+=text(t.c[i],o,c); } return s+c; }
static int depth (const T& t) { int d=0; for (auto& k : t.c) if (!k.leaf) d=std::max(d,depth(k)); return 1+d; }
static int nodes (const T& t) { int n=1; for (auto& k : t.c) n+=nodes(k); return n; }
static T gen (Rng& r, int d) { T t; if (d>0 && r.chance(0.6)) { t.leaf=false; int n=(int)r.range(1,r.chance(0.05)?14:4); for (int i=0;i<n;++i) t.c.push_back(gen(r,d-1)); } else { int n=(int)r.range(1,6); for (int i=0;i<n;++i) t.v+=r.pick(NAME); } return t; }
static void compare (const ekat::ParameterList& l, const T& t, char o, char c, const string& in) {
  VM_CHECK(l.get<int>("Num Entries")==(int)t.c.size(),"num-entries",in<<": "<<l.get<int>("Num Entries")<<" entries, should be "<<t.c.size());
  VM_CHECK(l.get<int>("Depth")==depth(t),"depth",in<<": depth "<<l.get<int>("Depth")<<", should be "<<depth(t));
  VM_CHECK(l.get<string>("String")==text(t,o,c),"string",in<<": spelled "<<l.get<string>("String"));
  VM_CHECK(l.param_names().size()==3+t.c.size()+size_t(std::count_if(t.c.begin(),t.c.end(),[](auto& k){return k.leaf;})),"no-more-params",in<<": parameters "<<vm::list(l.param_names()));
  VM_CHECK((long)l.sublist_names().size()==std::count_if(t.c.begin(),t.c.end(),[](auto& k){return !k.leaf;}),"no-more-sublists",in<<": sublists "<<vm::list(l.sublist_names()));
  if (l.get<int>("Num Entries")!=(int)t.c.size()) return;
  for (size_t i=0;i<t.c.size();++i) {
    auto e="Entry "+std::to_string(i);
    VM_CHECK(l.get<string>("Type "+std::to_string(i))==(t.c[i].leaf?"Value":"List"),"type",in<<": type of entry "<<i);
    if (t.c[i].leaf) VM_CHECK(l.isParameter(e) && l.get<string>(e)==t.c[i].v,"value",in<<": entry "<<i);
    else { VM_CHECK(l.isSublist(e),"sublist",in<<": entry "<<i<<" is no sublist"); if (l.isSublist(e)) compare(l.sublist(e),t.c[i],o,c,in); }
  }
}
static string spaced (Rng& r, const string& s) { string o; for (char c : s) { while (r.chance(0.2)) o+=' '; o+=c; } return o; }
static void judge (Rng& r, const string& s) {
  T t; bool ok = reference(s,t);
  bool got = ekat::valid_nested_list_format(s);
  VM_CHECK(got==ok,"valid",s<<" is "<<(got?"accepted":"refused"));
  ekat::ParameterList l; string in = r.chance(0.5) ? s : spaced(r,s);
  int o = vm::outcome([&]{ l = ekat::parse_nested_list(in); });
  VM_CHECK(o==(ok?0:1),"parse-outcome",in<<": outcome "<<o);
  if (ok && o==0) { auto b = s[0]; compare(l,t,b,b=='('?')':b=='['?']':b=='{'?'}':'>',in); vm::count("valid_lists"); vm::count_max("max_depth",depth(t)); vm::count_max("max_nodes",nodes(t)); if (depth(t)>1) vm::nontrivial(s); }
  else vm::count("invalid_lists");
  vm::sample(in);
}
int main (int argc, char** argv) {
  vm::init(argc,argv);
  static const char* BR[] = {"()","[]","{}","<>"};
  vm::sub("generated",vm::ncases(6000,200000),[&](Rng& r, long long) {
    T t; t.leaf=false; int n=(int)r.range(1,5); for (int i=0;i<n;++i) t.c.push_back(gen(r,(int)r.range(0,5)));
    auto b = r.pick(BR); judge(r,text(t,b[0],b[1]));
  });
  vm::sub("mutated",vm::ncases(12000,400000),[&](Rng& r, long long) {
    T t; t.leaf=false; int n=(int)r.range(1,4); for (int i=0;i<n;++i) t.c.push_back(gen(r,(int)r.range(0,3)));
    auto b = r.pick(BR); string s = text(t,b[0],b[1]);
    for (int k=(int)r.range(1,3); k>0 && !s.empty(); --k) { size_t p=r.range(0,s.size()-1);
      switch (r.range(0,4)) { case 0: s.erase(p,1); break; case 1: s.insert(p,1,b[r.range(0,1)]); break; case 2: s.insert(p,1,','); break; case 3: s[p]=r.pick("()[]{}<>,ab/|:;~\"'"); if (s[p]==0) s[p]='/'; break; default: std::swap(s[p],s[r.range(0,s.size()-1)]); } }
    judge(r,s);
  });
  // lists of many levels, of many entries, of long names
  vm::sub("large",vm::ncases(60,2000),[&](Rng& r, long long ic) {
    T t; t.leaf=false;
    if (ic%3==0) { T* p=&t; for (int d=(int)r.range(10,60);d>0;--d) { for (int i=(int)r.range(0,2);i>0;--i) { p->c.emplace_back(); p->c.back().v="x"; } p->c.emplace_back(); p->c.back().leaf=false; T* q=&p->c.back(); if (r.chance(0.3)) { p->c.emplace_back(); p->c.back().v="end"; q=&p->c[p->c.size()-2]; } p=q; } p->c.emplace_back(); p->c.back().v="a"; }
    else if (ic%3==1) for (int i=(int)r.range(50,400);i>0;--i) t.c.push_back(gen(r,r.chance(0.1)?2:0));
    else for (int i=(int)r.range(1,5);i>0;--i) { T k; k.v=string((size_t)r.range(1,3000),r.pick(NAME)); t.c.push_back(k); }
    auto b = r.pick(BR); string s=text(t,b[0],b[1]); judge(r,s);
    s.erase((size_t)r.range(0,(int)s.size()-1),1); judge(r,s); vm::count("large_lists");
  });
  // every text of up to 7 (thorough: 9) characters over a small alphabet
  vm::sub("short_texts",1,[&](Rng& r, long long) {
    const string A="[],a"; const int L = vm::thorough() ? 9 : 7; long long n=0;
    for (int len=0; len<=L; ++len) { long long tot=1; for (int i=0;i<len;++i) tot*=4; for (long long k=0;k<tot;++k) { string s; long long q=k; for (int i=0;i<len;++i) { s+=A[q%4]; q/=4; } judge(r,s); ++n; } }
    vm::count("short_texts",n);
  });
  return vm::finish();
}
