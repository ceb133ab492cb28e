// C06: string tools against independent definitions.
#include "vmon.hpp"
#include "ekat_string_utils.hpp"
#include "ekat_std_utils.hpp"
#include <array>
#include <list>
#include <set>
using vm::Rng; using std::string; using std::vector;

static string rnd (Rng& r, const string& alpha, int mx) { string s; int n=(int)r.range(0,mx); for (int i=0;i<n;++i) s+=alpha[r.range(0,alpha.size()-1)]; return s; }
static const char* ALPHA[] = {"ab","ab ,","abc;; ","xyzXYZ012 _-","a",", "};
static string any_string (Rng& r) {
  if (r.chance(0.15)) { string s; int n=(int)r.range(0,200); for (int i=0;i<n;++i) s+=(char)r.range(-128,127); return s; }
  return rnd(r,r.pick(ALPHA),(int)r.range(0,r.chance(0.1)?400:14));
}
static vector<string> ref_split (const string& s, const string& d) {
  vector<string> o; string cur;
  for (size_t i=0;i<s.size();) { bool hit = i+d.size()<=s.size(); for (size_t k=0; hit && k<d.size(); ++k) hit = s[i+k]==d[k];
    if (hit) { o.push_back(cur); cur.clear(); i+=d.size(); } else cur+=s[i++]; }
  o.push_back(cur); return o;
}
static string q (const string& s) { return "'"+s+"'"; }
static string ql (const vector<string>& v) { string o="["; for (auto& s : v) o+=q(s); return o+"]"; }

int main (int argc, char** argv) {
  vm::init(argc,argv);
  vm::sub("split_join",vm::ncases(40000,1500000),[&](Rng& r, long long) {
    string s = any_string(r), d = r.chance(0.5) ? string(1,r.pick("ab, ;_xyzA")) : rnd(r,r.pick(ALPHA),4);
    if (d.empty() || d[0]=='\0') d=",";
    auto e = ref_split(s,d), g = ekat::split(s,d);
    VM_CHECK(g==e,"split",q(s)<<" split at "<<q(d)<<" is "<<ql(g)<<", should be "<<ql(e));
    if (d.size()==1) { auto h = ekat::split(s,d[0]); VM_CHECK(h==e,"split-char",q(s)<<" split at char "<<q(d)<<" is "<<ql(h)); }
    VM_CHECK(ekat::join(g,d)==s,"join-split",q(s)<<" split at "<<q(d)<<" and joined again is "<<q(ekat::join(g,d)));
    if (e.size()>1) { vm::nontrivial(s+"\1"+d); vm::count("splits"); if (d.size()>1) vm::count("splits_multichar"); }
    if (r.chance(0.01)) VM_CHECK(vm::outcome([&]{ ekat::split(s,string()); })==1,"split-empty-delim","splitting with an empty delimiter raised no error");
    vm::sample(ql(g)+" sep "+d);
  });
  vm::sub("join",vm::ncases(20000,800000),[&](Rng& r, long long) {
    vector<string> v; int n=(int)r.range(0,6); for (int i=0;i<n;++i) v.push_back(any_string(r));
    string sep = rnd(r,r.pick(ALPHA),3), e, ef, ei, eif; bool f1=true, f2=true;
    auto fun = [](const string& s) { return "<"+s+">"; };
    auto sel = [](const string& s) { return s.size()%2==0; };
    for (auto& s : v) { if (!f1) { e+=sep; ef+=sep; } f1=false; e+=s; ef+=fun(s); if (sel(s)) { if (!f2) { ei+=sep; eif+=sep; } f2=false; ei+=s; eif+=fun(s); } }
    std::list<string> l(v.begin(),v.end());
    VM_CHECK(ekat::join(v,sep)==e && ekat::join(l,sep)==e,"join",ql(v)<<" joined with "<<q(sep)<<" is "<<q(ekat::join(v,sep))<<", should be "<<q(e));
    VM_CHECK(ekat::join(v,fun,sep)==ef && ekat::join(l,fun,sep)==ef,"join-apply",ql(v)<<" joined with "<<q(sep)<<" is "<<q(ekat::join(v,fun,sep))<<", should be "<<q(ef));
    VM_CHECK(ekat::join_if(v,sel,sep)==ei && ekat::join_if(l,sel,sep)==ei,"join-if",ql(v)<<" filtered and joined with "<<q(sep)<<" is "<<q(ekat::join_if(v,sel,sep))<<", should be "<<q(ei));
    VM_CHECK(ekat::join_if(v,sel,fun,sep)==eif && ekat::join_if(l,sel,fun,sep)==eif,"join-apply-if",ql(v)<<" filtered and joined is "<<q(ekat::join_if(v,sel,fun,sep))<<", should be "<<q(eif));
    std::set<int> si; for (int i=0;i<n;++i) si.insert((int)r.range(-50,50)); string es; f1=true; for (int i : si) { if (!f1) es+=sep; f1=false; es+=std::to_string(i); }
    VM_CHECK(ekat::join(si,sep)==es,"join-int","set joined is "<<q(ekat::join(si,sep))<<", should be "<<q(es));
    if (n>1) vm::nontrivial(e+"\1"+sep);
    vm::count("joins");
  });
  vm::sub("edit",vm::ncases(40000,1500000),[&](Rng& r, long long) {
    string s = any_string(r); char c = s.empty()||r.chance(0.2) ? (char)r.range(-128,127) : r.pick(s);
    string t=s, e; for (char x : s) if (x!=c) e+=x;
    ekat::strip(t,c); VM_CHECK(t==e,"strip",q(s)<<" without "<<q(string(1,c))<<" is "<<q(t)<<", should be "<<q(e));
    size_t b=0, z=s.size(); while (b<z && s[b]==c) ++b; while (z>b && s[z-1]==c) --z;
    e = s.substr(b,z-b); t = ekat::trim(s,c);
    VM_CHECK(t==e,"trim",q(s)<<" trimmed of "<<q(string(1,c))<<" is "<<q(t)<<", should be "<<q(e));
    if (b==s.size() && b>0) vm::count("trims_of_everything");
    string pad = string(r.range(0,3),' ')+s+string(r.range(0,3),' '); b=0; z=pad.size(); while (b<z && pad[b]==' ') ++b; while (z>b && pad[z-1]==' ') --z;
    VM_CHECK(ekat::trim(pad)==pad.substr(b,z-b),"trim-default",q(pad)<<" trimmed is "<<q(ekat::trim(pad)));
    string p = r.chance(0.6) ? s.substr(0,r.range(0,s.size())) : any_string(r); if (r.chance(0.2) && !p.empty()) p.back() ^= 1; if (r.chance(0.2)) p += 'q';
    bool st = p.size()<=s.size() && std::equal(p.begin(),p.end(),s.begin());
    VM_CHECK(ekat::starts_with(s,p)==st,"starts_with",q(s)<<" starts with "<<q(p)<<" gives "<<!st);
    vm::count(st?"starts_with_true":"starts_with_false");
    string up = s; for (auto& x : up) if (x>='a' && x<='z') x = (char)(x-32);
    string gu = ekat::upper_case(s); VM_CHECK(gu==up,"upper_case",q(s)<<" in upper case is "<<q(gu));
    int k = (int)r.range(-2147483648LL,2147483647); VM_CHECK(ekat::strint(s,k)==s+" "+std::to_string(k),"strint",q(s)<<" "<<k<<" gives "<<q(ekat::strint(s,k)));
    if (s.size()>1) vm::nontrivial(s+c);
    vm::count("edits");
  });
  vm::sub("containers",vm::ncases(20000,500000),[&](Rng& r, long long) {
    vector<int> v(r.range(0,8)); for (auto& x : v) x=(int)r.range(0,5);
    const int x = (int)r.range(0,6);
    int n=0, first=-1; for (size_t i=0;i<v.size();++i) if (v[i]==x) { if (first<0) first=(int)i; ++n; }
    VM_CHECK(ekat::count(v,x)==n && ekat::contains(v,x)==(n>0),"count-contains",vm::list(v)<<" for "<<x);
    auto it = ekat::find(v,x); VM_CHECK(first<0 ? it==v.end() : it==v.begin()+first,"find",vm::list(v)<<" for "<<x);
    if (first>=0) { *it = x; }
    auto w = v; bool er = ekat::erase(w,x); auto e = v; if (first>=0) e.erase(e.begin()+first);
    VM_CHECK(er==(n>0) && w==e,"erase",vm::list(v)<<" erasing "<<x<<" gives "<<vm::list(w));
    std::list<int> l(v.begin(),v.end()); VM_CHECK(ekat::erase(l,x)==(n>0) && vector<int>(l.begin(),l.end())==e,"erase-list",vm::list(v)<<" erasing "<<x);
    std::ostringstream os; os << v; VM_CHECK(os.str()==vm::join(v.begin(),v.end()," "),"print-vector",vm::list(v)<<" prints as "<<os.str());
    std::vector<std::shared_ptr<int>> sp; ekat::WeakPtrSet<int> ws; for (int i=0;i<5;++i) sp.push_back(std::make_shared<int>(i));
    std::set<int> in; for (int i=0;i<6;++i) { int k=(int)r.range(0,4); ws.insert(std::weak_ptr<int>(sp[k])); in.insert(k); }
    VM_CHECK(ws.size()==in.size(),"weak-set",in.size()<<" different pointers make a set of "<<ws.size());
    for (int i=0;i<5;++i) VM_CHECK(ws.count(std::weak_ptr<int>(sp[i]))==in.count(i),"weak-set-lookup","pointer "<<i);
    if (n>0) vm::nontrivial(vm::list(v)+std::to_string(x));
    vm::count("container_ops");
  });
  return vm::finish();
}
