// C09: case-insensitive strings compare as their upper-case text does, consistently, also as map keys.
#include "vmon.hpp"
#include "ekat_string_utils.hpp"
#include <map>
#include <set>
using vm::Rng; using std::string; using CIS = ekat::CaseInsensitiveString;
static string up (string s) { for (auto& c : s) if (c>='a'&&c<='z') c=(char)(c-32); return s; }
static string mk (Rng& r) { string s; int n=(int)r.range(0,r.chance(0.1)?r.chance(0.1)?400:30:4); for (int i=0;i<n;++i) s+= r.chance(0.8) ? "aAbBzZ_@[`{019"[r.range(0,13)] : (char)r.range(0,126); return s; }
static string recase (Rng& r, string s) { for (auto& c : s) if (isalpha((unsigned char)c) && r.chance(0.5)) c^=32; return s; }
int main (int argc, char** argv) {
  vm::init(argc,argv);
  vm::sub("compare",vm::ncases(60000,2000000),[&](Rng& r, long long) {
    string a=mk(r), b = r.chance(0.4) ? recase(r,a) : mk(r); if (r.chance(0.2)) b = a+mk(r);
    const string A=up(a), B=up(b); bool eq=A==B, lt=A<B; CIS ca(a), cb(b);
    auto in = [&]{ return "'"+a+"' and '"+b+"'"; };
    VM_CHECK((ca==cb)==eq && (ca==b)==eq && (a==cb)==eq,"equal",in()<<": ci-ci "<<(ca==cb)<<" ci-s "<<(ca==b)<<" s-ci "<<(a==cb));
    VM_CHECK((ca!=cb)==!eq && (ca!=b)==!eq && (a!=cb)==!eq,"not-equal",in());
    VM_CHECK((ca<cb)==lt && (ca<b)==lt && (a<cb)==lt,"less",in()<<": "<<(ca<cb)<<(ca<b)<<(a<cb)<<", should be "<<lt);
    VM_CHECK((ca<=cb)==(lt||eq) && (ca<=b)==(lt||eq) && (a<=cb)==(lt||eq),"less-equal",in()<<": "<<(ca<=cb)<<(ca<=b)<<(a<=cb)<<", should be "<<(lt||eq));
    if (b.find('\0')==string::npos) { VM_CHECK((ca==b.c_str())==eq && (ca<b.c_str())==lt,"c-string",in()); } else vm::count("texts_with_nul");
    VM_CHECK(ekat::caseInsensitiveEqualString(a,b)==eq && ekat::caseInsensitiveLessString(a,b)==lt && ekat::caseInsensitiveLessEqualString(a,b)==(lt||eq),"functions",in());
    VM_CHECK(string(ca)==a,"content","'"<<a<<"' is stored as '"<<string(ca)<<"'");
    vm::count(eq ? (a==b?"equal_same_case":"equal_other_case") : lt?"less":"greater"); if (a!=b) vm::nontrivial(a+"\1"+b);
    vm::sample(in());
  });
  vm::sub("bytes",vm::ncases(20000,500000),[&](Rng& r, long long) {   // any bytes: still an equivalence and an order
    auto any=[&]{ string s; int n=(int)r.range(0,4); for (int i=0;i<n;++i) s+=(char)r.pick("\x80\xff\xe9\xc9""aAzZ\x01\x7f"); return s; };
    string s[3]={any(),any(),any()}; CIS c[3]={s[0],s[1],s[2]};
    auto L=[&](int i,int j){ return c[i]<c[j]; };
    for (int i=0;i<3;++i) { VM_CHECK(!L(i,i) && c[i]==c[i] && c[i]<=c[i],"irreflexive",i); for (int j=0;j<3;++j) {
      VM_CHECK(!(L(i,j)&&L(j,i)),"asymmetric",""); VM_CHECK((c[i]==c[j])==(!L(i,j)&&!L(j,i)),"trichotomy",""); VM_CHECK((c[i]<=c[j])==!L(j,i),"le-is-not-greater","");
      for (int k=0;k<3;++k) VM_CHECK(!(L(i,j)&&L(j,k)) || L(i,k),"transitive",""); } }
    vm::count("byte_triples"); vm::nontrivial(s[0]+"\1"+s[1]+"\1"+s[2]);
  });
  vm::sub("map_keys",vm::ncases(1500,50000),[&](Rng& r, long long) {
    std::map<CIS,int> m; std::map<string,int> ref; std::set<CIS> st;
    for (int i=0;i<25;++i) { string k=mk(r); CIS ck(k); m[ck]=i; ref[up(k)]=i; st.insert(ck);
      VM_CHECK(m.size()==ref.size() && st.size()==ref.size(),"map-size",m.size()<<" keys, should be "<<ref.size()); }
    for (auto& it : ref) { CIS k(recase(r,it.first)); auto f=m.find(k); VM_CHECK(f!=m.end() && f->second==it.second,"map-lookup","'"<<it.first<<"' is not found in another case"); }
    auto a=m.begin(); for (auto& it : ref) { VM_CHECK(a!=m.end() && up(a->first)==it.first,"map-order","'"<<it.first<<"'"); if (a!=m.end()) ++a; }
    vm::count("map_histories"); vm::nontrivial(ref.begin()->first+std::to_string(ref.size())+ref.rbegin()->first);
  });
  return vm::finish();
}
