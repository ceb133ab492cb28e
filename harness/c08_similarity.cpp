// C08: token gathering and similarity indices against independent definitions.
#include "vmon.hpp"
#include "ekat_string_utils.hpp"
#include <set>
using vm::Rng; using std::string; using std::vector;
static string word (Rng& r, int mx=5) { string s; int n=(int)r.range(1,mx); for (int i=0;i<n;++i) s+="abcA"[r.range(0,3)]; return s; }
static string phrase (Rng& r, const string& d) { string s; int n=(int)r.range(0,r.chance(0.02)?120:7); for (int i=0;i<n;++i) { if (r.chance(0.75)) s+=word(r,3); if (!d.empty()) for (int k=(int)r.range(r.chance(0.1)?0:1,r.chance(0.2)?3:1);k>0;--k) s+=r.pick(d); } if (r.chance(0.7)) s+=word(r,3); return s; }
static vector<string> tokens (const string& s, const string& d, const string& atomic) {
  // mark what belongs to delimited occurrences of the atomic string, from the left
  vector<string> o; size_t i=0; auto isd=[&](size_t p){ return d.find(s[p])!=string::npos; };
  while (i<s.size()) {
    bool start = i==0 || isd(i-1), hit = start && !atomic.empty() && i+atomic.size()<=s.size() && s.substr(i,atomic.size())==atomic && (i+atomic.size()==s.size() || isd(i+atomic.size()));
    if (hit) { o.push_back(atomic); i+=atomic.size(); continue; }
    if (isd(i)) { ++i; continue; }
    string t; while (i<s.size() && !isd(i)) t+=s[i++]; o.push_back(t);
  }
  return o;
}
static double ref_jaro (const string& a, const string& b) {
  if (a==b) return 1; int w = (int)std::max(a.size(),b.size())/2-1; if (w<0) return 0;
  vector<int> used(b.size(),0); string ma; vector<int> idx;
  for (int i=0;i<(int)a.size();++i) for (int j=0;j<(int)b.size();++j) if (std::abs(i-j)<=w && !used[j] && a[i]==b[j]) { used[j]=1; ma+=a[i]; break; }
  string mb; for (size_t j=0;j<b.size();++j) if (used[j]) mb+=b[j];
  if (ma.empty()) return 0; double m=(double)ma.size(), t=0; for (size_t k=0;k<ma.size();++k) if (ma[k]!=mb[k]) t+=0.5;
  return (m/a.size()+m/b.size()+(m-t)/m)/3;
}
static bool close (double a, double b) { return std::fabs(a-b)<=1e-12; }
int main (int argc, char** argv) {
  vm::init(argc,argv);
  static const char* DS[] = {" ","_ ","_","-_ ",""};
  vm::sub("tokens",vm::ncases(30000,1000000),[&](Rng& r, long long) {
    string d=r.pick(DS), s=phrase(r,d), at;
    if (r.chance(0.7) && !s.empty()) { auto t = tokens(s,d,""); if (!t.empty()) { // an atomic string made of a piece of s, starting and ending with a word
        size_t b = r.range(0,s.size()-1), e=r.range(b,s.size()-1); while (b<=e && d.find(s[b])!=string::npos) ++b; while (e>b && d.find(s[e])!=string::npos) --e; if (b<=e && d.find(s[b])==string::npos) at=s.substr(b,e-b+1); } }
    else if (r.chance(0.5)) at = word(r,3)+(d.empty()?string():string(1,d[0]))+word(r,2);
    auto e = tokens(s,d,at); auto g = ekat::gather_tokens(s,vector<char>(d.begin(),d.end()),at); vector<string> gv(g.begin(),g.end());
    auto es=e, gs=gv; std::sort(es.begin(),es.end()); std::sort(gs.begin(),gs.end());
    VM_CHECK(es==gs,"tokens","'"<<s<<"' delimiters '"<<d<<"' atomic '"<<at<<"': tokens "<<vm::list(gv)<<", should be "<<vm::list(e));
    if (!at.empty() && std::count(e.begin(),e.end(),at) && at.find_first_of(d)!=string::npos) { vm::count("atomic_found"); if (s.size()>=at.size() && s.substr(s.size()-at.size())==at) vm::count("atomic_at_end"); vm::nontrivial(s+"\1"+at+"\1"+d); }
    vm::count("tokenized"); vm::sample("'"+s+"' atomic '"+at+"' -> "+vm::list(gv));
  });
  vm::sub("jaccard",vm::ncases(30000,1000000),[&](Rng& r, long long) {
    string d=r.pick(DS), a=phrase(r,d), b = r.chance(0.3) ? a : phrase(r,d);
    if (r.chance(0.3)) { auto t=tokens(a,d,""); b=""; for (size_t i=t.size();i>0;--i) { if (!b.empty()) b+=d.empty()?' ':d[0]; b+=t[i-1]; } }
    if (r.chance(0.2)) b=word(r,3);
    vector<char> dv(d.begin(),d.end());
    for (int m=0;m<4;++m) {
      bool ta=m&1, tb=m&2; double e;
      auto whole_ok = [&](const string& s) { return !s.empty() && d.find(s.front())==string::npos && d.find(s.back())==string::npos; };
      if ((!ta && !whole_ok(a)) || (!tb && !whole_ok(b))) continue;
      if (!ta && !tb) e = a==b;
      else { std::set<string> A,B; auto ins=[](std::set<string>& S, const vector<string>& v) { S.insert(v.begin(),v.end()); };
        if (ta) ins(A,tokens(a,d,tb?"":b)); else A.insert(a);
        if (tb) ins(B,tokens(b,d,ta?"":a)); else B.insert(b);
        int in=0; for (auto& x : A) in+=B.count(x); int un=(int)(A.size()+B.size())-in; e = un ? double(in)/un : 1; }
      double g = ekat::jaccard_similarity(a,b,dv,ta,tb), g2 = ekat::jaccard_similarity(b,a,dv,tb,ta);
      VM_CHECK(close(g,e),"jaccard","'"<<a<<"' and '"<<b<<"' (delimiters '"<<d<<"', tokenized "<<ta<<tb<<"): "<<g<<", should be "<<e);
      VM_CHECK(close(g,g2) && g>=0 && g<=1,"jaccard-symmetry","'"<<a<<"' and '"<<b<<"': "<<g<<" one way, "<<g2<<" the other");
      if (e>0 && e<1) { vm::nontrivial(a+"\1"+b+"\1"+std::to_string(m)); vm::count("jaccard_partial"); }
      if (ta!=tb) vm::count("jaccard_one_tokenized");
    }
  });
  vm::sub("jaro",vm::ncases(40000,1500000),[&](Rng& r, long long) {
    auto mk=[&]{ string s; int n=(int)r.range(0,r.chance(0.1)?r.chance(0.3)?200:40:9); int k=(int)r.range(1,6); for (int i=0;i<n;++i) s+="abcdef"[r.range(0,k-1)]; return s; };
    string a=mk(), b=mk(); if (r.chance(0.5)) { b=a; for (int k=(int)r.range(0,3);k>0&&!b.empty();--k) { size_t p=r.range(0,b.size()-1), q=r.range(0,b.size()-1); if (r.chance(0.5)) std::swap(b[p],b[q]); else if (r.chance(0.5)) b.erase(p,1); else b.insert(p,1,'z'); } }
    double e=ref_jaro(a,b), g=ekat::jaro_similarity(a,b);
    VM_CHECK(close(g,e),"jaro","'"<<a<<"' '"<<b<<"': "<<g<<", should be "<<e);
    VM_CHECK(g>=0 && g<=1+1e-15 && (a!=b || g==1) && (a==b || g<1),"jaro-range","'"<<a<<"' '"<<b<<"': "<<g);
    int l=(int)r.range(0,4); double p = l ? r.real(0,1.0/l) : 0.1, th=r.chance(0.3)?0.7:r.real(0.05,0.95);
    if (std::fabs(e-th)>1e-9) {
      double w=e; if (e>th) { int c=0; while (c<l && c<(int)std::min(a.size(),b.size()) && a[c]==b[c]) ++c; w = e+c*p*(1-e); vm::count("winkler_boosted"); }
      double gw = ekat::jaro_winkler_similarity(a,b,l,p,th);
      VM_CHECK(close(gw,w),"winkler","'"<<a<<"' '"<<b<<"' l="<<l<<" p="<<p<<" threshold="<<th<<": "<<gw<<", should be "<<w);
    }
    double w0 = e; if (std::fabs(e-0.7)>1e-9) { if (e>0.7) { int c=0; while (c<4 && c<(int)std::min(a.size(),b.size()) && a[c]==b[c]) ++c; w0=e+c*0.1*(1-e); }
      VM_CHECK(close(ekat::jaro_winkler_similarity(a,b),w0),"winkler-default","'"<<a<<"' '"<<b<<"': "<<ekat::jaro_winkler_similarity(a,b)<<", should be "<<w0); }
    if (e>0 && e<1) { vm::nontrivial(a+"\1"+b); vm::count("jaro_partial"); }
  });
  return vm::finish();
}
