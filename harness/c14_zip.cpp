// C14: zipped containers are walked in step, by reference, exactly once each entry, or refused if sizes differ; key
// iterators visit the keys of a map in order; type lists and maps keep the order of their types.
#include "vmon.hpp"
#include <tuple>
#include <deque>
#include <list>
#include <array>
#include <memory>
#include "ekat_zip.hpp"
#include "ekat_std_map_key_iterator.hpp"
#include "ekat_meta_utils.hpp"
#include "ekat_std_utils.hpp"
#include "ekat_std_type_traits.hpp"
#include "ekat_type_traits.hpp"
using vm::Rng; using std::string; using std::vector;

template<int I> struct Tag { int x=0; bool operator== (const Tag& o) const { return x==o.x; } };
static_assert (std::is_same_v<ekat::type_list_cat<ekat::TypeList<int,char>,ekat::TypeList<double>>,ekat::TypeList<int,char,double>>);
static_assert (ekat::FirstOf<double,ekat::TypeList<int,double,char,double>>::pos==1 && ekat::FirstOf<float,ekat::TypeList<int,double>>::pos==-1 && ekat::FirstOf<int,ekat::TypeList<int>>::pos==0);
static_assert (ekat::is_type_list_unique<ekat::TypeList<int,char,double>>::value && !ekat::is_type_list_unique<ekat::TypeList<int,char,int>>::value && !ekat::is_type_list_unique<ekat::TypeList<char,int,int>>::value);

int main (int argc, char** argv) {
  vm::init(argc,argv);
  auto vals=[](Rng& r, int n){ vector<int> v(n); for (auto& x : v) x=(int)r.range(-1000,1000); return v; };
  vm::sub("zip",vm::ncases(20000,500000),[&](Rng& r, long long) {
    const int n=(int)r.range(0,12); vector<int> a=vals(r,n); vector<string> b; std::list<double> c; std::deque<long> d; vector<bool> e; std::map<int,int> m;
    for (int i=0;i<n;++i) { b.push_back("s"+std::to_string(i)+string(r.range(0,30),'x')); c.push_back(i*0.5); d.push_back(i*i); e.push_back(r.range(0,1)); m[i*3]=i; }
    const auto a0=a; const auto b0=b; const auto e0=e; int i=0; bool ok=true;
    switch (r.range(0,5)) {
      case 0: for (auto [x,y,z] : ekat::zip(a,b,c)) { ok = ok && &x==&a[i] && &y==&b[i] && z==i*0.5; x+=i; y+="!"; z=-z; ++i; }
        ok = ok && i==n; for (int k=0;k<n;++k) ok = ok && a[k]==a0[k]+k && b[k]==b0[k]+"!"; { int k=0; for (double z : c) ok = ok && z==-0.5*k++; } break;
      case 1: { const auto& ca=a; for (auto [x,y] : ekat::zip(ca,d)) { static_assert(std::is_const_v<std::remove_reference_t<decltype(x)>>); ok = ok && &x==&a[i] && &y==&d[i]; y=x; ++i; } ok = ok && i==n; for (int k=0;k<n;++k) ok = ok && d[k]==a0[k]; break; }
      case 2: for (auto [x,y] : ekat::zip(e,a)) { ok = ok && bool(x)==e0[i] && &y==&a[i]; x=!x; ++i; } ok = ok && i==n; for (int k=0;k<n;++k) ok = ok && e[k]!=e0[k]; break;
      case 3: for (auto [x,y] : ekat::zip(m,a)) { ok = ok && x.first==i*3 && x.second==i && &y==&a[i]; x.second=y; ++i; } ok = ok && i==n; for (int k=0;k<n;++k) ok = ok && m[k*3]==a[k]; break;
      case 4: { auto z=ekat::zip(a,b); auto it=z.cbegin(), end=z.cend(); for (;it!=end;++it) { auto t=*it; static_assert(std::is_const_v<std::remove_reference_t<std::tuple_element_t<0,decltype(t)>>>); ok = ok && &std::get<0>(t)==&a[i] && &std::get<1>(t)==&b[i]; ++i; } ok = ok && i==n && a==a0 && b==b0;
        auto j=z.begin(), k=z.begin(); if (n>0) { ok = ok && !(j!=k); auto& inc=++j; ok = ok && &inc==&j && j!=k && !(j!=z.end())==(n==1) && &std::get<0>(*k)==&a[0]; } else ok = ok && !(j!=z.end()); break; }
      default: { int raw[5]={1,2,3,4,5}; std::array<char,5> q{{'a','b','c','d','e'}}; auto f=vals(r,5); for (auto [x,y,z] : ekat::zip(raw,q,f)) { ok = ok && &x==raw+i && y=='a'+i && &z==&f[i]; x=z; ++i; } ok = ok && i==5; for (int k=0;k<5;++k) ok = ok && raw[k]==f[k]; } }
    VM_CHECK(ok,"zip","a walk over containers of "<<n<<" entries did not visit each of them once, in step, by reference"); vm::count("zips"); vm::nontrivial(n*31+r.u64()%7);
    const int m2=(int)r.range(0,12), which=(int)r.range(0,2); vector<int> o1(n), o2(which==1?m2:n), o3(which==2?m2:n); if (which==0) o1.resize(m2);
    VM_CHECK(vm::outcome([&]{ auto z=ekat::zip(o1,o2,o3); (void)z; })==(m2==n?0:1),"zip-sizes","zip of sizes "<<o1.size()<<","<<o2.size()<<","<<o3.size()); if (m2!=n) vm::count("refused_zips");
  });
  vm::sub("keys",vm::ncases(10000,200000),[&](Rng& r, long long) {
    std::map<string,std::shared_ptr<int>> m; for (int n=(int)r.range(0,15);n>0;--n) m["k"+std::to_string(r.range(0,99))]=std::make_shared<int>(n);
    vector<string> want, got, gotc, back; for (auto& it : m) want.push_back(it.first);
    using MI=ekat::map_key_iterator<std::map<string,std::shared_ptr<int>>>; using CI=ekat::map_key_const_iterator<std::map<string,std::shared_ptr<int>>>; const auto& cm=m;
    for (MI it(m.begin()), e(m.end()); it!=e; ++it) { got.push_back(*it); VM_CHECK(it->size()==(*it).size() && &*it==&m.find(*it)->first && it==it,"key-deref",""); }
    for (CI it(cm.begin()), e(cm.end()); !(it==e);) { auto o=it++; gotc.push_back(*o); VM_CHECK(o->c_str()==(*o).c_str() && o!=it,"const-key-deref",""); }
    { CI it(cm.end()), b(cm.begin()); while (it!=b) { if (r.chance(0.5)) { --it; } else { auto o=it--; VM_CHECK(o!=it,"post-decrement",""); } back.push_back(*it); } std::reverse(back.begin(),back.end()); }
    { MI it(m.begin()), e(m.end()); size_t i=0; while (it!=e) { auto o=it++; VM_CHECK(*o==want[i],"post-increment",""); ++i; } MI b(m.begin()); while (it!=b) { if (i%2) { auto& s=--it; VM_CHECK(&s==&it,"pre-decrement",""); } else it--; --i; VM_CHECK(*it==want[i],"decrement",""); } }
    VM_CHECK(got==want && gotc==want && back==want,"keys","visited "<<vm::list(got)<<" / "<<vm::list(gotc)<<" / "<<vm::list(back)<<", should be "<<vm::list(want));
    vector<string> range(CI(cm.begin()),CI(cm.end())); VM_CHECK(range==want,"key-range",""); vm::count("maps"); vm::nontrivial(vm::list(want)); });
  vm::sub("type_for",vm::ncases(3000,20000),[&](Rng& r, long long) {
    using TL=ekat::TypeList<char,Tag<1>,double,string,Tag<2>,int>; vector<string> seen, want{typeid(char).name(),typeid(Tag<1>).name(),typeid(double).name(),typeid(string).name(),typeid(Tag<2>).name(),typeid(int).name()};
    ekat::TypeListFor<TL>([&](auto t){ seen.push_back(typeid(t).name()); }); VM_CHECK(seen==want,"for-all","a loop over 6 types made "<<seen.size()<<" calls");
    const size_t stop=(size_t)r.range(0,7); seen.clear(); ekat::TypeListFor<TL>([&](auto t)->bool{ seen.push_back(typeid(t).name()); return seen.size()>stop; });
    want.resize(std::min<size_t>(6,stop+1)); VM_CHECK(seen==want,"for-break","a loop to be left at type "<<stop<<" made "<<seen.size()<<" calls");
    seen.clear(); ekat::TypeListFor<ekat::TypeList<int>>([&](auto t){ seen.push_back(typeid(t).name()); }); VM_CHECK(seen.size()==1,"for-one",""); vm::nontrivial(stop+100*r.range(0,9)); });
  vm::sub("type_map",vm::ncases(8000,200000),[&](Rng& r, long long) {
    using K=ekat::TypeList<char,Tag<0>,string,int>; using M=ekat::TypeMap<K,ekat::TypeList<double,int,string,int>>; M m; double d=(double)r.range(-5,5); int i=(int)r.range(-5,5), j=(int)r.range(-5,5); string s="v"+std::to_string(r.range(0,5));
    m.at<char>()=d; m.at<Tag<0>>()=i; m.at<string>()=s; m.at<int>()=j; const M& c=m;
    VM_CHECK(c.at<char>()==d && c.at<Tag<0>>()==i && c.at<string>()==s && c.at<int>()==j && m.at<int>()==j,"at","a value stored under a type came back different");
    VM_CHECK(M::has_t<char>() && M::has_t<string>() && !M::has_t<float>() && !M::has_t<double>() && M::has_t<Tag<0>>() && !M::has_t<Tag<1>>(),"has-type","");
    int q=(int)r.range(-6,6); double e=(double)r.range(-6,6); string t="v"+std::to_string(r.range(0,6));
    VM_CHECK(c.has_v(q)==(q==i||q==j),"has-value","has_v("<<q<<")="<<c.has_v(q)<<" among "<<i<<","<<j); VM_CHECK(c.has_v(e)==(e==d),"has-value-double",""); VM_CHECK(c.has_v(t)==(t==s),"has-value-string",""); VM_CHECK(!c.has_v('a') && !c.has_v(1.0f),"has-value-other-type","");
    vm::count((q==i||q==j)?"values_present":"values_absent"); vm::nontrivial((i+6)*1000+(j+6)*50+q+6); });
  vm::sub("containers",vm::ncases(10000,200000),[&](Rng& r, long long) {
    vector<int> v=vals(r,(int)r.range(0,10)); for (auto& x : v) x&=7; const auto v0=v; int x=(int)r.range(0,8);
    auto f=std::find(v.begin(),v.end(),x); VM_CHECK(ekat::find(v,x)==f && ekat::contains(v,x)==(f!=v.end()) && ekat::count(v,x)==std::count(v.begin(),v.end(),x),"find","");
    auto w=v0; auto wi=std::find(w.begin(),w.end(),x); const bool was=wi!=w.end(); if (was) w.erase(wi); VM_CHECK(ekat::erase(v,x)==was && v==w,"erase","erase of "<<x<<" from "<<vm::list(v0)<<" left "<<vm::list(v));
    std::ostringstream o; using std::operator<<; o << v0; VM_CHECK(o.str()==vm::join(v0.begin(),v0.end()," "),"print","a vector is printed as '"<<o.str()<<"'");
    std::vector<std::shared_ptr<int>> own; ekat::WeakPtrSet<int> ws; std::set<int*> ref; for (int k=0;k<6;++k) { if (own.empty()||r.chance(0.5)) own.push_back(std::make_shared<int>(k)); auto& p=own[r.range(0,own.size()-1)]; ws.insert(p); ref.insert(p.get()); } VM_CHECK(ws.size()==ref.size(),"weak-set","a set of weak pointers to "<<ref.size()<<" objects has "<<ws.size()); for (auto& p : own) VM_CHECK(ws.count(p)==ref.count(p.get()),"weak-set-find","");
    vm::nontrivial(vm::list(v0)); });
  vm::sub("traits",1,[&](Rng&, long long) {
    using namespace ekat;
    VM_CHECK((std::is_same_v<ValueType<const double**[3]>::type,const double> && std::is_same_v<ValueType<int>::type,int> && std::is_same_v<ValueType<float*&>::type,float>),"value-type","");
    VM_CHECK((int)GetRanks<double**[3]>::rank==3 && (int)GetRanks<double**[3]>::rank_dynamic==2 && (int)GetRanks<int>::rank==0 && (int)GetRanks<int[2][3]>::rank==2 && (int)GetRanks<int[2][3]>::rank_dynamic==0 && (int)GetRanks<const float***>::rank_dynamic==3,"ranks","");
    VM_CHECK((std::is_same_v<DataND<double,3>::type,double***> && std::is_same_v<DataND<int,0>::type,int> && std::is_same_v<remove_all_pointers<int***>::type,int> && std::is_same_v<remove_all_consts<const int*>::type,int*>),"nd","");
    VM_CHECK(is_vector_v<vector<int>> && !is_vector_v<std::list<int>> && (EqualExists<int,double>::value) && !(EqualExists<int,string>::value) && StreamExists<int>::value && !StreamExists<Tag<3>>::value && is_single_precision<float>::value && !is_single_precision<double>::value,"exists","");
    VM_CHECK((SameType<int,int,int>::value && !SameType<int,double,int>::value && !SameType<int,int,char>::value && SameType<char>::value),"same-type","");
  });
  return vm::finish();
}
