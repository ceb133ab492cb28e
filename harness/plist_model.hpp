// An independent model of a parameter list: a tree of typed values, compared with the real one.
#ifndef PLIST_MODEL_HPP
#define PLIST_MODEL_HPP
#include "vmon.hpp"
#include "ekat_parameter_list.hpp"
#include "ekat_std_utils.hpp"
#include <memory>
#include <variant>

using PL = ekat::ParameterList;
struct Custom { int a; std::string s; bool operator== (const Custom& o) const { return a==o.a && s==o.s; } };
struct Empty { bool operator== (const Empty&) const { return true; } };
using SP = std::shared_ptr<int>;
using Val = std::variant<int,bool,double,std::string,float,std::vector<int>,std::vector<char>,std::vector<double>,std::vector<std::string>,Empty,SP,Custom,long long,char>;
struct Node { std::string name; std::map<std::string,Val> p; std::map<std::string,Node> s; };

template<typename T> struct is_vec : std::false_type {};
template<typename T> struct is_vec<std::vector<T>> : std::true_type {};

template<typename F>
inline void for_each_type (F f) {
  f(int()); f(bool()); f(double()); f(std::string()); f(float()); f(std::vector<int>()); f(std::vector<char>());
  f(std::vector<double>()); f(std::vector<std::string>()); f(SP()); f(Custom()); f((long long)0); f(char());
}
inline std::string show (const Val& v) {
  return std::visit([](auto& x) -> std::string {
    using T = std::decay_t<decltype(x)>;
    if constexpr (std::is_same_v<T,Empty>) return "[]"; else if constexpr (std::is_same_v<T,SP>) return "ptr";
    else if constexpr (std::is_same_v<T,Custom>) return "custom"+std::to_string(x.a); else if constexpr (std::is_same_v<T,std::string>) return "'"+x+"'";
    else if constexpr (is_vec<T>::value) { std::ostringstream o; o.precision(17); o<<"["; for (auto e : x) { if constexpr (std::is_same_v<std::decay_t<decltype(e)>,char>) o<<int(e); else o<<e; o<<"|"; } o<<"]"; return o.str(); }
    else return vm::str(x); },v);
}
// One parameter of the real list against the model
inline void check_param (const PL& l, const std::string& k, const Val& v, const std::string& where, const std::string& key) {
  VM_CHECK(l.isParameter(k),key+".missing",where<<": parameter '"<<k<<"' is missing");
  if (!l.isParameter(k)) return;
  std::visit([&](auto& x) {
    using T = std::decay_t<decltype(x)>;
    if constexpr (std::is_same_v<T,Empty>) {
      VM_CHECK(l.isType<PL::EmptySeq>(k),key+".type",where<<": '"<<k<<"' is not the empty sequence");
      bool t1=true; vm::outcome([&]{ t1 = l.get<std::vector<double>>(k).empty() && l.get<std::vector<std::string>>(k).empty(); });
      VM_CHECK(t1,key+".emptyseq",where<<": an empty sequence is read as a non-empty vector");
    } else {
      VM_CHECK(l.isType<T>(k),key+".type",where<<": '"<<k<<"' does not have the type of its value "<<show(Val(x)));
      std::string msg; bool eq=false;
      int o = vm::outcome([&]{ eq = l.get<T>(k)==x; },&msg);
      VM_CHECK(o==0,key+".get-throws",where<<": get of '"<<k<<"' = "<<show(Val(x))<<" threw: "<<msg);
      if (o==0) VM_CHECK(eq,key+".value",where<<": '"<<k<<"' is "<<show(Val(l.get<T>(k)))<<" and not "<<show(Val(x)));
    }
  },v);
}
inline void check_tree (const PL& l, const Node& n, const std::string& where, const std::string& key, bool names=true) {
  if (names) VM_CHECK(l.name()==n.name,key+".name",where<<": the list is called '"<<l.name()<<"' and not '"<<n.name<<"'");
  auto pn = l.param_names(); auto sn = l.sublist_names();
  std::vector<std::string> ep, es;
  for (auto& it : n.p) ep.push_back(it.first);
  for (auto& it : n.s) es.push_back(it.first);
  std::sort(pn.begin(),pn.end()); std::sort(sn.begin(),sn.end());
  VM_CHECK(pn==ep,key+".param-names",where<<": parameters are "<<vm::list(pn)<<", should be "<<vm::list(ep));
  VM_CHECK(sn==es,key+".sublist-names",where<<": sublists are "<<vm::list(sn)<<", should be "<<vm::list(es));
  for (auto& it : n.p) check_param(l,it.first,it.second,where,key);
  for (auto& it : n.s) {
    VM_CHECK(l.isSublist(it.first),key+".sublist-missing",where<<": sublist '"<<it.first<<"' is missing");
    if (l.isSublist(it.first)) check_tree(l.sublist(it.first),it.second,where+"/"+it.first,key,names);
  }
}
inline size_t tree_size (const Node& n) { size_t k=1+n.p.size(); for (auto& s : n.s) k+=tree_size(s.second); return k; }
inline uint64_t tree_hash (const Node& n) {
  uint64_t h = 77;
  for (auto& it : n.p) h = vm::mix(h ^ vm::hash_str(it.first+"="+show(it.second)));
  for (auto& it : n.s) h = vm::mix(h ^ vm::hash_str(it.first) ^ tree_hash(it.second));
  return h;
}
#endif
