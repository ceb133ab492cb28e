// C03: histories of operations on parameter lists, against the model in plist_model.hpp.
#include "plist_model.hpp"

static const char* KEYS[] = {"a","b","c","i","x y","","Long Name_1","A"};
static const char* SUBS[] = {"a","s","t","x y","S"};

// A value whose copy may throw
struct Fickle { static bool armed; Fickle () = default; Fickle (const Fickle&) { if (armed) throw std::runtime_error("no copy"); } Fickle& operator= (const Fickle&) = default; };
bool Fickle::armed=false;

static Val rnd_val (vm::Rng& r) {
  switch (r.range(0,13)) {
    case 0: return (int)r.range(-1000,1000);
    case 1: return r.chance(0.5);
    case 2: return r.real(-5,5);
    case 3: return std::string(r.range(0,40),(char)r.range(33,120));
    case 4: return (float)r.range(-100,100)/8;
    case 5: { std::vector<int> v(r.range(0,5)); for (auto& e : v) e=(int)r.range(-9,9); return v; }
    case 6: { std::vector<char> v(r.range(0,5)); for (auto& e : v) e=(char)r.range(0,1); return v; }
    case 7: { std::vector<double> v(r.range(0,5)); for (auto& e : v) e=r.real(-9,9); return v; }
    case 8: { std::vector<std::string> v(r.range(0,4)); for (auto& e : v) e=std::string(r.range(0,30),'q'); return v; }
    case 9: return Empty();
    case 10: return std::make_shared<int>((int)r.range(0,100));
    case 11: return Custom{(int)r.range(0,100),std::string(r.range(0,30),'c')};
    case 12: return (long long)r.range(-(1LL<<40),1LL<<40);
    default: return (char)r.range(65,90);
  }
}
static void set_real (PL& l, const std::string& k, const Val& v) {
  std::visit([&](auto& x) { using T = std::decay_t<decltype(x)>;
    if constexpr (std::is_same_v<T,Empty>) l.set(k,PL::EmptySeq()); else l.set<T>(k,x); },v);
}
static void import_model (Node& d, const Node& s) {
  for (auto& it : s.s) { auto f = d.s.find(it.first); if (f==d.s.end()) d.s[it.first]=it.second; else { import_model(f->second,it.second); f->second.name=it.second.name; } }
  for (auto& it : s.p) d.p[it.first]=it.second;
}
// What the printed text must contain, line by line
static void print_model (const Node& n, int ind, int inc, std::vector<std::string>& pre, std::vector<const Val*>& vals) {
  pre.push_back(std::string(ind,' ')+n.name+":"); vals.push_back(nullptr);
  for (auto& it : n.p) { pre.push_back(std::string(ind+inc,' ')+it.first+": "); vals.push_back(&it.second); }
  for (auto& it : n.s) print_model(it.second,ind+inc,inc,pre,vals);
}

int main (int argc, char** argv) {
  vm::init(argc,argv);
  vm::sub("history",vm::ncases(1500,60000),[&](vm::Rng& r, long long) {
    const int nl = 2;
    std::vector<std::unique_ptr<PL>> L; std::vector<Node> M(nl);
    for (int i=0; i<nl; ++i) { M[i].name="L"+std::to_string(i); L.emplace_back(r.chance(0.5) ? new PL(M[i].name) : new PL()); L[i]->rename(M[i].name); }
    std::string hist;
    auto walk = [&](int i, PL*& l, Node*& m, int maxd) {
      l = L[i].get(); m = &M[i]; hist += " "+std::to_string(i);
      while (maxd-->0 && !m->s.empty() && r.chance(0.6)) {
        auto it = m->s.begin(); std::advance(it,r.range(0,m->s.size()-1));
        hist += "/"+it->first; l = &l->sublist(it->first); m = &it->second;
      }
    };
    const int nops = (int)r.range(5,40);
    for (int op=0; op<nops && vm::st().cur_viols==0; ++op) {
      PL* l; Node* m; const int i=(int)r.range(0,nl-1);
      const int what = (int)r.range(0,16);
      hist += "; op"+std::to_string(what);
      walk(i,l,m,4);
      std::string k = r.pick(KEYS);
      if (!m->p.empty() && r.chance(0.6)) { auto it = m->p.begin(); std::advance(it,r.range(0,m->p.size()-1)); k = it->first; }
      switch (what) {
        case 0: case 1: case 2: { Val v = rnd_val(r); set_real(*l,k,v); m->p[k]=v; hist+=" set "+k+"="+show(v); break; }
        case 3: {   // reading with every type: exactly the stored type succeeds, through const and non-const lists
          const PL& cl = *l;
          auto it = m->p.find(k);
          for_each_type([&](auto t) {
            using T = decltype(t);
            std::string msg; bool eq=true;
            const bool have = it!=m->p.end();
            const bool good = have && std::holds_alternative<T>(it->second);
            const bool eseq = have && is_vec<T>::value && std::holds_alternative<Empty>(it->second);
            int o = vm::outcome([&]{ auto& x = cl.get<T>(k); eq = good ? x==std::get<T>(it->second) : eseq ? (x==T()) : true; },&msg);
            VM_CHECK(o==(good||eseq?0:1) && eq,"get-const",hist<<": reading '"<<k<<"' "<<(have?show(it->second):"(missing)")<<" as "<<typeid(T).name()<<": outcome "<<o<<" "<<msg);
            if (o==1) VM_CHECK(msg.find(k)!=std::string::npos && msg.find(m->name)!=std::string::npos,"get-error-names-key",hist<<": the error for '"<<k<<"' in list '"<<m->name<<"' says: "<<msg);
            if (!eseq) {
              o = vm::outcome([&]{ auto& x = l->get<T>(k); eq = good ? x==std::get<T>(it->second) : true; });
              VM_CHECK(o==(good?0:1) && eq,"get",hist<<": reading '"<<k<<"' as "<<typeid(T).name()<<": outcome "<<o);
            }
            bool is=false; o = vm::outcome([&]{ is = cl.isType<T>(k); });
            VM_CHECK(have ? (o==0 && is==good) : o==1,"isType",hist<<": isType of '"<<k<<"' "<<(have?show(it->second):"(missing)")<<" for "<<typeid(T).name()<<": outcome "<<o<<", "<<is);
          });
          vm::count(it!=m->p.end() ? "typed_reads_of_present" : "typed_reads_of_missing");
          break;
        }
        case 4: {   // the first non-const read of an empty sequence as a vector gives it that type
          auto it = m->p.find(k);
          if (it!=m->p.end() && std::holds_alternative<Empty>(it->second)) {
            auto& v = l->get<std::vector<int>>(k); VM_CHECK(v.empty(),"emptyseq",hist<<": not empty");
            v.push_back(7); it->second = std::vector<int>{7}; vm::count("emptyseq_given_a_type");
          }
          break;
        }
        case 5: {   // get with a default
          Val v = rnd_val(r);
          std::visit([&](auto& x) { using T = std::decay_t<decltype(x)>;
            if constexpr (!std::is_same_v<T,Empty>) {
              auto it = m->p.find(k); const bool have = it!=m->p.end();
              const bool good = !have || std::holds_alternative<T>(it->second), eseq = have && is_vec<T>::value && std::holds_alternative<Empty>(it->second);
              if (eseq) return;
              bool eq=true; int o = vm::outcome([&]{ T& g = l->get<T>(k,x); eq = g==(have ? std::get<T>(it->second) : x); });
              VM_CHECK(o==(good?0:1) && eq,"get-default",hist<<": get('"<<k<<"', default "<<show(v)<<"), stored "<<(have?show(it->second):"(missing)")<<": outcome "<<o<<" equal "<<eq);
              if (!have) m->p[k]=x;
              vm::count(have ? "default_not_used" : "default_added");
            } },v);
          break;
        }
        case 6: {   // write through the reference a get returns
          auto it = m->p.find(k);
          if (it!=m->p.end()) { if (auto* x = std::get_if<int>(&it->second)) { l->get<int>(k) += 5; *x += 5; } else if (auto* y = std::get_if<std::string>(&it->second)) { l->get<std::string>(k) += "zz"; *y += "zz"; }
            else if (auto* z = std::get_if<std::vector<double>>(&it->second)) { l->get<std::vector<double>>(k).push_back(1.5); z->push_back(1.5); } vm::count("writes_through_reference"); }
          break;
        }
        case 7: case 8: {   // sublists come into being when a non-const list is asked for them, once
          const std::string s = r.pick(SUBS); const bool had = m->s.count(s)>0;
          VM_CHECK(l->isSublist(s)==had,"isSublist",hist<<": isSublist('"<<s<<"') is "<<!had);
          const PL& cl = *l;
          if (!had) VM_CHECK(vm::throws([&]{ cl.sublist(s); }) && !l->isSublist(s),"const-sublist",hist<<": a const list handed out the missing sublist '"<<s<<"'");
          PL& a = l->sublist(s); PL& b = l->sublist(s);
          VM_CHECK(&a==&b,"sublist-identity",hist<<": two different sublists '"<<s<<"'");
          if (!had) m->s[s].name = s;
          a.set("n",op); m->s[s].p["n"]=op; hist += " sub "+s;
          break;
        }
        case 9: { m->name = "N"+std::to_string(op); l->rename(m->name); break; }
        case 10: case 11: {  // assignment, also between a list and its own parts
          PL* l2; Node* m2; walk((int)r.range(0,nl-1),l2,m2,4);
          Node copy = *m2; *l = *l2; *m = copy; vm::count("assignments");
          break;
        }
        case 12: {  // import, also from a list's own part
          PL* l2; Node* m2; walk((int)r.range(0,nl-1),l2,m2,4);
          Node copy = *m2; l->import(*l2); import_model(*m,copy); vm::count("imports");
          break;
        }
        case 13: {  // a copy is independent
          PL c(*l); Node mc = *m; set_real(c,"only in copy",1); c.sublist("s in copy").set("q",2); 
          if (!mc.s.empty()) { auto s = mc.s.begin()->first; c.sublist(s).set("deep in copy",3); mc.s[s].p["deep in copy"]=3; }
          for (auto& it : mc.p) if (auto* x = std::get_if<std::vector<double>>(&it.second)) { c.get<std::vector<double>>(it.first).push_back(4); x->push_back(4); }
          mc.p["only in copy"]=1; mc.s["s in copy"].name="s in copy"; mc.s["s in copy"].p["q"]=2;
          check_tree(c,mc,hist+" (copy)","copy"); vm::count("copies");
          break;
        }
        case 14: {  // references to other entries stay valid while entries come and go
          auto it = m->p.find(k);
          if (it!=m->p.end() && std::holds_alternative<int>(it->second)) {
            int& ref = l->get<int>(k); 
            for (int q=0; q<6; ++q) { std::string nk="new"+std::to_string(q); l->set(nk,q); m->p[nk]=q; l->sublist(nk).set("z",q); if (!m->s.count(nk)) m->s[nk].name=nk; m->s[nk].p["z"]=q; }
            ref = 4242; it->second = 4242; vm::count("references_kept");
          }
          break;
        }
        case 15: {  // a value that cannot be copied is not stored, and what was there stays
          Fickle f; Fickle::armed=true; const bool threw = vm::throws([&]{ if (r.chance(0.5)) l->set(k,f); else { if (m->p.count(k)) l->set(k,f); else l->get<Fickle>(k,f); } }); Fickle::armed=false;
          VM_CHECK(threw,"set-throws",hist<<": a value whose copy throws was stored"); vm::count("copies_that_throw");
          break;
        }
        default: {  // print shows every parameter and sublist, in its place
          std::ostringstream os; int ind=(int)r.range(0,3), inc=(int)r.range(1,4);
          const auto fl=os.flags(); const auto prec=os.precision();
          l->print(os,ind,inc);
          VM_CHECK(os.flags()==fl && os.precision()==prec && os.width()==0 && os.fill()==' ',"print.stream",hist<<": printing changed the format of the stream");
          std::vector<std::string> pre, got; std::vector<const Val*> vals; print_model(*m,ind,inc,pre,vals);
          std::istringstream is(os.str()); std::string ln; while (std::getline(is,ln)) got.push_back(ln);
          VM_CHECK(got.size()==pre.size(),"print.lines",hist<<": printed "<<got.size()<<" lines for "<<pre.size()<<" entries:\n"<<os.str());
          if (got.size()==pre.size()) for (size_t q=0; q<got.size(); ++q) {
            VM_CHECK(got[q].rfind(pre[q],0)==0,"print.entry",hist<<": line '"<<got[q]<<"' should start with '"<<pre[q]<<"'");
            if (!vals[q] || got[q].rfind(pre[q],0)!=0) continue;
            std::string t = got[q].substr(pre[q].size()), want; bool cmp=true;
            if (auto* x = std::get_if<int>(vals[q])) want=std::to_string(*x); else if (auto* b = std::get_if<bool>(vals[q])) want=*b?"true":"false";
            else if (auto* s = std::get_if<std::string>(vals[q])) want=*s; else if (auto* v = std::get_if<std::vector<int>>(vals[q])) want = vm::join(v->begin(),v->end()," ");
            else if (auto* d = std::get_if<double>(vals[q])) { cmp=false; VM_CHECK(std::fabs(std::stod(t)-*d)<=1e-4*std::fabs(*d)+1e-300,"print.value",hist<<": "<<*d<<" printed as "<<t); }
            else if (auto* f = std::get_if<float>(vals[q])) { cmp=false; VM_CHECK(std::fabs(std::stof(t)-*f)<=1e-4*std::fabs(*f),"print.value",hist<<": "<<*f<<" printed as "<<t); }
            else cmp=false;
            if (cmp) VM_CHECK(t==want,"print.value",hist<<": '"<<want<<"' printed as '"<<t<<"'");
          }
          vm::count("prints");
        }
      }
      vm::count("operations");
      // the whole of both lists after each step: an operation changes what it says and nothing else
      for (int q=0; q<nl; ++q) check_tree(*L[q],M[q],hist,"state");
      size_t sz = tree_size(M[0])+tree_size(M[1]);
      vm::count_max("max_entries",(long long)sz);
      if (sz>400) break;
    }
    vm::nontrivial(tree_hash(M[0])^vm::mix(tree_hash(M[1])));
    vm::sample(hist);
  });
  return vm::finish();
}
