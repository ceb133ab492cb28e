// C02: the text printed for a rational, a scaling factor or a unit denotes exactly that value.
#include "units_oracle.hpp"
using namespace ekat;
using RC = RationalConstant;

// Reads arithmetic text: product and quotient (left to right), ^ (binds tighter), unary minus, parentheses,
// integers, and names of units with optional prefixes. Sets ok=false on anything else.
struct Parser {
  std::string s; size_t p=0; bool ok=true; bool neg=false;
  char peek () { return p<s.size() ? s[p] : '\0'; }
  static bool lookup (const std::string& name, U& o) {
    for (auto& x : named_units()) if (name==x.name) { o = x.o; return true; }
    if (name.size()>1) for (auto& pr : all_prefixes()) if (name[0]==pr.name[0] && lookup(name.substr(1),o)) { U k; k.sc=pr.o; o = k*o; return true; }
    return false;
  }
  U expr () {
    U v = factor();
    while (ok && (peek()=='*' || peek()=='/')) { char op=peek(); ++p; U w = factor(); v = op=='*' ? v*w : v/w; }
    return v;
  }
  U factor () {
    U v = atom();
    if (ok && peek()=='^') { ++p; Q e = number_exponent(); if (ok) v = u_pow(v,e); }
    return v;
  }
  bool digits (i128& n) { if (!isdigit(peek())) return false; n=0; while (isdigit(peek())) n=n*10+(s[p++]-'0'); return true; }
  Q number_exponent () {
    bool par = peek()=='('; if (par) ++p;
    bool ng = peek()=='-'; if (ng) ++p;
    i128 n=0,d=1;
    if (!digits(n)) { ok=false; return Q(); }
    if (par && peek()=='/') { ++p; if (!digits(d) || d==0) { ok=false; return Q(); } }
    if (par) { if (peek()!=')') { ok=false; return Q(); } ++p; }
    return Q(ng ? -n : n,d);
  }
  U atom () {
    U v;
    if (peek()=='(') { ++p; v = expr(); if (peek()!=')') ok=false; else ++p; return v; }
    i128 n;
    if (digits(n)) { if (n==0) ok=false; else v = u_num(Q(n)); return v; }
    std::string name; while (isalpha(peek())) name += s[p++];
    // a prefix in front of the dimensionless "1", as in "m1"
    if (peek()=='1' && !name.empty()) { name+='1'; ++p; }
    if (!lookup(name,v)) ok=false;
    return v;
  }
};
static bool parse_units (const std::string& t, U& o) { Parser q; q.s=t; o=q.expr(); return q.ok && q.p==t.size(); }

static std::string carr (const char* d) { return std::string(d); }

// Texts near the room there is for them: op on a unit named with la letters and one with lb
static std::string long_name (int l, char c, bool comp) { std::string n(l,c); if (comp && l>2) n[l/2]='*'; return n; }
static std::string long_op (int op, int la, int lb, bool ca, bool cb) {
  const auto a = long_name(la,'a',ca), b = long_name(lb,'b',cb);
  const units::Units x(units::m,a), y(units::s,b);
  if (op==0) return (x*y).to_string();
  if (op==1) return (x/y).to_string();
  if (op==2) return pow(x,RationalConstant(7,3)).to_string();
  if (op==3) return (prefixes::kilo*x).to_string();
  return (12*x).to_string();
}
static std::string long_expected (int op, int la, int lb, bool ca, bool cb) {
  auto a = long_name(la,'a',ca), b = long_name(lb,'b',cb);
  const bool pa = a.find('*')!=std::string::npos; if (pa) a="("+a+")";
  if (b.find('*')!=std::string::npos) b="("+b+")";
  if (op==0) return a+"*"+b;
  if (op==1) return a+"/"+b;
  if (op==2) return a+"^(7/3)";
  if (op==3) return (pa ? "(10^3)*" : "k")+a;
  return "12*"+a;
}
static void long_texts () {
  vm::sub("long_texts",vm::ncases(200,2000),[&](vm::Rng& r, long long ic) {
    const int op=(int)(ic%5); bool ca=r.chance(0.3), cb=r.chance(0.3); int la, lb=(int)r.range(1,60);
    const int other = (int)long_expected(op,10,lb,ca,cb).size()-10;
    const int total = r.chance(0.4) ? (int)r.range(126,130) : (int)r.range(100,240);
    la = std::min(127,std::max(1,total-other)); if (op<2 && total-other>127) lb += total-other-127, lb=std::min(lb,127);
    const auto want = long_expected(op,la,lb,ca,cb);
    const std::string in = "operation "+std::to_string(op)+" on names of "+std::to_string(la)+" and "+std::to_string(lb)+" characters";
    auto show = [&](int v) { return std::to_string(v); };
    auto c = vm::run_self({"long",show(op),show(la),show(lb),show(ca),show(cb)});
    const bool clean = c.err.find("Sanitizer")==std::string::npos && c.err.find("runtime error")==std::string::npos && !(c.signaled && c.sig!=SIGABRT);
    VM_CHECK(clean,"units.long_text",in<<", whose text would be of "<<want.size()<<" characters: "<<c.err.substr(0,400));
    const bool printed = c.out.find("text=")==0; const auto got = printed ? c.out.substr(5) : "";
    if (want.size()<128) VM_CHECK(printed && got==want,"units.long_text",in<<": prints '"<<c.out<<"' and not '"<<want<<"' "<<c.err.substr(0,200));
    else VM_CHECK(!printed || got==want,"units.long_text",in<<", whose text would be of "<<want.size()<<" characters: prints '"<<got<<"'");
    vm::count(want.size()<128 ? "long_texts_that_fit" : "long_texts_refused"); vm::nontrivial(in); vm::sample(in+" -> "+show((int)want.size())+(printed?" printed":" refused"));
  });
}

int main (int argc, char** argv) {
  vm::init(argc,argv);
  { auto& a = vm::st().args; if (a.size()==6 && a[0]=="long") {
      auto n = [&](int i) { return std::stoi(a[i]); };
      try { auto t = long_op(n(1),n(2),n(3),n(4)!=0,n(5)!=0); printf("text=%s",t.c_str()); } catch (std::exception& e) { printf("refused: %s",e.what()); }
      return 0;
  } }
  long_texts();
  vm::sub("rational_text",vm::ncases(40000,1000000),[&](vm::Rng& r, long long) {
    auto mk = [&]() -> long long {
      if (r.chance(0.4)) return r.range(-120,120);
      long long m=1; for (int i=(int)r.range(0,17); i>0; --i) m*=10;
      return r.range(-9*m,9*m)+(r.chance(0.5)?r.range(-1,1):0);
    };
    long long a=mk(), b=r.chance(0.4)?1:mk(); if (b==0) b=3;
    Q q(a,b); RC x(a,b);
    std::string e = q.str();
    VM_CHECK(x.to_string()==e,"rational.to_string",e<<" prints as "<<x.to_string());
    std::ostringstream os; os << x;
    VM_CHECK(os.str()==e,"rational.stream",e<<" streams as "<<os.str());
    auto arr = x.string_repr<64>();
    VM_CHECK(carr(arr.data())==e,"rational.string_repr",e<<" is spelled "<<carr(arr.data()));
    double want = (double)q.n/(double)q.d;
    double got = std::stod(x.to_string(Format::Float));
    VM_CHECK(std::fabs(got-want)<=1e-4*std::fabs(want),"rational.float",e<<" prints as the number "<<x.to_string(Format::Float));
    if (a<0 || q.d!=1) vm::nontrivial(e);
    if (std::llabs(a)>2147483647LL) vm::count("numbers_beyond_32_bits");
    if (a<0) vm::count("negative_numbers");
    vm::sample(e+" -> "+x.to_string());
  });
  vm::sub("scaling_text",vm::ncases(30000,800000),[&](vm::Rng& r, long long) {
    Q b(r.chance(0.3)?r.range(1,2000000):r.range(1,30),r.chance(0.4)?r.range(1,30):1), e = r.chance(0.5) ? Q(r.range(-15,15)) : Q(r.range(-25,25),r.range(1,12));
    ScalingFactor s(RC((long long)b.n,(long long)b.d),RC((long long)e.n,(long long)e.d));
    Scale v = sc_q(b,e);
    auto in = "("+b.str()+")^("+e.str()+")";
    U o; bool ok = parse_units(s.to_string(),o);
    VM_CHECK(ok && o.sc==v,"scaling.to_string",in<<" prints as '"<<s.to_string()<<"', which denotes "<<(ok?o.sc.str():"nothing")<<" and not "<<v.str());
    std::ostringstream os; os << s;
    VM_CHECK(os.str()==s.to_string(),"scaling.stream",in<<" streams as "<<os.str());
    auto arr = s.string_repr<64>();
    ok = parse_units(carr(arr.data()),o);
    VM_CHECK(ok && o.sc==v,"scaling.string_repr",in<<" is spelled '"<<carr(arr.data())<<"', which denotes "<<(ok?o.sc.str():"nothing")<<" and not "<<v.str());
    units::Units u(s);
    ok = parse_units(u.to_string(),o);
    VM_CHECK(ok && o.sc==v,"scaling.units",in<<" as a unit prints '"<<u.to_string()<<"'");
    if (e!=Q(1)) vm::nontrivial(in);
    vm::sample(in+" -> "+s.to_string());
  });
  vm::sub("unit_text",vm::ncases(20000,500000),[&](vm::Rng& r, long long) {
    auto c = random_unit(r,(int)r.range(1,3));
    auto t = c.u.to_string();
    U o; bool ok = parse_units(t,o);
    VM_CHECK(ok && o==c.o,"units.to_string",c.how<<" prints as '"<<t<<"', which denotes "<<(ok?o.str():"nothing")<<" and not "<<c.o.str());
    std::ostringstream os; os << c.u;
    VM_CHECK(os.str()==t,"units.stream",c.how<<" streams as "<<os.str()<<" but prints as "<<t);
    // the SI form: factors apart by spaces, each symbol^exponent, an optional scale in front
    auto si = c.u.get_si_string();
    U w; bool good=true; std::istringstream is(si); std::string tok; bool first=true; int last=-1;
    static const char* sym[] = {"m","s","kg","K","A","mol","cd"};
    while (is>>tok) {
      auto hat = tok.find('^'); std::string nm = tok.substr(0,hat); int d=-1;
      for (int i=0;i<7;++i) if (nm==sym[i]) d=i;
      if (d>=0) {
        Q e(1);
        if (hat!=std::string::npos) { Parser q; q.s="("+tok.substr(hat+1)+")"; if (tok[hat+1]=='(') q.s=tok.substr(hat+1); e=q.number_exponent(); if (!q.ok||q.p!=q.s.size()) good=false; }
        if (d<=last || e==Q(0)) good=false;
        last=d; w.e[d]=e;
      } else if (first) { U k; if (!parse_units(tok,k)) good=false; w.sc=k.sc; }
      else good=false;
      first=false;
    }
    VM_CHECK(good && w==c.o,"units.si_string",c.how<<" has SI form '"<<si<<"', which denotes "<<w.str()<<" and not "<<c.o.str());
    bool plain = t.find_first_of("*/^ ()")==std::string::npos;
    VM_CHECK(c.u.has_symbol()==plain,"units.has_symbol",c.how<<" ("<<t<<"): has_symbol is "<<c.u.has_symbol());
    if (!plain) vm::nontrivial(c.how);
    vm::count(plain?"symbols":"compound_texts"); if (t.find("^-")!=std::string::npos || t.find("(-")!=std::string::npos) vm::count("negative_exponents");
    vm::sample(c.how+" -> "+t+" | "+si);
  });
  vm::sub("prefixed_units",named_units().size()*8,[&](vm::Rng&, long long i) {
    auto& x = named_units()[i/8]; auto& p = all_prefixes()[i%8];
    if (sc_log2(x.o.sc)+sc_log2(p.o)>58) return;
    auto u = p.s*x.u;
    VM_CHECK(u.to_string()==std::string(p.name)+x.name,"units.prefix",p.name<<" times "<<x.name<<" prints as "<<u.to_string());
    units::Units si(RationalConstant((long long)x.o.e[0].n,(long long)x.o.e[0].d),RationalConstant((long long)x.o.e[1].n,(long long)x.o.e[1].d),RationalConstant((long long)x.o.e[2].n,(long long)x.o.e[2].d),
      RationalConstant((long long)x.o.e[3].n,(long long)x.o.e[3].d),RationalConstant((long long)x.o.e[4].n,(long long)x.o.e[4].d),RationalConstant((long long)x.o.e[5].n,(long long)x.o.e[5].d),RationalConstant((long long)x.o.e[6].n,(long long)x.o.e[6].d));
    // the value of a prefixed unit, through the text of its SI form: one number, then the symbols
    auto t = u.get_si_string(); auto sp = t.find(' '); U num, whole; U want; want.sc = x.o.sc*p.o;
    bool dimless = true; for (auto& e : x.o.e) if (e!=Q(0)) dimless=false;
    bool got = parse_units(dimless ? t : t.substr(0,sp),num);
    if (want.sc.f.empty()) got = true, num = want, vm::count("prefixes_cancelled");   // nothing in front
    VM_CHECK(got && num==want,"units.prefix_scale",p.name<<" times "<<x.name<<" has the SI form '"<<t<<"', whose scale should be "<<want.sc.str());
    VM_CHECK(want.sc.f.empty() || dimless || t.substr(sp+1)==si.get_si_string(),"units.prefix_dims",p.name<<" times "<<x.name<<" has the SI form '"<<t<<"', its dimensions should print as "<<si.get_si_string());
    auto v = x.u*p.s;
    VM_CHECK(v==u && v.to_string()==u.to_string(),"units.prefix",x.name<<" times "<<p.name<<" is "<<v.to_string()<<", and "<<p.name<<" times "<<x.name<<" is "<<u.to_string());
    vm::count("prefixed_units");
    vm::nontrivial(u.to_string());
  });
  vm::sub("renamed_units",vm::ncases(2000,20000),[&](vm::Rng& r, long long) {
    std::string n; for (int i=(int)r.range(1,100); i>0; --i) n += (char)('a'+r.range(0,25));
    auto c = random_unit(r,1);
    auto u = c.u.rename(n);
    VM_CHECK(u.to_string()==n && u.has_symbol(),"units.rename",c.how<<" renamed to "<<n<<" prints as "<<u.to_string());
    units::Units v(c.u,n);
    VM_CHECK(v.to_string()==n,"units.rename",c.how<<" renamed to "<<n<<" prints as "<<v.to_string());
  });
  return vm::finish();
}
