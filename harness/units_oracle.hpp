// Exact reference values for rationals, scaling factors and units, independent of EKAT's arithmetic.
#ifndef UNITS_ORACLE_HPP
#define UNITS_ORACLE_HPP
#include "vmon.hpp"
#include <ekat_units.hpp>

using i128 = __int128;
inline std::string i2s (i128 v) { if (v==0) return "0"; bool n=v<0; std::string s; while (v!=0) { int d=(int)(v%10); s+=char('0'+(d<0?-d:d)); v/=10; } if (n) s+='-'; return std::string(s.rbegin(),s.rend()); }
inline i128 gcd128 (i128 a, i128 b) { if (a<0) a=-a; if (b<0) b=-b; while (b) { i128 t=a%b; a=b; b=t; } return a; }

// An exact rational in lowest terms with positive denominator
struct Q {
  i128 n=0, d=1;
  Q () {}
  Q (i128 a, i128 b=1) { if (b<0) { a=-a; b=-b; } i128 g=gcd128(a,b); if (g==0) g=1; n=a/g; d=b/g; }
  bool operator== (const Q& o) const { return n==o.n && d==o.d; }
  bool operator!= (const Q& o) const { return !(*this==o); }
  std::string str () const { return i2s(n) + (d==1 ? "" : "/"+i2s(d)); }
  bool fits (i128 lim) const { return n<=lim && n>=-lim && d<=lim; }
};
inline Q operator+ (Q a, Q b) { return Q(a.n*b.d+b.n*a.d,a.d*b.d); }
inline Q operator- (Q a, Q b) { return Q(a.n*b.d-b.n*a.d,a.d*b.d); }
inline Q operator* (Q a, Q b) { return Q(a.n*b.n,a.d*b.d); }
inline Q operator/ (Q a, Q b) { return Q(a.n*b.d,a.d*b.n); }
inline Q qpow (Q a, int p) { Q r(1); for (int i=0; i<(p<0?-p:p); ++i) r=r*a; return p<0 ? Q(1)/r : r; }

// A positive scale, as prime -> rational exponent (zero exponents left out)
struct Scale {
  std::map<long long,Q> f;
  bool operator== (const Scale& o) const { return f==o.f; }
  std::string str () const { std::string s; for (auto& it : f) s += (s.empty()?"":" ")+std::to_string(it.first)+"^("+it.second.str()+")"; return s.empty()?"1":s; }
};
inline void sc_add (Scale& s, long long p, Q e) { Q v = s.f.count(p) ? s.f[p]+e : e; if (v==Q(0)) s.f.erase(p); else s.f[p]=v; }
inline Scale sc_int (i128 n, Q e) { Scale s; for (long long p=2; (i128)p*p<=n; ++p) while (n%p==0) { sc_add(s,p,e); n/=p; } if (n>1) sc_add(s,(long long)n,e); return s; }
inline Scale operator* (const Scale& a, const Scale& b) { Scale r=a; for (auto& it : b.f) sc_add(r,it.first,it.second); return r; }
inline Scale sc_pow (const Scale& a, Q e) { Scale r; if (e==Q(0)) return r; for (auto& it : a.f) r.f[it.first]=it.second*e; return r; }
inline Scale operator/ (const Scale& a, const Scale& b) { return a*sc_pow(b,Q(-1)); }
inline Scale sc_q (Q b, Q e=Q(1)) { return sc_int(b.n,e)*sc_int(b.d,Q(0)-e); }   // b>0

struct U {
  Scale sc; Q e[7];
  bool operator== (const U& o) const { if (!(sc==o.sc)) return false; for (int i=0;i<7;++i) if (e[i]!=o.e[i]) return false; return true; }
  std::string str () const { std::string s="{"+sc.str()+";"; for (auto& x : e) s+=" "+x.str(); return s+"}"; }
};
inline U operator* (const U& a, const U& b) { U r; r.sc=a.sc*b.sc; for (int i=0;i<7;++i) r.e[i]=a.e[i]+b.e[i]; return r; }
inline U operator/ (const U& a, const U& b) { U r; r.sc=a.sc/b.sc; for (int i=0;i<7;++i) r.e[i]=a.e[i]-b.e[i]; return r; }
inline U u_pow (const U& a, Q p) { U r; r.sc=sc_pow(a.sc,p); for (int i=0;i<7;++i) r.e[i]=a.e[i]*p; return r; }
inline U u_dim (int i) { U r; r.e[i]=Q(1); return r; }
inline U u_num (Q q) { U r; r.sc=sc_q(q); return r; }

// Bound on the integers an implementation may have to form from this scale: base^|exp|
inline double sc_log2 (const Scale& s) { double l=0; for (auto& it : s.f) { double e=(double)it.second.n; l += std::log2((double)it.first)*std::fabs(e); } return l; }
inline long long sc_lden (const Scale& s) { i128 l=1; for (auto& it : s.f) l = l/gcd128(l,it.second.d)*it.second.d; return (long long)l; }

struct NamedUnit { const char* name; ekat::units::Units u; U o; };
inline const std::vector<NamedUnit>& named_units () {
  using namespace ekat::units;
  static const std::vector<NamedUnit> v = [](){
    U M=u_dim(0),S=u_dim(1),KG=u_dim(2),KK=u_dim(3),AA=u_dim(4),MOL=u_dim(5),CD=u_dim(6);
    auto n=[](long long a,long long b=1){ return u_num(Q(a,b)); };
    U NN=KG*M/(S*S), PA=NN/(M*M), JJ=NN*M, WW=JJ/S, CC=AA*S, VV=JJ/CC, TT=NN/(AA*M), FF=CC/VV, WB=VV*S, HH=WB/AA;
    return std::vector<NamedUnit>{
      {"m",m,M},{"s",s,S},{"kg",kg,KG},{"K",K,KK},{"A",A,AA},{"mol",mol,MOL},{"cd",cd,CD},{"1",none,U()},
      {"h",h,n(3600)*S},{"day",day,n(86400)*S},{"yr",year,n(365LL*86400)*S},{"g",g,n(1,1000)*KG},{"N",N,NN},{"Pa",Pa,PA},
      {"bar",bar,n(100000)*PA},{"atm",atm,n(101325)*PA},{"J",J,JJ},{"W",W,WW},{"C",C,CC},{"V",V,VV},{"T",T,TT},{"F",F,FF},
      {"Wb",Wb,WB},{"H",H,HH},{"Sv",Sv,JJ/KG},{"Hz",Hz,U()/S},{"rad",rad,U()},{"sr",sr,U()} };
  }();
  return v;
}
struct Prefix { const char* name; ekat::ScalingFactor s; Scale o; };
inline const std::vector<Prefix>& all_prefixes () {
  using namespace ekat::prefixes;
  static const std::vector<Prefix> v = {
    {"n",nano,sc_q(Q(10),Q(-9))},{"u",micro,sc_q(Q(10),Q(-6))},{"m",milli,sc_q(Q(10),Q(-3))},{"c",centi,sc_q(Q(10),Q(-2))},
    {"h",hecto,sc_q(Q(10),Q(2))},{"k",kilo,sc_q(Q(10),Q(3))},{"M",mega,sc_q(Q(10),Q(6))},{"G",giga,sc_q(Q(10),Q(9))} };
  return v;
}

// How large the integers can get that EKAT forms for a scale: base up to 2^lg, exponent up to num/den.
// Its results are not brought back to a canonical base, so this depends on how a unit was computed;
// the arithmetic is claimed exact only where these integers fit in 64 bits.
struct Rep { double lg=0; double num=1, den=1; };
inline double rep_bits (const Rep& a, const Rep& b) { return a.lg*a.num*b.den + b.lg*b.num*a.den; }
inline Rep rep_mul (const Rep& a, const Rep& b) {
  return {rep_bits(a,b)*1.0,1,a.den*b.den};
}
inline bool rep_ok (const Rep& r) { return r.lg*r.num*r.den<=28 && r.den<=4 && r.lg<=40; }
inline Rep rep_of (const Scale& s) { return {sc_log2(s),1,(double)sc_lden(s)}; }

// A random expression over named units, prefixes, numbers and powers, evaluated both ways
struct UnitCase { ekat::units::Units u; U o; std::string how; Rep rep; };
inline UnitCase random_unit (vm::Rng& r, int depth) {
  using namespace ekat::units;
  const auto& nu = named_units();
  if (depth==0) {
    for (;;) { auto& x = nu[r.range(0,nu.size()-1)]; UnitCase c{x.u,x.o,x.name,rep_of(x.o.sc)}; if (rep_ok(c.rep)) return c; }
  }
  for (int tries=0; tries<50; ++tries) {
    int k = (int)r.range(0,7);
    auto a = random_unit(r,depth-1);
    Rep rep;
    if (k<=3) {
      auto b = random_unit(r,(int)r.range(0,depth-1));
      rep = rep_mul(a.rep,b.rep); if (!rep_ok(rep) || rep_bits(a.rep,b.rep)>40) continue;
      if (k<=1) return {a.u*b.u,a.o*b.o,"("+a.how+"*"+b.how+")",rep};
      return {a.u/b.u,a.o/b.o,"("+a.how+"/"+b.how+")",rep};
    } else if (k==4 || k==5) {
      long long n = r.range(-3,3), d = r.range(1,2); if (n==0 && r.chance(0.8)) n=1;
      if (k==5) { n=1; d=2; }
      rep = {a.rep.lg,a.rep.num*std::max(1.0,std::fabs((double)n)),a.rep.den*d}; if (!rep_ok(rep)) continue;
      U o = u_pow(a.o,Q(n,d));
      if (k==5) return {sqrt(a.u),o,"sqrt("+a.how+")",rep};
      if (d==1 && r.chance(0.3)) return {pow(a.u,ekat::RationalConstant(n)),o,"pow("+a.how+","+std::to_string(n)+")",rep};
      if (r.chance(0.2)) return {pow(a.u,ekat::RationalConstant(-n,-d)),o,"pow("+a.how+","+Q(n,d).str()+")",rep};
      return {pow(a.u,ekat::RationalConstant(n,d)),o,"pow("+a.how+","+Q(n,d).str()+")",rep};
    } else if (k==6) {
      auto& p = all_prefixes()[r.range(0,7)];
      U po; po.sc = p.o; Rep pr{std::log2(10.0),std::fabs((double)p.o.f.at(2).n),1};
      rep = rep_mul(a.rep,pr); if (!rep_ok(rep) || rep_bits(a.rep,pr)>40) continue;
      return {r.chance(0.5) ? p.s*a.u : a.u*p.s,a.o*po,std::string(p.name)+"."+a.how,rep};
    } else {
      long long n = r.range(1,60), d = r.range(1,12);
      Q q(n,d); U po = u_num(q);
      Rep pr{std::log2((double)std::max(q.n,q.d)),1,1};
      rep = rep_mul(a.rep,pr); if (!rep_ok(rep)) continue;
      int w = (int)r.range(0,3);
      if (w==0) return {ekat::RationalConstant(n,d)*a.u,a.o*po,q.str()+"*"+a.how,rep};
      if (w==1) return {a.u/ekat::RationalConstant(n,d),a.o/po,a.how+"/("+q.str()+")",rep};
      if (w==2) return {ekat::RationalConstant(n,d)/a.u,po/a.o,q.str()+"/("+a.how+")",rep};
      return {a.u*ekat::ScalingFactor(ekat::RationalConstant(n,d)),a.o*po,a.how+"*"+q.str(),rep};
    }
  }
  auto& x = nu[r.range(0,6)]; return {x.u,x.o,x.name,Rep{}};
}
#endif
