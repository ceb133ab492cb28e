// C01: arithmetic and comparison of rationals, scaling factors and units is exact.
#include "units_oracle.hpp"
using namespace ekat;
using RC = RationalConstant;

static std::string rs (const RC& r) { return std::to_string(r.num)+"/"+std::to_string(r.den); }
static bool eq (const RC& r, const Q& q) { return (i128)r.num==q.n && (i128)r.den==q.d; }
static long long rnd_int (vm::Rng& r, bool big) {
  static const long long sp[] = {0,1,-1,2,-2,3,10,-10,12,-12,100,1000,-1000,86400,3600};
  if (r.chance(0.3)) return r.pick(sp);
  if (big && r.chance(0.4)) return r.range(-2000000000LL,2000000000LL);
  return r.range(-40,40);
}

static void rational_ops () {
  vm::sub("rational_arithmetic",vm::ncases(40000,2000000),[&](vm::Rng& r, long long) {
    long long a=rnd_int(r,true), b=rnd_int(r,true), c=rnd_int(r,true), d=rnd_int(r,true);
    if (b==0) b=1;
    if (d==0) d=7;
    Q x(a,b), y(c,d);
    RC X(a,b), Y(c,d);
    auto in = "x="+std::to_string(a)+"/"+std::to_string(b)+" y="+std::to_string(c)+"/"+std::to_string(d);
    VM_CHECK(eq(X,x),"rational.construct","RationalConstant("<<a<<","<<b<<") is "<<rs(X)<<", exactly it is "<<x.str());
    VM_CHECK(X.den>0 && gcd128(X.num,X.den)==1,"rational.canonical",in<<": not in lowest terms with a positive denominator: "<<rs(X));
    VM_CHECK((X==Y)==(x==y),"rational.eq",in<<": == gives "<<(X==Y));
    VM_CHECK((X!=Y)==(x!=y),"rational.ne",in<<": != gives "<<(X!=Y));
    VM_CHECK(eq(-X,Q(0)-x),"rational.neg",in<<": -x is "<<rs(-X));
    // stay where numerator and denominator of the unreduced result fit in 64 bits
    const i128 lim = ((i128)1)<<62;
    auto fits = [&](i128 p, i128 q) { return p<lim && p>-lim && q<lim && q>-lim; };
    if (fits(x.n*y.d,y.n*x.d) && fits(x.n*y.d+y.n*x.d,x.d*y.d) && fits(x.n*y.d-y.n*x.d,x.d*y.d)) {
      VM_CHECK(eq(X+Y,x+y),"rational.add",in<<": x+y is "<<rs(X+Y)<<" not "<<(x+y).str());
      VM_CHECK(eq(X-Y,x-y),"rational.sub",in<<": x-y is "<<rs(X-Y)<<" not "<<(x-y).str());
    }
    if (fits(x.n*y.n,x.d*y.d)) VM_CHECK(eq(X*Y,x*y),"rational.mul",in<<": x*y is "<<rs(X*Y)<<" not "<<(x*y).str());
    if (y.n!=0) {
      if (fits(x.n*y.d,y.n*x.d)) VM_CHECK(eq(X/Y,x/y),"rational.div",in<<": x/y is "<<rs(X/Y)<<" not "<<(x/y).str());
    } else {
      VM_CHECK(vm::throws([&]{ X/Y; }),"rational.div0",in<<": division by zero did not throw");
    }
    long long k = r.range(-9,9);
    if (fits(x.d*k,1)) {
      VM_CHECK(eq(X*k,x*Q(k)) && eq(k*X,x*Q(k)),"rational.mixed",in<<" k="<<k<<": product with an integer is "<<rs(X*k));
      VM_CHECK(eq(X+k,x+Q(k)) && eq(k-X,Q(k)-x),"rational.mixed",in<<" k="<<k<<": sum with an integer is "<<rs(X+k)<<", difference "<<rs(k-X));
      if (x.n!=0) VM_CHECK(eq(k/X,Q(k)/x),"rational.mixed",in<<" k="<<k<<": k/x is "<<rs(k/X)<<" not "<<(Q(k)/x).str());
    }
    vm::count("rational_ops",9);
    if (b!=1 || a<0) vm::nontrivial(in);
    if (b<0) vm::count("negative_denominators");
    vm::sample(in);
  });
  vm::sub("rational_zero_denominator",vm::ncases(200,2000),[&](vm::Rng& r, long long) {
    long long a=rnd_int(r,true);
    VM_CHECK(vm::throws([&]{ RC x(a,0LL); }),"rational.den0","RationalConstant("<<a<<",0) did not throw");
  });
  vm::sub("rational_pow",vm::ncases(20000,500000),[&](vm::Rng& r, long long) {
    long long a = r.chance(0.1) ? rnd_int(r,true) : r.range(-12,12), b = r.chance(0.5) ? 1 : r.range(1,12)*(r.chance(0.3)?-1:1);
    int p = (int)r.range(-12,12);
    if (r.chance(0.1)) p = (int)r.range(-1,1);
    if (r.chance(0.05)) { a = r.chance(0.5) ? (1LL<<32) : 4000000007LL; b = 1; p = 1; }
    Q x(a,b); RC X(a,b);
    auto in = "pow("+x.str()+","+std::to_string(p)+")";
    if (x.n==0) {
      if (p>0) VM_CHECK(eq(pow(X,p),Q(0)),"rational.pow0",in<<" is not 0");
      else VM_CHECK(vm::throws([&]{ pow(X,p); }),"rational.pow00",in<<" did not throw");
      return;
    }
    double lg = std::fabs((double)p)*std::max(std::log2(std::fabs((double)x.n)),std::log2((double)x.d));
    if (lg>61) return;
    Q e = qpow(x,p);
    RC R = pow(X,p);
    VM_CHECK(eq(R,e),"rational.pow",in<<" is "<<rs(R)<<" not "<<e.str());
    // The laws, among themselves
    int q = (int)r.range(-3,3);
    double lq = std::fabs((double)q)*std::max(std::log2(std::fabs((double)x.n)),std::log2((double)x.d));
    if (lg+lq<60) VM_CHECK(pow(X,p)*pow(X,q)==pow(X,p+q),"rational.powlaw",in<<": x^p*x^q != x^(p+q), q="<<q);
    if (p!=0 && p!=1) vm::nontrivial(in);
    vm::count("pow_evaluations");
    if (p<0 && x.n<0) vm::count("negative_base_negative_exponent");
    vm::sample(in+"="+rs(R));
  });
}

static void scaling_ops () {
  auto rnd = [](vm::Rng& r, Q& b, Q& e) {
    b = Q(r.range(1,12),r.chance(0.4)?r.range(1,12):1);
    e = r.chance(0.5) ? Q(r.range(-2,2)) : Q(r.range(-2,2),r.range(1,3));
  };
  auto mk = [](Q b, Q e) { return ScalingFactor(RC((long long)b.n,(long long)b.d),RC((long long)e.n,(long long)e.d)); };
  auto ok = [](const Scale& s) { return sc_log2(s)<=12 && sc_lden(s)<=3; };
  vm::sub("scaling_arithmetic",vm::ncases(30000,800000),[&](vm::Rng& r, long long) {
    Q b1,e1,b2,e2; rnd(r,b1,e1); rnd(r,b2,e2);
    if (r.chance(0.3)) {   // the same number in another form: (b^k)^(e/k)
      int k = (int)r.range(2,3); b2 = qpow(b1,k); e2 = e1/Q(k);
      if (r.chance(0.5)) { b2 = Q(1)/b2; e2 = Q(0)-e2; }
    } else if (r.chance(0.2)) b2=b1; else if (r.chance(0.2)) e2=e1;
    Scale s1=sc_q(b1,e1), s2=sc_q(b2,e2);
    // bound b^(num*other den) so that no intermediate leaves 64 bits
    auto lg = [](Q b, Q e, Q f) { return std::log2((double)std::max(b.n,b.d))*std::fabs((double)e.n)*(double)f.d; };
    if (lg(b1,e1,e2)>14 || lg(b2,e2,e1)>14) return;
    ScalingFactor x=mk(b1,e1), y=mk(b2,e2);
    auto in = "x="+b1.str()+"^("+e1.str()+") y="+b2.str()+"^("+e2.str()+")";
    bool same = s1==s2;
    VM_CHECK((x==y)==same,"scaling.eq",in<<": == gives "<<(x==y)<<", exactly it is "<<same);
    VM_CHECK((x!=y)==!same,"scaling.ne",in);
    if (same) vm::count("equal_pairs_in_different_form"); else vm::count("unequal_pairs");
    // value of a result, read off its public base and exponent
    auto val = [](const ScalingFactor& s) { return sc_q(Q(s.base.num,s.base.den),Q(s.exp.num,s.exp.den)); };
    auto p = x*y, q = x/y;
    VM_CHECK(p.base.num>0 && val(p)==s1*s2,"scaling.mul",in<<": x*y is "<<p<<" not "<<(s1*s2).str());
    VM_CHECK(q.base.num>0 && val(q)==s1/s2,"scaling.div",in<<": x/y is "<<q<<" not "<<(s1/s2).str());
    auto z = x; z *= y;
    VM_CHECK(val(z)==s1*s2,"scaling.mulassign",in<<": x*=y is "<<z<<" not "<<(s1*s2).str());
    VM_CHECK(val(sqrt(x))==sc_pow(s1,Q(1,2)),"scaling.sqrt",in<<": sqrt(x) is "<<sqrt(x));
    int k=(int)r.range(-3,3);
    VM_CHECK(val(pow(x,k))==sc_pow(s1,Q(k)),"scaling.pow",in<<": x^"<<k<<" is "<<pow(x,k));
    long long kn=r.range(-3,3), kd=r.range(1,3);
    VM_CHECK(val(pow(x,RC(kn,kd)))==sc_pow(s1,Q(kn,kd)),"scaling.powrat",in<<": x^("<<kn<<"/"<<kd<<") is "<<pow(x,RC(kn,kd)));
    if (e1.d==1 && ok(s1)) {
      RC c((long long)b2.n,(long long)b2.d); Scale sc=sc_q(b2);
      VM_CHECK(val(c*x)==sc*s1 && val(x*c)==sc*s1,"scaling.mulrat",in<<": c*x is "<<c*x);
      VM_CHECK(val(c/x)==sc/s1 && val(x/c)==s1/sc,"scaling.divrat",in<<": c/x is "<<c/x<<", x/c is "<<x/c);
      VM_CHECK((x==c)==(s1==sc) && (c==x)==(s1==sc),"scaling.eqrat",in<<": comparison with a rational");
    }
    vm::count("scaling_ops",8);
    if (e1!=Q(1)||e2!=Q(1)) vm::nontrivial(in);
    vm::sample(in+" x*y="+p.to_string());
  });
  vm::sub("scaling_zero_and_errors",1,[&](vm::Rng&, long long) {
    VM_CHECK(vm::throws([]{ ScalingFactor s(RC(0),RC(0)); }),"scaling.00","0^0 accepted");
    VM_CHECK(vm::throws([]{ ScalingFactor s(RC(-2),RC(1,2)); }),"scaling.negroot","even root of a negative number accepted");
    VM_CHECK(vm::throws([]{ ScalingFactor s = ScalingFactor(3)/ScalingFactor(0); }),"scaling.div0","division by zero accepted");
    VM_CHECK(ScalingFactor::zero()==RC(0),"scaling.zero","zero()!=0");
    VM_CHECK(ScalingFactor::zero()!=ScalingFactor::one(),"scaling.zero","zero()==one()");
    VM_CHECK(ScalingFactor(5,0)==ScalingFactor::one(),"scaling.x0","5^0 != 1");
  });
}

static void unit_ops () {
  auto obs = [](const units::Units& u, const U& o, const std::string& how) {
    // The value of a unit is observed by comparing it with one assembled from its exact value
    std::vector<RC> e; for (auto& q : o.e) e.push_back(RC((long long)q.n,(long long)q.d));
    ScalingFactor sc = ScalingFactor::one();
    i128 L = sc_lden(o.sc); Q b(1);
    for (auto& it : o.sc.f) b = b*qpow(Q(it.first),(int)(it.second*Q(L)).n);
    sc = ScalingFactor(RC((long long)b.n,(long long)b.d),RC(1LL,(long long)L));
    units::Units ref(e[0],e[1],e[2],e[3],e[4],e[5],e[6],sc,"ref");
    VM_CHECK(u==ref && ref==u && !(u!=ref),"units.value",how<<" is "<<u.get_si_string()<<", exactly it is "<<o.str());
    bool dimless = true; for (auto& q : o.e) if (q!=Q(0)) dimless=false;
    VM_CHECK(u.is_dimensionless()==dimless,"units.dimensionless",how<<": is_dimensionless is "<<u.is_dimensionless());
    VM_CHECK(u.is_scaled()==!o.sc.f.empty(),"units.scaled",how<<": is_scaled is "<<u.is_scaled());
    // and must differ from units that differ in one exponent, or in the scale, only
    for (int i=0;i<7;++i) {
      auto e2=e; e2[i]=e2[i]+RC(1,2);
      units::Units off(e2[0],e2[1],e2[2],e2[3],e2[4],e2[5],e2[6],sc,"off");
      VM_CHECK(u!=off && !(u==off),"units.distinguish",how<<": equals a unit with another exponent "<<i);
    }
    units::Units off(e[0],e[1],e[2],e[3],e[4],e[5],e[6],sc*ScalingFactor(2,RC(1LL,(long long)L)),"off");
    VM_CHECK(u!=off,"units.distinguish",how<<": equals a unit with another scale");
    vm::count("unit_comparisons",10);
  };
  vm::sub("named_units",named_units().size(),[&](vm::Rng&, long long i) {
    auto& x = named_units()[i];
    double l = sc_log2(x.o.sc);
    if (l>26) return;
    obs(x.u,x.o,x.name);
    VM_CHECK(x.u.to_string()==x.name,"units.name",x.name<<" prints as "<<x.u.to_string());
    vm::nontrivial(x.name);
  });
  vm::sub("prefixed_units",named_units().size()*8,[&](vm::Rng&, long long i) {
    auto& x = named_units()[i/8]; auto& p = all_prefixes()[i%8];
    if (sc_log2(x.o.sc)+sc_log2(p.o)>55) return;
    U o=x.o; o.sc=x.o.sc*p.o;
    obs(p.s*x.u,o,std::string(p.name)+"."+x.name); obs(x.u*p.s,o,std::string(x.name)+"."+p.name);
    vm::nontrivial(std::string(p.name)+x.name);
  });
  vm::sub("unit_expressions",vm::ncases(15000,400000),[&](vm::Rng& r, long long) {
    auto c = random_unit(r,(int)r.range(1,3));
    if (getenv("VM_DEBUG")) fprintf(stderr,"%s  rep %g %g %g\n",c.how.c_str(),c.rep.lg,c.rep.num,c.rep.den);
    obs(c.u,c.o,c.how);
    vm::nontrivial(c.how); vm::sample(c.how+" = "+c.o.str());
    vm::count(sc_lden(c.o.sc)>1 ? "units_with_irrational_scale" : "units_with_rational_scale");
    // laws
    auto d = random_unit(r,1), e = random_unit(r,1);
    if (!rep_ok(rep_mul(rep_mul(c.rep,d.rep),rep_mul(d.rep,e.rep)))) return;
    auto how = "a="+c.how+" b="+d.how+" c="+e.how;
    VM_CHECK(c.u*d.u==d.u*c.u,"units.commute",how);
    VM_CHECK((c.u*d.u)*e.u==c.u*(d.u*e.u),"units.assoc",how);
    VM_CHECK((c.u/d.u)*d.u==c.u,"units.inverse",how<<": (a/b)*b != a");
    VM_CHECK(c.u/c.u==units::none,"units.inverse",how<<": a/a != 1");
    VM_CHECK((c.u==d.u)==(c.o==d.o),"units.eq",how<<": a==b is "<<(c.u==d.u));
    auto rn = c.u.rename("xyz");
    VM_CHECK(rn==c.u && rn.to_string()=="xyz","units.rename",how<<": renaming changed the value or did not set the name");
    vm::count("unit_law_checks",6);
  });
  vm::sub("unit_invalid",named_units().size(),[&](vm::Rng&, long long i) {
    auto& x = named_units()[i];
    VM_CHECK(units::Units::invalid()!=x.u,"units.invalid","the invalid unit equals "<<x.name);
    VM_CHECK(units::Units::invalid()==units::Units::invalid(),"units.invalid","the invalid unit differs from itself");
  });
}

int main (int argc, char** argv) {
  vm::init(argc,argv);
  rational_ops();
  scaling_ops();
  unit_ops();
  return vm::finish();
}
