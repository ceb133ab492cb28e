// C28: an expression of arrays evaluates, entry by entry, to the same expression of plain numbers
#include "c28_expr.hpp"
using namespace ekat;
template<typename D> auto twice_plus_one (const ExpressionBase<D>& e) { return 2*e+1; }
int main (int argc, char** argv) {
  vm::init(argc,argv); KokkosMain km;
  vm::sub("trees a",vm::ncases(60,1500),[](Rng& r, long long) { ex::many<11>(r,std::make_integer_sequence<int,14>{}); });
  part_b(); part_c(); part_d();
  vm::sub("generic",vm::ncases(200,2000),[](Rng& r, long long) {   // functions written for any expression
    const int n=(int)r.range(1,30); KT::view_1d<double> x("x",n), z("z",n); for (int i=0;i<n;++i) x(i)=r.real(-5,5); auto e=expression(x);
    evaluate(twice_plus_one(e),z); bool ok=true; for (int i=0;i<n;++i) ok=ok && z(i)==2*x(i)+1; VM_CHECK(ok,"expression.base","2*e+1 through the base class is wrong");
    evaluate(twice_plus_one(e*e-max(e,0.5)),z); ok=true; for (int i=0;i<n;++i) ok=ok && z(i)==2*(x(i)*x(i)-std::max(x(i),0.5))+1; VM_CHECK(ok,"expression.base","2*e+1 through the base class is wrong for a compound expression");
    for (int i=0;i<n;++i) VM_CHECK(e.as_base().eval(i)==x(i) && &e.eval(i)==&x(i),"expression.view","the entry " << i << " of the expression of a view is not the view's");
    vm::count("generic_functions");
  });
  return vm::finish();
}
