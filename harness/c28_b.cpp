#include "c28_expr.hpp"
void part_b () { vm::sub("trees b",vm::ncases(60,1500),[](Rng& r, long long) { ex::many<70013>(r,std::make_integer_sequence<int,14>{}); }); }
