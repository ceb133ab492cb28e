#include "c28_expr.hpp"
void part_c () { vm::sub("trees c",vm::ncases(60,1500),[](Rng& r, long long) { ex::many<900001>(r,std::make_integer_sequence<int,14>{}); }); }
