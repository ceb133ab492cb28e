#include "c15_arith.hpp"
void arith_b (Rng& r, int k) { switch (k) { case 0: arith<int,8>(r); break; case 1: arith<long,4>(r); break; default: arith<float,2>(r); } }
