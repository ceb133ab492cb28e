#include "c15_arith.hpp"
void arith_a (Rng& r, int k) { switch (k) { case 0: arith<double,1>(r); break; case 1: arith<double,8>(r); break; default: arith<float,16>(r); } }
