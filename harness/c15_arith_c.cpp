#include "c15_arith.hpp"
void arith_c (Rng& r, int k) { switch (k) { case 0: arith<double,4>(r); break; case 1: arith<double,16>(r); break; default: arith<int,1>(r); } }
