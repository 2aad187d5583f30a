// A03, operations on one operand
#include "A03.hpp"
void a03_binary_int(); void a03_binary_dbl(); void a03_nd();
void vf_explore(){ bool t=vf::thorough();
  std::vector<int> i3{-1,0,2}, i2{-1,2}; std::vector<double> d3{-1.5,0,2}, d2{0.5,2}; 
  for (V sh: {V{0,2},V{2,0},V{1,1},V{1,2},V{2,1},V{2,2},V{1,3},V{3,1},V{2,3},V{3,2},V{1,4},V{4,1}}) { bool big=prod(sh)>4;
    all_unary<Array2<int>>("int",sh, (big&&!t)? i2:i3); all_unary<Array2<double>>("double",sh, (big&&!t)? d2:d3); }
  if (t) all_unary<Array2<int>>("int",V{3,3},i2);
  a03_nd(); a03_binary_int(); a03_binary_dbl(); }
