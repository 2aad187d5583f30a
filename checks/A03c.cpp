// A03, operand pairs with floating point
#define VF_PART
#include "A03.hpp"
void a03_binary_dbl(){ bool t=vf::thorough(); std::vector<int> i3{-1,0,2}, i2{-1,2}; std::vector<double> d3{-1.5,0,2}, d2{0.5,2};
  std::vector<V> S{{1,1},{1,2},{2,1},{2,2}}; 
  for (auto& a: S) for (auto& b: S) { if (!t && prod(a)+prod(b)>6) continue; all_binary<int,double>("id",a,b,i2,prod(b)>2?d2:d3); all_binary<double,double>("dd",a,b,d2,prod(b)>2?d2:d3); } }
