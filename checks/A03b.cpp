// A03, integer operand pairs
#define VF_PART
#include "A03.hpp"
void a03_binary_int(){ bool t=vf::thorough(); std::vector<int> i3{-1,0,2}, i2{-1,2};
  std::vector<V> S{{1,1},{1,2},{2,1},{2,2}}; 
  for (auto& a: S) for (auto& b: S) { bool big=prod(a)+prod(b)>4; all_binary<int,int>("ii",a,b,(big&&!t)?i2:i3,(big&&!t)?i2:i3); }
  for (auto& a: std::vector<V>{{3,2},{3,1},{2,3},{1,3}}) for (auto& b: std::vector<V>{{3,2},{3,1},{1,2},{2,3},{1,3}}) if (t || prod(a)+prod(b)<8) all_binary<int,int>("ii",a,b,i2,i2); }
