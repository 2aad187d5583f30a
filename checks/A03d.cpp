// A03, N-dimensional arrays
#define VF_PART
#include "A03.hpp"
void a03_nd(){ bool t=vf::thorough(); std::vector<int> i3{-1,0,2}, i2{-1,2}; std::vector<double> d3{-1.5,0,2}, d2{0.5,2};
  for (V sh: {V{3},V{2,2},V{2,1,2},V{1,2,2},V{2,2,1},V{2,2,2},V{2,1,2,1}}) { bool big=prod(sh)>4; all_unary<Array<int>>("nd-int",sh,big?i2:i3); all_unary<Array<double>>("nd-double",sh,(big||!t)?d2:d3); }
  for (auto& a: std::vector<V>{{2,2,2},{2,1,2},{3,2}}) for (auto& b: std::vector<V>{{2,2,2},{1,2,2},{2,1,2},{1,1,2},{1,1,1},{2,2,1},{3,2},{1,2},{3,1}}) if (a.size()==b.size()) nd_inplace<Array<int>>("nd-int",a,b,(t&&prod(b)<6)?i3:i2); }
