From e347c38f18f2d9475f7ab7dfc7cc59b2dc1efc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:52 +0000
Subject: [PATCH 01/87] fix: iterating the subscripts of an empty array, or
 broadcasting with one, visits nothing

---
 src/subscript.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/subscript.hpp b/src/subscript.hpp
index af72b86..0b74928 100644
--- a/src/subscript.hpp
+++ b/src/subscript.hpp
@@ -182,6 +182,8 @@ public:
   }
   SubIt<T> end() const {
     size_t n = this->ndim();
+    // an array without elements has no subscripts to visit
+    if (std::find(_shape.begin(), _shape.end(), T(0)) != _shape.end()) return this->begin();
     holder val(n, T(0));
     for (size_t i=0; i<n; ++i) if (_fixed[i]) val[i] = _sub[i];
     if (_first < n) val[_first] = _shape[_first];
@@ -290,6 +292,8 @@ public:
     return SubIt2<T>(_shape, _inpt, std::move(sub), _fixed);
   }
   SubIt2<T> end() const {
+    // an array without elements has no subscripts to visit
+    if (_shape[0] == T(0) || _shape[1] == T(0)) return this->begin();
     holder val({T(0), T(0)});
     if (_fixed[0]) val[0] = _sub[0];
     if (_fixed[1]) val[1] = _sub[1];
@@ -355,7 +359,7 @@ public:
         msg += "} to a common shape";
         throw std::runtime_error(msg);
       } else {
-        _shapeO[i] = _shape0[i] < _shape1[i] ? _shape1[i] : _shape0[i];
+        _shapeO[i] = _shape0[i] == 1 ? _shape1[i] : _shape0[i];
       }
   }
   BroadcastIt(const holder& s0, const holder& s1, const holder & sO, const holder& i0, const holder& i1, const holder& iO)
@@ -409,6 +413,8 @@ public:
     return {_shape0, _shape1, _shapeO, std::move(s0), std::move(s1), std::move(sO)};
   }
   BroadcastIt<T> end() const {
+    // no broadcast elements means nothing to visit
+    if (std::find(_shapeO.begin(), _shapeO.end(), T(0)) != _shapeO.end()) return this->begin();
     size_t n = this->ndim();
     holder s0(n,0), s1(n,0), sO(n,0);
     sO[0] = _shapeO[0];
@@ -474,7 +480,7 @@ public:
         msg += "} to a common shape";
         throw std::runtime_error(msg);
       } else {
-        _shapeO[i] = _shape0[i] < _shape1[i] ? _shape1[i] : _shape0[i];
+        _shapeO[i] = _shape0[i] == 1 ? _shape1[i] : _shape0[i];
       }
   }
   BroadcastIt2(const holder& s0, const holder& s1, const holder & sO, const holder& i0, const holder& i1, const holder& iO)
@@ -519,6 +525,8 @@ public:
     return {_shape0, _shape1, _shapeO, std::move(s0), std::move(s1), std::move(sO)};
   }
   BroadcastIt2<T> end() const {
+    // no broadcast elements means nothing to visit
+    if (_shapeO[0] == T(0) || _shapeO[1] == T(0)) return this->begin();
     holder s0({0,0}), s1({0,0}), sO({0,0});
     sO[0] = _shapeO[0];
     if (_shape0[0] > 1) s0[0] = sO[0]; // not used in ==
-- 
2.43.0


From 35ad818c8667b58d8b929c94e08ec7996570b261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:52 +0000
Subject: [PATCH 02/87] fix: lin2sub for column-ordered strides includes the
 last dimension

---
 src/subscript.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subscript.hpp b/src/subscript.hpp
index 0b74928..7f7cf41 100644
--- a/src/subscript.hpp
+++ b/src/subscript.hpp
@@ -554,7 +554,7 @@ std::vector<I> lin2sub(I l, const std::vector<I>& stride){
   else if (1 < ndim) {
     sub.resize(ndim);
     if (stride[ndim-1] > stride[0])
-    for (I i=ndim-1; i--; ){
+    for (I i=static_cast<I>(ndim); i--; ){
       sub[i] = l/stride[i];
       l -= sub[i]*stride[i];
     }
-- 
2.43.0


From db708766bc56fb3722130607be99b746dd805479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:13 +0000
Subject: [PATCH 03/87] fix: linear indices of strided and column-ordered
 arrays address the array's own elements

---
 src/array.hpp  | 9 ++++++++-
 src/array2.hpp | 4 +++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/array.hpp b/src/array.hpp
index f67eae3..73ae199 100644
--- a/src/array.hpp
+++ b/src/array.hpp
@@ -340,7 +340,14 @@ protected: // so inherited classes can calculate subscript indexes into their da
   //   return offset_sub2lin(_offset, s, _stride);
   // }
   ind_t l2l_d(const ind_t l) const {
-    return l + _shift;
+    // the linear index counts the elements of *this* array in row order
+    ind_t rem{l}, out{_shift};
+    for (size_t i=_shape.size(); i-- > 1u;){
+      if (0u == _shape[i]) return l + _shift;
+      out += (rem % _shape[i]) * _stride[i];
+      rem /= _shape[i];
+    }
+    return _stride.empty() ? l + _shift : out + rem * _stride[0];
   }
   ind_t s2l_d(const shape_t& s) const {
     return sub2lin(s, _stride) + _shift;
diff --git a/src/array2.hpp b/src/array2.hpp
index 7e2abcf..fe6ae65 100644
--- a/src/array2.hpp
+++ b/src/array2.hpp
@@ -309,7 +309,9 @@ public:
   const T& operator[](const shape_t& sub) const {return _data[this->s2l_d(sub)];}
 protected: // so inherited classes can calculate subscript indexes into their data
   [[nodiscard]] ind_t l2l_d(const ind_t l) const {
-    return l + _shift;
+    // the linear index counts the elements of *this* array in row order
+    if (0u == _shape[1] || (1u == _stride[1] && _shape[1] == _stride[0])) return l + _shift;
+    return this->ij2l_d(l / _shape[1], l % _shape[1]);
   }
   [[nodiscard]] ind_t ij2l_d(const ind_t x, const ind_t y) const {
     return sub2lin(x, y, _stride) + _shift;
-- 
2.43.0


From 5f4191985ace534a5420d5252c31a329dca6b433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:21 +0000
Subject: [PATCH 04/87] fix: results computed from strided views are stored in
 compact arrays

---
 src/array.tpp  | 38 +++++++++-----------------------------
 src/array2.tpp | 10 +++++-----
 2 files changed, 14 insertions(+), 34 deletions(-)

diff --git a/src/array.tpp b/src/array.tpp
index 0cdc9b8..39999d3 100644
--- a/src/array.tpp
+++ b/src/array.tpp
@@ -503,7 +503,7 @@ Array<T>::last(const T val, const ind_t n) const{
 #define ARRAY_ELEMENTWISE_INT_TRANSFORM(X) template<class T>\
 Array<int>\
 Array<T>:: X () const {\
-  Array<int> out(_shape, _stride);\
+  Array<int> out(_shape, this->calculate_stride(_shape));\
   for (auto x: SubIt(out.shape()))\
     out[x] = static_cast<int>(std:: X (_data[this->s2l_d(x)]));\
   return out;\
@@ -518,14 +518,9 @@ Array<T>
 Array<T>::sum(const ind_t dim) const{
   size_t ndim = _shape.size();
   assert(dim < ndim);
-  shape_t ostride = this->stride();
   shape_t osize = this->shape();
   osize[dim] = 1u;
-  if (this->is_row_ordered()){
-    for (ind_t i=0; i<dim; ++i) ostride[i] /= _shape[dim];
-  } else {
-    for (ind_t i=dim+1; i<ndim; ++i) ostride[i] /= _shape[dim];
-  }
+  shape_t ostride = this->calculate_stride(osize);
   Array<T> out(osize, ostride);
   for (auto oidx: SubIt<ind_t>(osize)) {
     T tmp{0};
@@ -544,14 +539,9 @@ Array<T>
 Array<T>::prod(const ind_t dim) const{
   size_t ndim = _shape.size();
   assert(dim < ndim);
-  shape_t ostride = this->stride();
   shape_t osize = this->shape();
   osize[dim] = 1u;
-  if (this->is_row_ordered()){
-    for (ind_t i=0; i<dim; ++i) ostride[i] /= _shape[dim];
-  } else {
-    for (ind_t i=dim+1; i<ndim; ++i) ostride[i] /= _shape[dim];
-  }
+  shape_t ostride = this->calculate_stride(osize);
   Array<T> out(osize, ostride);
   for (auto oidx: SubIt<ind_t>(osize)) {
     T tmp{1};
@@ -570,14 +560,9 @@ Array<T>
 Array<T>::min(const ind_t dim) const{
   size_t ndim = _shape.size();
   assert(dim < ndim);
-  shape_t ostride = this->stride();
   shape_t osize = this->shape();
   osize[dim] = 1u;
-  if (this->is_row_ordered()){
-    for (ind_t i=0; i<dim; ++i) ostride[i] /= _shape[dim];
-  } else {
-    for (ind_t i=dim+1; i<ndim; ++i) ostride[i] /= _shape[dim];
-  }
+  shape_t ostride = this->calculate_stride(osize);
   Array<T> out(osize, ostride);
   for (auto oidx: SubIt<ind_t>(osize)) {
     T tmp{(std::numeric_limits<T>::max)()};
@@ -597,14 +582,9 @@ Array<T>
 Array<T>::max(const ind_t dim) const{
   size_t ndim = _shape.size();
   assert(dim < ndim);
-  shape_t ostride = this->stride();
   shape_t osize = this->shape();
   osize[dim] = 1u;
-  if (this->is_row_ordered()){
-    for (ind_t i=0; i<dim; ++i) ostride[i] /= _shape[dim];
-  } else {
-    for (ind_t i=dim+1; i<ndim; ++i) ostride[i] /= _shape[dim];
-  }
+  shape_t ostride = this->calculate_stride(osize);
   // the stride along any dimension can not be zero. protect against it:
   for (ind_t i=0; i<ndim; ++i) if (ostride[i] < 1u) ostride[i] = 1u;
 
@@ -734,7 +714,7 @@ Array<T>::count(const brille::cmp expr, const T val) const {
 template<class T>
 Array<bool>
 Array<T>::is(const brille::cmp expr, const T val) const {
-  Array<bool> out(_shape, _stride, true);
+  Array<bool> out(_shape, this->calculate_stride(_shape), true);
   ind_t no = this->numel();
   brille::Comparer<T,T> op(expr);
   for (ind_t k=0; k<no; ++k) out[k] = op(_data[this->l2l_d(k)], val);
@@ -765,7 +745,7 @@ Array<T>::is(const brille::cmp expr, const Array<R>& that) const {
     msg += ").";
     throw std::runtime_error(msg);
   }
-  Array<bool> out(_shape, _stride, true);
+  Array<bool> out(_shape, this->calculate_stride(_shape), true);
   size_t ndim = _shape.size();
   if (std::equal(_shape.begin(), _shape.end(), tsize.begin())){
     // No broadcast
@@ -847,7 +827,7 @@ Array<T>::unique() const {
   size_t u_count = std::count(isu.begin(), isu.end(), true);
   shape_t osize{_shape};
   osize[0] = static_cast<ind_t>(u_count);
-  Array<T> out(osize, _stride);
+  Array<T> out(osize, this->calculate_stride(osize));
   for (ind_t i=0,u=0; i<_shape[0]; ++i) if (isu[i]) out.set(u++, this->view(i));
   return out;
 }
@@ -877,7 +857,7 @@ T Array<T>::norm(ind_t i) const {
 template<class T>
 Array<T>
 Array<T>::operator-() const{
-  Array<T> neg(_shape, _stride);
+  Array<T> neg(_shape, this->calculate_stride(_shape));
   for (auto s: SubIt(_shape)) neg[s] = -_data[this->s2l_d(s)];
   return neg;
 }
diff --git a/src/array2.tpp b/src/array2.tpp
index 5b2bf32..0717b35 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -497,7 +497,7 @@ Array2<T>::last(const T val, const ind_t n) const{
 #define ARRAY_ELEMENTWISE_INT_TRANSFORM(X) template<class T>\
 Array2<int>\
 Array2<T>:: X () const {\
-  Array2<int> out(_shape, _stride);\
+  Array2<int> out(_shape, this->calculate_stride(_shape));\
   for (auto x: out.subItr())\
     out[x] = static_cast<int>(std:: X (_data[this->s2l_d(x)]));\
   return out;\
@@ -703,7 +703,7 @@ Array2<T>::count(const brille::cmp expr, const T val, const T Ttol, const int to
 template<class T>
 Array2<bool>
 Array2<T>::is(const brille::cmp expr, const T val, const T Ttol, const int tol) const {
-  Array2<bool> out(_shape, _stride, true);
+  Array2<bool> out(_shape, this->calculate_stride(_shape), true);
   ind_t no = this->numel();
   brille::Comparer<T,T> op(expr, Ttol, Ttol, tol);
   for (ind_t k=0; k<no; ++k) out[k] = op(_data[this->l2l_d(k)], val);
@@ -735,7 +735,7 @@ Array2<T>::is(const brille::cmp expr, const Array2<R>& that, const T Ttol, const
     msg += ").";
     throw std::runtime_error(msg);
   }
-  Array2<bool> out(_shape, _stride, true);
+  Array2<bool> out(_shape, this->calculate_stride(_shape), true);
   if (std::equal(_shape.begin(), _shape.end(), tsize.begin())){
     // No broadcast
     brille::Comparer<T,R> op(expr, Ttol, Rtol, tol);
@@ -984,7 +984,7 @@ Array2<T>::unique(const T Ttol, const int tol) const {
   size_t u_count = std::count(isu.begin(), isu.end(), true);
   shape_t osize{_shape};
   osize[0] = static_cast<ind_t>(u_count);
-  Array2<T> out(osize, _stride);
+  Array2<T> out(osize, this->calculate_stride(osize));
   for (ind_t i=0,u=0; i<_shape[0]; ++i) if (isu[i]) out.set(u++, this->view(i));
   return out;
 }
@@ -1009,7 +1009,7 @@ T Array2<T>::norm(ind_t i) const {
 template<class T>
 Array2<T>
 Array2<T>::operator-() const{
-  Array2<T> neg(_shape, _stride);
+  Array2<T> neg(_shape, this->calculate_stride(_shape));
   for (auto s: this->subItr()) neg[s] = -_data[this->s2l_d(s)];
   return neg;
 }
-- 
2.43.0


From b4fe395dfde734c791ad1c58d84bb3dda6ad9560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:59 +0000
Subject: [PATCH 05/87] fix: a row-ordered copy of a column-ordered array is
 row-ordered

---
 src/array2.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array2.tpp b/src/array2.tpp
index 0717b35..d92383c 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -1240,7 +1240,7 @@ Array2<T> Array2<T>::contiguous_copy() const {
 template<class T>
 Array2<T> Array2<T>::contiguous_row_ordered_copy() const {
   if (this->is_row_ordered() && this->is_contiguous()) return Array2<T>(*this);
-  Array2<T> out(_shape, this->calculate_stride(_shape));
+  Array2<T> out(_shape); // always row-ordered
   for (auto x : this->subItr()) out[x] = (*this)[x];
   return out;
 }
-- 
2.43.0


From 808dc2bb521b689010e344a0a55292e09ccdb17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:59 +0000
Subject: [PATCH 06/87] fix: decoupling a strided N-dimensional view stays
 inside the new allocation

---
 src/array.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/array.hpp b/src/array.hpp
index 73ae199..eacf5b0 100644
--- a/src/array.hpp
+++ b/src/array.hpp
@@ -421,17 +421,19 @@ private:
   Array<T> _decouple() const {
     ind_t nnum = this->size_from_shape(_shape);
     T* new_data = new T[nnum]();
-    if (nnum == _num) {
+    shape_t new_st{_stride};
+    if (this->is_contiguous() && nnum == _num) {
       std::copy(_data, _data+_num, new_data);
     } else {
-      //subscript conversion necessary due to offset
-      //                                   vvv(no offset)vvvv          vvv(offset)vvv
-      for (auto x: SubIt(_shape)) new_data[sub2lin(x,_stride)] = _data[this->s2l_d(x)];
+      //subscript conversion necessary due to offset or strided array
+      new_st = this->calculate_stride(_shape);
+      //                                   vvv(no offset)vvv          vvv(offset)vvv
+      for (auto x: SubIt(_shape)) new_data[sub2lin(x,new_st)] = _data[this->s2l_d(x)];
     }
     bool new_own = true; // always take ownership of C++ allocated memory
     auto new_ref = std::make_shared<char>(); // always use the default with C++ created arrays
     bool new_mut = true; // new allocated memory should be mutable
-    return Array<T>(new_data, nnum, new_own, new_ref, _shape, _stride, new_mut);
+    return Array<T>(new_data, nnum, new_own, new_ref, _shape, new_st, new_mut);
   }
 public:
   // sub-array access
-- 
2.43.0


From ee0fd1089fd2f6321753202824115946941b8797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:59 +0000
Subject: [PATCH 07/87] fix: N-dimensional sum, prod and multi-index extract
 visit the elements

---
 src/array.tpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/array.tpp b/src/array.tpp
index 39999d3..edc1917 100644
--- a/src/array.tpp
+++ b/src/array.tpp
@@ -120,18 +120,19 @@ Array<T>::extract(const std::vector<std::array<I,Nel>>& i) const
   for (ind_t j=1; j<this->ndim(); ++j)
     osh.push_back(_shape[j]);
   Array<T> out(osh);
-  shape_t xi{_shape};
+  shape_t one{_shape};
+  one[0] = 1u;
   for (ind_t a=0; a<i.size(); ++a)
   {
     osh[0] = a;
     for (ind_t b=0; b<Nel; ++b)
     {
       osh[1] = b;
-      xi[0] = static_cast<ind_t>(i[a][b]);
-      for (auto sub: SubIt(_shape, xi))
+      for (auto sub: SubIt(one))
       {
-        for (ind_t j=0; j<_shape.size(); ++j) osh[j+1]=sub[j];
-        out[sub] = _data[this->s2l_d(xi)];
+        sub[0] = static_cast<ind_t>(i[a][b]);
+        for (ind_t j=1; j<_shape.size(); ++j) osh[j+1]=sub[j];
+        out[osh] = _data[this->s2l_d(sub)];
       }
     }
   }
@@ -605,14 +606,14 @@ Array<T>::max(const ind_t dim) const{
 template<class T>
 T Array<T>::sum() const{
   T out{0};
-  for (auto x : _shape) out += _data[this->s2l_d(x)];
+  for (auto x : SubIt<ind_t>(_shape)) out += _data[this->s2l_d(x)];
   return out;
 }
 
 template<class T>
 T Array<T>::prod() const{
   T out{1};
-  for (auto x : _shape) out *= _data[this->s2l_d(x)];
+  for (auto x : SubIt<ind_t>(_shape)) out *= _data[this->s2l_d(x)];
   return out;
 }
 
-- 
2.43.0


From afa75232945922bf045874b911048890465befac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:59 +0000
Subject: [PATCH 08/87] fix: N-dimensional match compares the viewed row

---
 src/array.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/array.tpp b/src/array.tpp
index edc1917..4706bf2 100644
--- a/src/array.tpp
+++ b/src/array.tpp
@@ -632,7 +632,7 @@ bool Array<T>::match(const ind_t i, const ind_t j, const std::array<R,Nel>& rot,
     int o{0};
     do{
       //check against the current tmp vector whether this order rotation has moved j to i
-      if (eq(n, ai.data(), tmp.data())) return true;
+      if (eq(n, ai.ptr(), _stride[1], tmp.data(), 1u)) return true;
       // otherwise apply the rotation (again)
       brille::utils::mul_mat_vec_inplace(n, rot.data(), tmp.data());
     } while (o++ < std::abs(order));
@@ -641,7 +641,7 @@ bool Array<T>::match(const ind_t i, const ind_t j, const std::array<R,Nel>& rot,
     // rotate exactly order times
     for (int o=0; o<order; ++o)
       brille::utils::mul_mat_vec_inplace(n, rot.data(), tmp.data());
-    return eq(n, ai.data(), tmp.data());
+    return eq(n, ai.ptr(), _stride[1], tmp.data(), 1u);
   }
 }
 
-- 
2.43.0


From 10d00b112a8b5c2a9307c2cd1d1bac550bba93a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:59 +0000
Subject: [PATCH 09/87] fix: assignment from an array of another type releases
 the storage it replaces

---
 src/array.hpp  | 9 ++-------
 src/array2.hpp | 8 ++------
 2 files changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/array.hpp b/src/array.hpp
index eacf5b0..eb5190e 100644
--- a/src/array.hpp
+++ b/src/array.hpp
@@ -306,13 +306,8 @@ public:
   }
   template<class R>
   Array<T>& operator=(const Array<R>& other){
-    _mutable = true;
-    _shape = other.shape();
-    // _offset = shape_t(_shape.size(), 0);
-    _shift = 0u;
-    this->set_stride();
-    this->construct();
-    for (auto x: SubIt(_shape)) _data[s2l_d(x)] = static_cast<T>(other[x]);
+    // release or share the held storage like any other assignment
+    *this = Array<T>(other);
     return *this;
   }
 
diff --git a/src/array2.hpp b/src/array2.hpp
index fe6ae65..b90a8fb 100644
--- a/src/array2.hpp
+++ b/src/array2.hpp
@@ -284,12 +284,8 @@ public:
   }
   template<class R>
   Array2<T>& operator=(const Array2<R>& other){
-    _mutable = true;
-    _shape = other.shape();
-    _shift = 0;
-    this->set_stride();
-    this->construct();
-    for (const auto & x: this->subItr()) _data[s2l_d(x)] = static_cast<T>(other[x]);
+    // release or share the held storage like any other assignment
+    *this = Array2<T>(other);
     return *this;
   }
 
-- 
2.43.0


From 7860d929bfb8bfe3331028dec32cc21f0bba818b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:59 +0000
Subject: [PATCH 10/87] fix: each_is compares every element, not only one
 column

---
 src/array2.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array2.tpp b/src/array2.tpp
index d92383c..5b4bcec 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -930,7 +930,7 @@ Array2<T>::each_is(const brille::cmp expr, const std::vector<R>& vals, const T T
   out.reserve(no);
   // loop over whole array in linear-index order
   for (ind_t i=0; i<no; ++i)
-    out.push_back(op(this->val(i), vals[i]));
+    out.push_back(op(this->operator[](i), vals[i]));
   return out;
 }
 
-- 
2.43.0


From b5b9e01ed2d51b84a26ca0d9e7756a89da6e902b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:59 +0000
Subject: [PATCH 11/87] fix: is_permutation and permutation_vector use the
 given tolerances and handle repeated rows

---
 src/array2.tpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/array2.tpp b/src/array2.tpp
index 5b4bcec..44da017 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -664,7 +664,7 @@ bool Array2<T>::match(const ind_t i, const ind_t j, brille::ops op, T val, const
 template<class T>
 bool Array2<T>::all(const brille::cmp expr, const T val, const T Ttol, const int tol) const {
   if (brille::cmp::le_ge == expr)
-    return this->all(brille::cmp::le, val) || this->all(brille::cmp::ge, val);
+    return this->all(brille::cmp::le, val, Ttol, tol) || this->all(brille::cmp::ge, val, Ttol, tol);
   ind_t no = this->numel();
   brille::Comparer<T,T> op(expr, Ttol, Ttol, tol);
   for (ind_t k=0; k<no; ++k) if(!op(_data[this->l2l_d(k)], val)) return false;
@@ -1045,7 +1045,7 @@ bool Array2<T>::is_permutation(const Array2<R>& other, const T Ttol, const R Rto
     const auto x{this->view(i)};
     // if *this contains the same thing more than once, other must as well:
     // NaN values would break this functionality since NaN == NaN is never true
-    if (this->count(cmp::eq, x) != other.count(cmp::eq, x, Ttol, Rtol, tol)) {
+    if (this->count(cmp::eq, x, Ttol, Ttol, tol) != other.count(cmp::eq, x, Rtol, Ttol, tol)) {
       info_update(x.to_string(0), " is in \n", this->to_string(), this->count(cmp::eq, x), " times but in\n",
                   other.to_string(), other.count(cmp::eq, x, tol), " times!");
       return false;
@@ -1063,16 +1063,16 @@ template<class R>
 std::vector<ind_t> Array2<T>::permutation_vector(const Array2<R>& other, const T Ttol, const R Rtol, int tol) const {
   auto not_present = [](const auto & a, const auto & b){
     if (a.size() == 0) throw std::runtime_error("Can not find a not in b since a is empty");
-    if (b.size() == 0) return a[0];
-    const auto ptr = std::find_first_of(a.begin(), a.end(), b.begin(), b.end(),
-                                        [](const auto & x, const auto & y){return x != y;});
+    const auto ptr = std::find_if(a.begin(), a.end(), [&](const auto & x){
+      return std::find(b.begin(), b.end(), x) == b.end();
+    });
     if (ptr == a.end())
       throw std::runtime_error("b contains all of a!");
     return *ptr;
   };
   std::vector<ind_t> perm;
   for (ind_t i=0; i < _shape[0]; ++i){
-    auto others = other.find(cmp::eq, this->view(i), Ttol, Rtol, tol);
+    auto others = other.find(cmp::eq, this->view(i), Rtol, Ttol, tol);
     perm.push_back(not_present(others, perm));
   }
   return perm;
-- 
2.43.0


From 62d3143b05f0a8c1db1139b60c92a51a41b97627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:59 +0000
Subject: [PATCH 12/87] fix: subtracting an array from a scalar is not the same
 as the reverse

---
 src/array_functions.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/array_functions.hpp b/src/array_functions.hpp
index 92d659f..17924fc 100644
--- a/src/array_functions.hpp
+++ b/src/array_functions.hpp
@@ -98,9 +98,16 @@ operator X (const R b, const A<T>& a){\
   return out;\
 }
 SCALAR_ARRAY_OP(+,+=)
-SCALAR_ARRAY_OP(-,-=)
 SCALAR_ARRAY_OP(*,*=)
 #undef SCALAR_ARRAY_OP
+// subtraction does not commute
+template<class T, class R, template<class> class A, class S = std::common_type_t<T,R>>
+std::enable_if_t<isArray<T,A>, A<S>>
+operator - (const R b, const A<T>& a){
+  A<S> out = A<S>(a).decouple();
+  for (auto& x: out.valItr()) x = static_cast<S>(b) - x;
+  return out;
+}
 
 // any derived bArray<T> with a copy constructor [+-*/] std::array<R,N>
 // broadcasts the std::array but only if N matches the size of the last dimension of the bArray
-- 
2.43.0


From a95b42d5889892121f5103d72856bebb1daefd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:25 +0000
Subject: [PATCH 13/87] fix: resizing or appending to an offset view works
 instead of throwing and leaking

---
 src/array.tpp  | 8 ++------
 src/array2.tpp | 6 ++----
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/array.tpp b/src/array.tpp
index 4706bf2..ceaab1f 100644
--- a/src/array.tpp
+++ b/src/array.tpp
@@ -359,18 +359,14 @@ Array<T>::resize(const shape_t& ns, const T init) {
   shape_t inside = shrink ? ns : _shape;
   // find the new stride (maintaining row or column order)
   shape_t nt = calculate_stride(ns);
-  // ensure our simple indexing will work
-  // ind_t linoffset = sub2lin(_offset, _stride);
-  // if (linoffset > 0)
-  if (_shift > 0)
-    throw std::runtime_error("Resizing only works for zero-offset Arrays at present. Please extend.");
   // copy into the new array if the old array isn't the null pointer
   if (_data != nullptr && nd != nullptr)
-    for (auto x : SubIt(inside)) nd[sub2lin(x, nt)] = _data[sub2lin(x, _stride)];
+    for (auto x : SubIt(inside)) nd[sub2lin(x, nt)] = _data[sub2lin(x, _stride) + _shift];
   // delete the old _data if we hold the only reference
   if (_own && _ref.use_count()==1 && _data != nullptr) delete[] _data;
   // update data, number, ownership, reference, size, stride, and mutability
   _data = nd;
+  _shift = 0u;
   _num = nnum;
   _own = true;
   _ref = std::make_shared<char>(); // resizing in place can not change the template parameter
diff --git a/src/array2.tpp b/src/array2.tpp
index 44da017..c947b20 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -352,16 +352,14 @@ Array2<T>::resize(const shape_t& ns, const T init) {
   shape_t inside = shrink ? ns : _shape;
   // find the new stride (maintaining row or column order)
   shape_t nt = calculate_stride(ns);
-  // ensure our simple indexing will work
-  if (_shift > 0)
-    throw std::runtime_error("Resizing only works for zero-offset Array2s at present. Please extend.");
   // copy into the new array if the old array isn't the null pointer
   if (_data != nullptr && nd != nullptr)
-    for (auto x : SubIt2(inside)) nd[sub2lin(x, nt)] = _data[sub2lin(x, _stride)];
+    for (auto x : SubIt2(inside)) nd[sub2lin(x, nt)] = _data[sub2lin(x, _stride) + _shift];
   // delete the old _data if we hold the only reference
   if (_own && _ref.use_count()==1 && _data != nullptr) delete[] _data;
   // update data, number, ownership, reference, size, stride, and mutability
   _data = nd;
+  _shift = 0u;
   _num = nnum;
   _own = true;
   _ref = std::make_shared<char>(); // resizing in place can not change the template parameter
-- 
2.43.0


From eefa6feaf18b45d58b91b0c572a9b28b5ef8ea8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:42 +0000
Subject: [PATCH 14/87] fix: strides of singleton dimensions do not decide
 whether an array is contiguous

---
 src/array.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/array.hpp b/src/array.hpp
index eb5190e..6419bad 100644
--- a/src/array.hpp
+++ b/src/array.hpp
@@ -112,17 +112,21 @@ public:
     return true;
   }
   bool is_contiguous() const {
-    shape_t expected(1, 1);
+    // the stride of a singleton dimension has no impact
+    auto matches = [&](const shape_t& expected){
+      for (size_t i=0; i<_shape.size(); ++i)
+        if (_shape[i] > 1 && _stride[i] != expected[i]) return false;
+      return true;
+    };
+    shape_t expected(_shape.size(), 1);
     if (this->is_row_ordered()){
-      for (auto s = _shape.rbegin(); s!=_shape.rend(); ++s)
-        expected.push_back(expected.back()*(*s));
-      expected.pop_back();
-      return std::equal(_stride.begin(), _stride.end(), expected.rbegin());
+      for (size_t i=_shape.size(); i-- > 1u;) expected[i-1] = expected[i]*_shape[i];
+      if (matches(expected)) return true;
     }
     if (this->is_column_ordered()){
-      for (auto s : _shape) expected.push_back(expected.back()*s);
-      // expected has one too many elements
-      return std::equal(_stride.begin(), _stride.end(), expected.begin());
+      expected = shape_t(_shape.size(), 1);
+      for (size_t i=1; i<_shape.size(); ++i) expected[i] = expected[i-1]*_shape[i-1];
+      if (matches(expected)) return true;
     }
     return false;
   }
-- 
2.43.0


From 9267aea6c157071364f0701acacdcf0c722b9e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:44 +0000
Subject: [PATCH 15/87] fix: array comparison of integers and booleans is exact

---
 src/approx_float.hpp | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/src/approx_float.hpp b/src/approx_float.hpp
index 715bd6c..5a279cf 100644
--- a/src/approx_float.hpp
+++ b/src/approx_float.hpp
@@ -85,8 +85,11 @@ namespace brille::approx_float{
      * We stick with 5×10⁻¹⁵ to avoid having to chase down where 1×10⁻¹⁵ was
      * too small.
      * */
-    T Tabs = T(5)/T(1000000000000000);
-    R Rabs = R(5)/R(1000000000000000);
+    // an integer has no absolute tolerance (and might not be able to hold 10¹⁵)
+    T Tabs{0};
+    R Rabs{0};
+    if constexpr (!std::is_integral_v<T>) Tabs = T(5)/T(1000000000000000);
+    if constexpr (!std::is_integral_v<R>) Rabs = R(5)/R(1000000000000000);
     bool TorRisInteger = Trel*Rrel==0 || std::is_convertible<T,R>::value;
     bool TisFloatingPt = Trel > 0;
     Trel *= static_cast<T>(tol)*static_cast<T>(TOL_MULT);
@@ -221,24 +224,7 @@ namespace brille::approx_float{
   template<class T, class R>
   bool _array(const size_t NM, const T* a, const R* b, const bool useT, const T Trel, const R Rrel, const T Tabs, const R Rabs){
     bool answer=true;
-    // we need <= in case T and R are integer, otherwise this is *always* false since 0 !< 0
-    if (useT){
-      T Tmin = std::numeric_limits<T>::min();
-      for (size_t i=0; i<NM; ++i){
-        auto x = brille::abs(a[i]-b[i]);
-        // if both a and b are close to epsilon for its type, our comparison of |a-b| to |a+b| might fail
-        // if ( brille::abs(a[i]) <= Trel && brille::abs(b[i]) <= Rrel ) answer &= x <= Trel;
-        answer &= x <= Tabs + Trel*brille::abs(a[i]+b[i]) || x < Tmin;
-      }
-    } else {
-      R Rmin = std::numeric_limits<R>::min();
-      for (size_t i=0; i<NM; ++i){
-        auto x = brille::abs(a[i]-b[i]);
-        // if both a and b are close to epsilon for its type, our comparison of |a-b| to |a+b| might fail
-        // if ( brille::abs(a[i]) <= Trel && brille::abs(b[i]) <= Rrel ) answer &= x <= Rrel;
-        answer &= x <= Rabs + Rrel*brille::abs(a[i]+b[i]) || x < Rmin;
-      }
-    }
+    for (size_t i=0; i<NM; ++i) answer &= _scalar(a[i], b[i], useT, Trel, Rrel, Tabs, Rabs);
     return answer;
   }
 
-- 
2.43.0


From 84a41933f667a6b3ebaae717d4594acc9456e019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:44 +0000
Subject: [PATCH 16/87] fix: a copied Comparer does not refer to the object it
 was copied from

---
 src/comparisons.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/comparisons.hpp b/src/comparisons.hpp
index cf21627..dd0c1cd 100644
--- a/src/comparisons.hpp
+++ b/src/comparisons.hpp
@@ -65,42 +65,42 @@ public:
     // set the comparison function
     switch(op){
       case cmp::lt:
-      scalar = [&](const T& a, const R& b){
+      scalar = [useT=this->useT, relT=this->relT, relR=this->relR, absT=this->absT, absR=this->absR](const T& a, const R& b){
         return !approx_float::_scalar(a,b,useT,relT,relR,absT,absR) && a<b;
       };
       break;
       case cmp::gt:
-      scalar = [&](const T& a, const R& b){
+      scalar = [useT=this->useT, relT=this->relT, relR=this->relR, absT=this->absT, absR=this->absR](const T& a, const R& b){
         return !approx_float::_scalar(a,b,useT,relT,relR,absT,absR) && a>b;
       };
       break;
       case cmp::le:
-      scalar = [&](const T& a, const R& b){
+      scalar = [useT=this->useT, relT=this->relT, relR=this->relR, absT=this->absT, absR=this->absR](const T& a, const R& b){
         return approx_float::_scalar(a,b,useT,relT,relR,absT,absR) || a<b;
       };
       break;
       case cmp::ge:
-      scalar = [&](const T& a, const R& b){
+      scalar = [useT=this->useT, relT=this->relT, relR=this->relR, absT=this->absT, absR=this->absR](const T& a, const R& b){
         return approx_float::_scalar(a,b,useT,relT,relR,absT,absR) || a>b;
       };
       break;
       case cmp::eq:
-      scalar = [&](const T& a, const R& b){
+      scalar = [useT=this->useT, relT=this->relT, relR=this->relR, absT=this->absT, absR=this->absR](const T& a, const R& b){
         return approx_float::_scalar(a,b,useT,relT,relR,absT,absR);
       };
       break;
       case cmp::nle:
-      scalar = [&](const T& a, const R& b){
+      scalar = [useT=this->useT, relT=this->relT, relR=this->relR, absT=this->absT, absR=this->absR](const T& a, const R& b){
         return !approx_float::_scalar(a,b,useT,relT,relR,absT,absR) && a>b;
       };
       break;
       case cmp::nge:
-      scalar = [&](const T& a, const R& b){
+      scalar = [useT=this->useT, relT=this->relT, relR=this->relR, absT=this->absT, absR=this->absR](const T& a, const R& b){
         return !approx_float::_scalar(a,b,useT,relT,relR,absT,absR) && a<b;
       };
       break;
       case cmp::neq:
-      scalar = [&](const T& a, const R& b){
+      scalar = [useT=this->useT, relT=this->relT, relR=this->relR, absT=this->absT, absR=this->absR](const T& a, const R& b){
         return !approx_float::_scalar(a,b,useT,relT,relR,absT,absR);
       };
       break;
@@ -112,25 +112,25 @@ public:
       case cmp::neq:
       case cmp::nge:
       case cmp::nle:
-      vector = [&](const size_t n, const T* a, const size_t sa, const R* b, const size_t sb){
+      vector = [scalar=this->scalar](const size_t n, const T* a, const size_t sa, const R* b, const size_t sb){
         /* Replace this by a short-cutting variant:
         bool ret{false};
         for (size_t i=0; i<n; ++i) ret |= this->scalar(a[i*sa], b[i*sb]);
         return ret;
         */
-        for (size_t i=0; i<n; ++i) if (this->scalar(a[i*sa], b[i*sb])) return true;
+        for (size_t i=0; i<n; ++i) if (scalar(a[i*sa], b[i*sb])) return true;
         return false;
       };
       break;
       // A vector IS X if all of the elements ARE X
       default:
-      vector = [&](const size_t n, const T* a, const size_t sa, const R* b, const size_t sb){
+      vector = [scalar=this->scalar](const size_t n, const T* a, const size_t sa, const R* b, const size_t sb){
         /* Replace this by a short-cutting variant:
         bool ret{true};
         for (size_t i=0; i<n; ++i) ret &= this->scalar(a[i*sa], b[i*sb]);
         return ret;
         */
-        for (size_t i=0; i<n; ++i) if (!this->scalar(a[i*sa], b[i*sb])) return false;
+        for (size_t i=0; i<n; ++i) if (!scalar(a[i*sa], b[i*sb])) return false;
         return true;
       };
     }
-- 
2.43.0


From 5d24083e369ae0c2bf716b0aa206251425ab41ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:33 +0000
Subject: [PATCH 17/87] fix: transpose matrices in place with their own size
 instead of 3

---
 src/utilities.tpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utilities.tpp b/src/utilities.tpp
index 9a8dcb5..5cfc0e5 100644
--- a/src/utilities.tpp
+++ b/src/utilities.tpp
@@ -186,9 +186,9 @@ template<typename R, int N> void complex_conj_matrix_transpose(std::complex<R> *
 template<typename R, int N> void matrix_transpose(R *B){
   R t;
   for (int i=0; i<N; i++) for(int j=i+1; j<N; j++) {
-    t = B[i+j*3];
-    B[i+j*3] = B[j+i*3];
-    B[j+i*3] = t;
+    t = B[i+j*N];
+    B[i+j*N] = B[j+i*N];
+    B[j+i*N] = t;
   }
 }
 
-- 
2.43.0


From a74bdf4843937a9294c0584ef1c376be50c48a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:33 +0000
Subject: [PATCH 18/87] fix: binomial_coefficient lost the numerator or
 denominator on overflow

---
 src/utilities.tpp | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/utilities.tpp b/src/utilities.tpp
index 5cfc0e5..1ca981a 100644
--- a/src/utilities.tpp
+++ b/src/utilities.tpp
@@ -689,7 +689,7 @@ indistinguishable objects can be chosen.
 template<class T, class R>
 std::enable_if_t<std::is_unsigned<T>::value&&std::is_unsigned<R>::value, unsigned long long>
 binomial_coefficient(const T n, const R k){
-  unsigned long long ans{1}, num{1}, den{1}, comdiv;
+  unsigned long long ans{1};
   if (k>n){
     std::string msg = "The binomial coefficient requires more choices than selections.";
     msg += "\n binomial_coefficient(" + std::to_string(n) + ":" + std::to_string(k) + ") is invalid";
@@ -699,20 +699,16 @@ binomial_coefficient(const T n, const R k){
   R m = (n-k < k) ? static_cast<R>(n-k) : k;
   bool overflow = false;
   for (R i=0; i<m; ++i){
-    unsigned long long lastnum{num}, lastden{den};
-    num *= static_cast<unsigned long long>(n-i);
-    den *= static_cast<unsigned long long>(i)+1;
-    if (lastnum > num || lastden > den){
-      comdiv = gcd(lastnum, lastden);
-      if (comdiv > 1){
-        num = lastnum/comdiv;
-        den = lastden/comdiv;
-        --i;
-      } else {
-        overflow = true;
-      }
+    // ans is C(n,i); C(n,i+1) = C(n,i) (n-i)/(i+1) with the division performed first to avoid overflow
+    unsigned long long num{static_cast<unsigned long long>(n-i)}, den{static_cast<unsigned long long>(i)+1};
+    unsigned long long comdiv = gcd(ans, den);
+    ans /= comdiv;
+    num /= den/comdiv; // what is left of the denominator shares no factor with ans so must divide (n-i)
+    if (ans > (std::numeric_limits<unsigned long long>::max)()/num){
+      overflow = true;
+      break;
     }
-    if (overflow) break;
+    ans *= num;
   }
 
   if (overflow){
@@ -720,8 +716,6 @@ binomial_coefficient(const T n, const R k){
     for (T i=0; i<m; ++i)
       dans *= static_cast<long double>(n-i)/(static_cast<long double>(i)+1);
     ans = std::llround(dans);
-  } else {
-    ans = num/den;
   }
   return ans;
 }
-- 
2.43.0


From c25ce0c94ca26120a2dc1a80a4009810482bbd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:33 +0000
Subject: [PATCH 19/87] fix: LU_decomposition and mat_inverse of arrays used
 the wrong matrix size

---
 src/linear_algebra.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/linear_algebra.hpp b/src/linear_algebra.hpp
index 6d89717..d3b6717 100644
--- a/src/linear_algebra.hpp
+++ b/src/linear_algebra.hpp
@@ -87,13 +87,13 @@ namespace brille::linear_algebra {
     std::vector<size_t> refs(M);
     std::iota(refs.begin(), refs.end(), 0u);
     T det{1};
-    auto s2i = [&](const size_t & i, const size_t & j){return refs[i] * N + j;};
+    auto s2i = [&](const size_t & i, const size_t & j){return refs[i] * M + j;};
 
     // LU factorisation:
-    for (size_t p=0; p < N-1; ++p){
+    for (size_t p=0; p < M-1; ++p){
       // locate pivot element
-      for (size_t i=p; i < N; ++i){
-        if (std::abs(LU[s2i(i, p)]) > std::abs(LU[s2i(p, i)])) {
+      for (size_t i=p+1; i < M; ++i){
+        if (std::abs(LU[s2i(i, p)]) > std::abs(LU[s2i(p, p)])) {
           // switch the index for the p -1 pivot row
           std::swap(refs[p], refs[i]);
           det = -det;
@@ -105,22 +105,22 @@ namespace brille::linear_algebra {
       // multiply diagonal
       det *= LU[s2i(p, p)];
       // form multiplier
-      for (size_t i=p+1; i < N; ++i){
+      for (size_t i=p+1; i < M; ++i){
         LU[s2i(i, p)] /= LU[s2i(p, p)];
         // eliminate [p-1]
-        for (size_t j=p+1; j < N; ++j){
+        for (size_t j=p+1; j < M; ++j){
           LU[s2i(i, j)] -= LU[s2i(i, p)] * LU[s2i(p, j)];
         }
       }
     }
-    det = det * LU[s2i(N-1, N-1)];
+    det = det * LU[s2i(M-1, M-1)];
     return std::make_tuple(det != 0, det, LU);
   }
 
   template<class T, size_t N> std::array<T, N> mat_inverse(const std::array<T,N>& A){
     assert(N == static_cast<size_t>(std::sqrt(N)) * static_cast<size_t>(std::sqrt(N)));
     std::array<T,N> inv; inv.fill(0);
-    utils::matrix_inverse(inv.data(), A.data());
+    utils::matrix_inverse(inv.data(), A.data(), T(0), static_cast<int>(std::sqrt(N)));
     return inv;
   }
 }
-- 
2.43.0


From 885ea94d8606457b26c3efdcf8898adf4b7d6512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:33 +0000
Subject: [PATCH 20/87] fix: Munkres never finishes when every cost is zero

---
 src/munkres.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/munkres.hpp b/src/munkres.hpp
index fa61e4d..587e1d5 100644
--- a/src/munkres.hpp
+++ b/src/munkres.hpp
@@ -61,8 +61,8 @@ public:
     mask.resize(N*N);
     rowcover.resize(N);
     colcover.resize(N);
-    // try to run the assignment algorithm
-    finished = run_assignment();
+    // try to run the assignment algorithm, if the costs have been provided
+    finished = cmat.empty() ? false : run_assignment();
   }
   void reset(){
     // Make sure the mask and covers are set correctly for the start of a run
@@ -87,11 +87,7 @@ public:
   */
   bool run_assignment(){
     reset();
-    // check that we *can* perform an assignment
-    T sum = 0;
-    for (size_t i=0; i < cost.size(); ++i) sum+=std::abs(cost[i]);
-    // If there is cost information we're not done yet.
-    bool done = sum <= 0;
+    bool done = false;
     while (!done) {
       // show();
       switch (step) {
-- 
2.43.0


From b3b3673893112a545f832af04dea0bb374de1a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:33 +0000
Subject: [PATCH 21/87] fix: stable matching compares the preferences of the
 contested column

---
 src/smp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smp.hpp b/src/smp.hpp
index f9c28c2..9b9b031 100644
--- a/src/smp.hpp
+++ b/src/smp.hpp
@@ -132,7 +132,7 @@ int smp(const T dim, const P *restrict prefs, T *restrict rsol, T *restrict csol
         // if the preferred column has a proposed match
         if (cmatched[thisc]){
           // and if the column prefers this row over the proposed row
-          if (cpref[i*dim + i] < cpref[i*dim + csol[thisc]]){
+          if (cpref[thisc*dim + i] < cpref[thisc*dim + csol[thisc]]){
             // unmatch the other row
             rmatched[csol[thisc]] = false;
             rsol[csol[thisc]] = T(0);
-- 
2.43.0


From ddc353f19f1868626392a51e14469f789eeb4eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:53 +0000
Subject: [PATCH 22/87] fix: data-driven permutation functions could not be
 compiled, and one used the wrong length

---
 src/permutation.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/permutation.hpp b/src/permutation.hpp
index 419597d..a6b1665 100644
--- a/src/permutation.hpp
+++ b/src/permutation.hpp
@@ -140,7 +140,7 @@ for (size_t i=0; i<Nobj; ++i){
     s_cost = R(0);
     if (Nel[0]){
       for (size_t k=0; k<Nel[0]; ++k)
-        s_cost += magnitude(c_i[k] - n_j[k]);
+        s_cost += brille::utils::magnitude(c_i[k] - n_j[k]);
       c_i += Nel[0];
       n_j += Nel[0];
     }
@@ -306,7 +306,7 @@ for (size_t i=0; i<Nobj; ++i){
     s_cost = R(0);
     if (Nel[0]){
       for (size_t k=0; k<Nel[0]; ++k)
-        s_cost += magnitude(c_i[k] - n_j[k]);
+        s_cost += brille::utils::magnitude(c_i[k] - n_j[k]);
       c_i += Nel[0];
       n_j += Nel[0];
     }
@@ -473,13 +473,13 @@ for (size_t i=0; i<Nobj; ++i){
     s_cost = R(0);
     if (vals_Nel[0]){
       for (size_t k=0; k<vals_Nel[0]; ++k)
-        s_cost += magnitude(vals_c_i[k] - vals_n_j[k]);
+        s_cost += brille::utils::magnitude(vals_c_i[k] - vals_n_j[k]);
       vals_c_i += vals_Nel[0];
       vals_n_j += vals_Nel[0];
     }
     if (vecs_Nel[0]){
       for (size_t k=0; k<vecs_Nel[0]; ++k)
-        s_cost += magnitude(vecs_c_i[k] - vecs_n_j[k]);
+        s_cost += brille::utils::magnitude(vecs_c_i[k] - vecs_n_j[k]);
       vecs_c_i += vecs_Nel[0];
       vecs_n_j += vecs_Nel[0];
     }
@@ -695,7 +695,7 @@ for (size_t i=0; i<Nobj; ++i){
     s_cost = R(0);
     if (Nel[0]){
       for (size_t k=0; k<Nel[0]; ++k)
-        s_cost += magnitude(c_i[k] - n_j[k]);
+        s_cost += brille::utils::magnitude(c_i[k] - n_j[k]);
       c_i += Nel[0];
       n_j += Nel[0];
     }
@@ -704,7 +704,7 @@ for (size_t i=0; i<Nobj; ++i){
         case 0: v_cost = std::abs(std::sin(brille::utils::hermitian_angle(Nel[1], c_i, n_j))); break;
         case 1: v_cost =  brille::utils::vector_distance(Nel[1], c_i, n_j); break;
         case 2: v_cost = 1-brille::utils::vector_product(Nel[1], c_i, n_j); break;
-        case 3: v_cost =     brille::utils::vector_angle(Nel[2], c_i, n_j); break;
+        case 3: v_cost =     brille::utils::vector_angle(Nel[1], c_i, n_j); break;
         default: std::cout << "Unknown vector cost function. None used." << std::endl;
       }
       c_i += Nel[1];
-- 
2.43.0


From 59734230677a54d7436250f56e24b2264370471d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:20 +0000
Subject: [PATCH 23/87] fix: apply_inverse_permutation stored an index in place
 of the moved object

---
 src/permutation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/permutation.hpp b/src/permutation.hpp
index a6b1665..957caea 100644
--- a/src/permutation.hpp
+++ b/src/permutation.hpp
@@ -809,7 +809,7 @@ apply_inverse_permutation(ObjItr objects, ObjItr end, PermItr indices){
     objects[indices[i]] = std::move(objects[i]);
     indices[indices[i]] = indices[i];
     // and put the popped object and index back in here
-    objects[i] = std::move(pop_idx);
+    objects[i] = std::move(pop_obj);
     indices[i] = pop_idx;
   }
 }
-- 
2.43.0


From d24eba537ece634ef7f78b02f8f2985c0b25f1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:20 +0000
Subject: [PATCH 24/87] fix: SortingStatus::visits combined the new with the
 old number of visits

---
 src/sorting_status.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorting_status.hpp b/src/sorting_status.hpp
index dbdc764..718e16f 100644
--- a/src/sorting_status.hpp
+++ b/src/sorting_status.hpp
@@ -86,7 +86,7 @@ public:
   template<typename T>
   status_t visits(T v) {
     if (v <= static_cast<status_t>(-1) >> v_shift){
-      this->status ^= v_mask; // keep everything but the number of visits
+      this->status &= ~v_mask; // keep everything but the number of visits
       this->status += v << v_shift; // add the offset visits value
     }
     else
-- 
2.43.0


From e53bc9afcc357fa7b5c73160e51ee8f1cfb9967b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:20 +0000
Subject: [PATCH 25/87] fix: PermutationTable::set ignored the permutation of a
 prepared key

---
 src/permutation_table.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/permutation_table.hpp b/src/permutation_table.hpp
index cdc2bd3..e28c3f3 100644
--- a/src/permutation_table.hpp
+++ b/src/permutation_table.hpp
@@ -150,14 +150,14 @@ public:
 		size_t idx{0};
 		size_t key = this->ij2key(i,j);
 		auto itr = ijmap.find(key);
-		// if the key is already present, emplace will not overwrite it anyway
-		if (itr != ijmap.end()) return itr->second;
+		// if the key already has a permutation it is not overwritten
+		if (itr != ijmap.end() && itr->second >= offset) return itr->second - offset;
 		// the ijmap does not contain key (i,j), so check for permutation duplication
 		std::tie(contains, idx) = this->find_permutation(v);
 		// add this permutation if it's not present
 		if (!contains) permutations.push_back(v);
 		// and store the mapping
-		ijmap.emplace(key, idx+offset); // +offset for -offset in get
+		ijmap[key] = idx+offset; // +offset for -offset in get
 		return idx;
 	}
 	//! Replace an existing mapping in the double-index map
-- 
2.43.0


From 5c14f5b5297e1acbbfb8c5e96cab96c635c1cfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:07 +0000
Subject: [PATCH 26/87] fix: text of an operation with a negative or inexact
 translation can be read back

---
 src/motion.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/motion.hpp b/src/motion.hpp
index 8c47988..a74ba28 100644
--- a/src/motion.hpp
+++ b/src/motion.hpp
@@ -143,12 +143,15 @@ operations.
             std::string lout;
             if (v != T(0)){
                 // try finding a rational number:
-                int num{0}, den{0};
+                const T a = std::abs(v);
+                int num{1};
+                T den{0};
                 for (; num<256; ++num){
-                    den = T(num)/v;
-                    if (brille::approx_float::scalar(v, T(num)/T(den))) break;
+                    den = std::round(T(num)/a); // rounding is required, 0.1 might be slightly more than 1/10
+                    if (den > T(0) && brille::approx_float::scalar(a, T(num)/den)) break;
                 }
-                lout += (num < 256) ? (std::to_string(num) + "/" + std::to_string(den)) : std::to_string(v);
+                if (v < T(0)) lout += "-";
+                lout += (num < 256) ? (std::to_string(num) + "/" + std::to_string(static_cast<long long>(den))) : std::to_string(a);
             }
             std::vector<std::string> es{"x","y","z"};
             for (int i=0; i<3; ++i) if (e[i] != 0)
-- 
2.43.0


From 9afe57789ba911ebfe1bc92ee5d9d2317e01348a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:07 +0000
Subject: [PATCH 27/87] fix: PointSymmetry::add reads x,y,z notation

---
 src/pointsymmetry.cpp | 50 +++----------------------------------------
 1 file changed, 3 insertions(+), 47 deletions(-)

diff --git a/src/pointsymmetry.cpp b/src/pointsymmetry.cpp
index fb4c0f3..1333b6c 100644
--- a/src/pointsymmetry.cpp
+++ b/src/pointsymmetry.cpp
@@ -37,57 +37,13 @@ size_t PointSymmetry::add(const Matrix<int>& r){
   return this->R.size();
 }
 size_t PointSymmetry::add(const std::string& s){
-  Matrix<int> newR{0,0,0,0,0,0,0,0,0};
   // a valid encoded Motion will be of the form
   // ∑ₙiₙαₙ + f where each iₙ is an integer, αₙ∈{x,y,z}
   // and f one of 0, ±1/12, ±1/6, ±1/4, ±1/3, ±1/2
-  // but we should support any rational or floating point value for f
-  int n{0}, i{1};
-  char c{' '};
+  // the translation f strictly shouldn't be here for pointgroup operations and is skipped
   std::istringstream stream(s);
-  size_t ret{0};
-  while (stream.good()){
-    c = char(stream.get());
-    switch (c){
-      case ';': // end of one motion
-        ret = this->add(newR);
-        newR = {0,0,0,0,0,0,0,0,0};
-        n=0;
-        i=1;
-        break;
-      case ',': // end of motion component
-        i=1;
-        break;
-      case 'x':
-        newR[n*3] = i;
-        i=1;
-        break;
-      case 'y':
-        newR[n*3+1] = i;
-        i=1;
-        break;
-      case 'z':
-        newR[n*3+2] = i;
-        i=1;
-        break;
-      default: // not ;,xyz
-        std::stringstream tmp;
-        tmp << c;
-        bool haspoint{false}, hasslash{false};
-        while (std::strchr(";,xyz-+",stream.peek())==nullptr){
-          hasslash |= '/'==stream.peek();
-          haspoint |= '.'==stream.peek();
-          tmp << stream.get();
-        }
-        if (haspoint && hasslash) throw std::logic_error("Number has both point and slash?!");
-        if (!(haspoint^hasslash)) tmp >> i; // TT (error) or FF (integer)
-        // either floating point or rational numbers represent part of the
-        // translation which strictly shouldn't be here for pointgroup
-        // operations, but we should just skip for now
-    }
-  }
-  if (';'!=c) ret = this->add(newR);
-  return ret;
+  for (std::string m; std::getline(stream, m, ';'); ) this->add(Motion<int,double>(m).getr());
+  return this->size();
 }
 bool PointSymmetry::set(const size_t i, const int *r){
   if ( i>=this->size() ) return false;
-- 
2.43.0


From f942eea3474e89179f6559dc3bbb48667128c76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:23 +0000
Subject: [PATCH 28/87] fix: PointSymmetry::generate returns the closure of the
 operations

---
 src/pointsymmetry.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pointsymmetry.cpp b/src/pointsymmetry.cpp
index 1333b6c..a4d2cae 100644
--- a/src/pointsymmetry.cpp
+++ b/src/pointsymmetry.cpp
@@ -270,6 +270,13 @@ PointSymmetry PointSymmetry::generate() const {
       }
     }
   }
+  // the products above are only a complete group if every operation maps the
+  // group generated by those before it onto itself; so continue until closed
+  for (size_t j=0; j<gen.size(); ++j) for (size_t i=0; i<this->size(); ++i){
+    brille::utils::multiply_matrix_matrix(y.data(), this->data(i), gen.data(j));
+    if (!gen.has(y) && gen.add(y) > 48u)
+      throw std::runtime_error("The operations do not generate a finite pointgroup.");
+  }
   return gen;
 }
 PointSymmetry PointSymmetry::generators() const {
-- 
2.43.0


From 9486e315fb661f0d6e421ac81db083663a2f75c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:23 +0000
Subject: [PATCH 29/87] fix: Symmetry::generate returns the closure of the
 motions

---
 src/symmetry.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/symmetry.cpp b/src/symmetry.cpp
index 8eb1aaf..8e811a5 100644
--- a/src/symmetry.cpp
+++ b/src/symmetry.cpp
@@ -142,6 +142,13 @@ Symmetry Symmetry::generate() const {
       }
     }
   }
+  // the products above are only a complete group if every motion maps the
+  // group generated by those before it onto itself; so continue until closed
+  for (size_t j=0; j<gen.size(); ++j) for (const auto & m: this->M){
+    auto y = m * gen.getm(j);
+    if (!gen.has(y) && gen.add(y) > 4096u)
+      throw std::runtime_error("The motions do not generate a finite group.");
+  }
   return gen;
 }
 Symmetry Symmetry::generators() const{
-- 
2.43.0


From 5f5ae0881765312f4d150e1b069aa80036764903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:59 +0000
Subject: [PATCH 30/87] fix: B-centred settings are tabulated with the lattice
 B

---
 src/spg_database.cpp | 80 ++++++++++++++++++++++----------------------
 1 file changed, 40 insertions(+), 40 deletions(-)

diff --git a/src/spg_database.cpp b/src/spg_database.cpp
index a158e4f..81b31b4 100644
--- a/src/spg_database.cpp
+++ b/src/spg_database.cpp
@@ -89,9 +89,9 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   {  5, "C2^3"  , "A 2y"            , "C 2 = A 1 2 1"                  , "A 1 2 1"            , "C2"        , "b2"   , Bravais::A,  3,  10},
   {  5, "C2^3"  , "I 2y"            , "C 2 = I 1 2 1"                  , "I 1 2 1"            , "C2"        , "b3"   , Bravais::I,  3,  11},
   {  5, "C2^3"  , "A 2"             , "C 2 = A 1 1 2"                  , "A 1 1 2"            , "C2"        , "c1"   , Bravais::A,  3,  12},
-  {  5, "C2^3"  , "B 2"             , "C 2 = B 1 1 2 = B 2"            , "B 1 1 2"            , "C2"        , "c2"   , Bravais::P,  3,  13},
+  {  5, "C2^3"  , "B 2"             , "C 2 = B 1 1 2 = B 2"            , "B 1 1 2"            , "C2"        , "c2"   , Bravais::B,  3,  13},
   {  5, "C2^3"  , "I 2"             , "C 2 = I 1 1 2"                  , "I 1 1 2"            , "C2"        , "c3"   , Bravais::I,  3,  14},
-  {  5, "C2^3"  , "B 2x"            , "C 2 = B 2 1 1"                  , "B 2 1 1"            , "C2"        , "a1"   , Bravais::P,  3,  15},
+  {  5, "C2^3"  , "B 2x"            , "C 2 = B 2 1 1"                  , "B 2 1 1"            , "C2"        , "a1"   , Bravais::B,  3,  15},
   {  5, "C2^3"  , "C 2x"            , "C 2 = C 2 1 1"                  , "C 2 1 1"            , "C2"        , "a2"   , Bravais::C,  3,  16},
   {  5, "C2^3"  , "I 2x"            , "C 2 = I 2 1 1"                  , "I 2 1 1"            , "C2"        , "a3"   , Bravais::I,  3,  17},
   {  6, "Cs^1"  , "P -2y"           , "P m = P 1 m 1"                  , "P 1 m 1"            , "Pm"        , "b"    , Bravais::P,  4,  18},
@@ -110,9 +110,9 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   {  8, "Cs^3"  , "A -2y"           , "C m = A 1 m 1"                  , "A 1 m 1"            , "Cm"        , "b2"   , Bravais::A,  4,  31},
   {  8, "Cs^3"  , "I -2y"           , "C m = I 1 m 1"                  , "I 1 m 1"            , "Cm"        , "b3"   , Bravais::I,  4,  32},
   {  8, "Cs^3"  , "A -2"            , "C m = A 1 1 m"                  , "A 1 1 m"            , "Cm"        , "c1"   , Bravais::A,  4,  33},
-  {  8, "Cs^3"  , "B -2"            , "C m = B 1 1 m = B m"            , "B 1 1 m"            , "Cm"        , "c2"   , Bravais::P,  4,  34},
+  {  8, "Cs^3"  , "B -2"            , "C m = B 1 1 m = B m"            , "B 1 1 m"            , "Cm"        , "c2"   , Bravais::B,  4,  34},
   {  8, "Cs^3"  , "I -2"            , "C m = I 1 1 m"                  , "I 1 1 m"            , "Cm"        , "c3"   , Bravais::I,  4,  35},
-  {  8, "Cs^3"  , "B -2x"           , "C m = B m 1 1"                  , "B m 1 1"            , "Cm"        , "a1"   , Bravais::P,  4,  36},
+  {  8, "Cs^3"  , "B -2x"           , "C m = B m 1 1"                  , "B m 1 1"            , "Cm"        , "a1"   , Bravais::B,  4,  36},
   {  8, "Cs^3"  , "C -2x"           , "C m = C m 1 1"                  , "C m 1 1"            , "Cm"        , "a2"   , Bravais::C,  4,  37},
   {  8, "Cs^3"  , "I -2x"           , "C m = I m 1 1"                  , "I m 1 1"            , "Cm"        , "a3"   , Bravais::I,  4,  38},
   {  9, "Cs^4"  , "C -2yc"          , "C c = C 1 c 1"                  , "C 1 c 1"            , "Cc"        , "b1"   , Bravais::C,  4,  39},
@@ -122,16 +122,16 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   {  9, "Cs^4"  , "C -2ybc"         , "C c = C 1 n 1"                  , "C 1 n 1"            , "Cc"        , "-b2"  , Bravais::C,  4,  43},
   {  9, "Cs^4"  , "I -2yc"          , "C c = I 1 c 1"                  , "I 1 c 1"            , "Cc"        , "-b3"  , Bravais::I,  4,  44},
   {  9, "Cs^4"  , "A -2a"           , "C c = A 1 1 a"                  , "A 1 1 a"            , "Cc"        , "c1"   , Bravais::A,  4,  45},
-  {  9, "Cs^4"  , "B -2bc"          , "C c = B 1 1 n"                  , "B 1 1 n"            , "Cc"        , "c2"   , Bravais::P,  4,  46},
+  {  9, "Cs^4"  , "B -2bc"          , "C c = B 1 1 n"                  , "B 1 1 n"            , "Cc"        , "c2"   , Bravais::B,  4,  46},
   {  9, "Cs^4"  , "I -2b"           , "C c = I 1 1 b"                  , "I 1 1 b"            , "Cc"        , "c3"   , Bravais::I,  4,  47},
-  {  9, "Cs^4"  , "B -2b"           , "C c = B 1 1 b = B b"            , "B 1 1 b"            , "Cc"        , "-c1"  , Bravais::P,  4,  48},
+  {  9, "Cs^4"  , "B -2b"           , "C c = B 1 1 b = B b"            , "B 1 1 b"            , "Cc"        , "-c1"  , Bravais::B,  4,  48},
   {  9, "Cs^4"  , "A -2ac"          , "C c = A 1 1 n"                  , "A 1 1 n"            , "Cc"        , "-c2"  , Bravais::A,  4,  49},
   {  9, "Cs^4"  , "I -2a"           , "C c = I 1 1 a"                  , "I 1 1 a"            , "Cc"        , "-c3"  , Bravais::I,  4,  50},
-  {  9, "Cs^4"  , "B -2xb"          , "C c = B b 1 1"                  , "B b 1 1"            , "Cc"        , "a1"   , Bravais::P,  4,  51},
+  {  9, "Cs^4"  , "B -2xb"          , "C c = B b 1 1"                  , "B b 1 1"            , "Cc"        , "a1"   , Bravais::B,  4,  51},
   {  9, "Cs^4"  , "C -2xbc"         , "C c = C n 1 1"                  , "C n 1 1"            , "Cc"        , "a2"   , Bravais::C,  4,  52},
   {  9, "Cs^4"  , "I -2xc"          , "C c = I c 1 1"                  , "I c 1 1"            , "Cc"        , "a3"   , Bravais::I,  4,  53},
   {  9, "Cs^4"  , "C -2xc"          , "C c = C c 1 1"                  , "C c 1 1"            , "Cc"        , "-a1"  , Bravais::C,  4,  54},
-  {  9, "Cs^4"  , "B -2xbc"         , "C c = B n 1 1"                  , "B n 1 1"            , "Cc"        , "-a2"  , Bravais::P,  4,  55},
+  {  9, "Cs^4"  , "B -2xbc"         , "C c = B n 1 1"                  , "B n 1 1"            , "Cc"        , "-a2"  , Bravais::B,  4,  55},
   {  9, "Cs^4"  , "I -2xb"          , "C c = I b 1 1"                  , "I b 1 1"            , "Cc"        , "-a3"  , Bravais::I,  4,  56},
   { 10, "C2h^1" , "-P 2y"           , "P 2/m = P 1 2/m 1"              , "P 1 2/m 1"          , "P2/m"      , "b"    , Bravais::P,  5,  57},
   { 10, "C2h^1" , "-P 2"            , "P 2/m = P 1 1 2/m"              , "P 1 1 2/m"          , "P2/m"      , "c"    , Bravais::P,  5,  58},
@@ -143,9 +143,9 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 12, "C2h^3" , "-A 2y"           , "C 2/m = A 1 2/m 1"              , "A 1 2/m 1"          , "C2/m"      , "b2"   , Bravais::A,  5,  64},
   { 12, "C2h^3" , "-I 2y"           , "C 2/m = I 1 2/m 1"              , "I 1 2/m 1"          , "C2/m"      , "b3"   , Bravais::I,  5,  65},
   { 12, "C2h^3" , "-A 2"            , "C 2/m = A 1 1 2/m"              , "A 1 1 2/m"          , "C2/m"      , "c1"   , Bravais::A,  5,  66},
-  { 12, "C2h^3" , "-B 2"            , "C 2/m = B 1 1 2/m = B 2/m"      , "B 1 1 2/m"          , "C2/m"      , "c2"   , Bravais::P,  5,  67},
+  { 12, "C2h^3" , "-B 2"            , "C 2/m = B 1 1 2/m = B 2/m"      , "B 1 1 2/m"          , "C2/m"      , "c2"   , Bravais::B,  5,  67},
   { 12, "C2h^3" , "-I 2"            , "C 2/m = I 1 1 2/m"              , "I 1 1 2/m"          , "C2/m"      , "c3"   , Bravais::I,  5,  68},
-  { 12, "C2h^3" , "-B 2x"           , "C 2/m = B 2/m 1 1"              , "B 2/m 1 1"          , "C2/m"      , "a1"   , Bravais::P,  5,  69},
+  { 12, "C2h^3" , "-B 2x"           , "C 2/m = B 2/m 1 1"              , "B 2/m 1 1"          , "C2/m"      , "a1"   , Bravais::B,  5,  69},
   { 12, "C2h^3" , "-C 2x"           , "C 2/m = C 2/m 1 1"              , "C 2/m 1 1"          , "C2/m"      , "a2"   , Bravais::C,  5,  70},
   { 12, "C2h^3" , "-I 2x"           , "C 2/m = I 2/m 1 1"              , "I 2/m 1 1"          , "C2/m"      , "a3"   , Bravais::I,  5,  71},
   { 13, "C2h^4" , "-P 2yc"          , "P 2/c = P 1 2/c 1"              , "P 1 2/c 1"          , "P2/c"      , "b1"   , Bravais::P,  5,  72},
@@ -173,16 +173,16 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 15, "C2h^6" , "-C 2ybc"         , "C 2/c = C 1 2/n 1"              , "C 1 2/n 1"          , "C2/c"      , "-b2"  , Bravais::C,  5,  94},
   { 15, "C2h^6" , "-I 2yc"          , "C 2/c = I 1 2/c 1"              , "I 1 2/c 1"          , "C2/c"      , "-b3"  , Bravais::I,  5,  95},
   { 15, "C2h^6" , "-A 2a"           , "C 2/c = A 1 1 2/a"              , "A 1 1 2/a"          , "C2/c"      , "c1"   , Bravais::A,  5,  96},
-  { 15, "C2h^6" , "-B 2bc"          , "C 2/c = B 1 1 2/n"              , "B 1 1 2/n"          , "C2/c"      , "c2"   , Bravais::P,  5,  97},
+  { 15, "C2h^6" , "-B 2bc"          , "C 2/c = B 1 1 2/n"              , "B 1 1 2/n"          , "C2/c"      , "c2"   , Bravais::B,  5,  97},
   { 15, "C2h^6" , "-I 2b"           , "C 2/c = I 1 1 2/b"              , "I 1 1 2/b"          , "C2/c"      , "c3"   , Bravais::I,  5,  98},
-  { 15, "C2h^6" , "-B 2b"           , "C 2/c = B 1 1 2/b = B 2/b"      , "B 1 1 2/b"          , "C2/c"      , "-c1"  , Bravais::P,  5,  99},
+  { 15, "C2h^6" , "-B 2b"           , "C 2/c = B 1 1 2/b = B 2/b"      , "B 1 1 2/b"          , "C2/c"      , "-c1"  , Bravais::B,  5,  99},
   { 15, "C2h^6" , "-A 2ac"          , "C 2/c = A 1 1 2/n"              , "A 1 1 2/n"          , "C2/c"      , "-c2"  , Bravais::A,  5, 100},
   { 15, "C2h^6" , "-I 2a"           , "C 2/c = I 1 1 2/a"              , "I 1 1 2/a"          , "C2/c"      , "-c3"  , Bravais::I,  5, 101},
-  { 15, "C2h^6" , "-B 2xb"          , "C 2/c = B 2/b 1 1"              , "B 2/b 1 1"          , "C2/c"      , "a1"   , Bravais::P,  5, 102},
+  { 15, "C2h^6" , "-B 2xb"          , "C 2/c = B 2/b 1 1"              , "B 2/b 1 1"          , "C2/c"      , "a1"   , Bravais::B,  5, 102},
   { 15, "C2h^6" , "-C 2xbc"         , "C 2/c = C 2/n 1 1"              , "C 2/n 1 1"          , "C2/c"      , "a2"   , Bravais::C,  5, 103},
   { 15, "C2h^6" , "-I 2xc"          , "C 2/c = I 2/c 1 1"              , "I 2/c 1 1"          , "C2/c"      , "a3"   , Bravais::I,  5, 104},
   { 15, "C2h^6" , "-C 2xc"          , "C 2/c = C 2/c 1 1"              , "C 2/c 1 1"          , "C2/c"      , "-a1"  , Bravais::C,  5, 105},
-  { 15, "C2h^6" , "-B 2xbc"         , "C 2/c = B 2/n 1 1"              , "B 2/n 1 1"          , "C2/c"      , "-a2"  , Bravais::P,  5, 106},
+  { 15, "C2h^6" , "-B 2xbc"         , "C 2/c = B 2/n 1 1"              , "B 2/n 1 1"          , "C2/c"      , "-a2"  , Bravais::B,  5, 106},
   { 15, "C2h^6" , "-I 2xb"          , "C 2/c = I 2/b 1 1"              , "I 2/b 1 1"          , "C2/c"      , "-a3"  , Bravais::I,  5, 107},
   { 16, "D2^1"  , "P 2 2"           , "P 2 2 2"                        , "P 2 2 2"            , "P222"      , ""     , Bravais::P,  6, 108},
   { 17, "D2^2"  , "P 2c 2"          , "P 2 2 2_1"                      , "P 2 2 2_1"          , "P222_1"    , ""     , Bravais::P,  6, 109},
@@ -194,10 +194,10 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 19, "D2^4"  , "P 2ac 2ab"       , "P 2_1 2_1 2_1"                  , "P 2_1 2_1 2_1"      , "P2_12_12_1", ""     , Bravais::P,  6, 115},
   { 20, "D2^5"  , "C 2c 2"          , "C 2 2 2_1"                      , "C 2 2 2_1"          , "C222_1"    , ""     , Bravais::C,  6, 116},
   { 20, "D2^5"  , "A 2a 2a"         , "A 2_1 2 2"                      , "A 2_1 2 2"          , "A2_122"    , "cab"  , Bravais::A,  6, 117},
-  { 20, "D2^5"  , "B 2 2b"          , "B 2 2_1 2"                      , "B 2 2_1 2"          , "B22_12"    , "bca"  , Bravais::P,  6, 118},
+  { 20, "D2^5"  , "B 2 2b"          , "B 2 2_1 2"                      , "B 2 2_1 2"          , "B22_12"    , "bca"  , Bravais::B,  6, 118},
   { 21, "D2^6"  , "C 2 2"           , "C 2 2 2"                        , "C 2 2 2"            , "C222"      , ""     , Bravais::C,  6, 119},
   { 21, "D2^6"  , "A 2 2"           , "A 2 2 2"                        , "A 2 2 2"            , "A222"      , "cab"  , Bravais::A,  6, 120},
-  { 21, "D2^6"  , "B 2 2"           , "B 2 2 2"                        , "B 2 2 2"            , "B222"      , "bca"  , Bravais::P,  6, 121},
+  { 21, "D2^6"  , "B 2 2"           , "B 2 2 2"                        , "B 2 2 2"            , "B222"      , "bca"  , Bravais::B,  6, 121},
   { 22, "D2^7"  , "F 2 2"           , "F 2 2 2"                        , "F 2 2 2"            , "F222"      , ""     , Bravais::F,  6, 122},
   { 23, "D2^8"  , "I 2 2"           , "I 2 2 2"                        , "I 2 2 2"            , "I222"      , ""     , Bravais::I,  6, 123},
   { 24, "D2^9"  , "I 2b 2c"         , "I 2_1 2_1 2_1"                  , "I 2_1 2_1 2_1"      , "I2_12_12_1", ""     , Bravais::I,  6, 124},
@@ -251,37 +251,37 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 34, "C2v^10", "P -2n -2n"       , "P n 2 n"                        , "P n 2 n"            , "Pn2n"      , "bca"  , Bravais::P,  7, 172},
   { 35, "C2v^11", "C 2 -2"          , "C m m 2"                        , "C m m 2"            , "Cmm2"      , ""     , Bravais::C,  7, 173},
   { 35, "C2v^11", "A -2 2"          , "A 2 m m"                        , "A 2 m m"            , "A2mm"      , "cab"  , Bravais::A,  7, 174},
-  { 35, "C2v^11", "B -2 -2"         , "B m 2 m"                        , "B m 2 m"            , "Bm2m"      , "bca"  , Bravais::P,  7, 175},
+  { 35, "C2v^11", "B -2 -2"         , "B m 2 m"                        , "B m 2 m"            , "Bm2m"      , "bca"  , Bravais::B,  7, 175},
   { 36, "C2v^12", "C 2c -2"         , "C m c 2_1"                      , "C m c 2_1"          , "Cmc2_1"    , ""     , Bravais::C,  7, 176},
   { 36, "C2v^12", "C 2c -2c"        , "C c m 2_1"                      , "C c m 2_1"          , "Ccm2_1"    , "ba-c" , Bravais::C,  7, 177},
   { 36, "C2v^12", "A -2a 2a"        , "A 2_1 m a"                      , "A 2_1 m a"          , "A2_1ma"    , "cab"  , Bravais::A,  7, 178},
   { 36, "C2v^12", "A -2 2a"         , "A 2_1 a m"                      , "A 2_1 a m"          , "A2_1am"    , "-cba" , Bravais::A,  7, 179},
-  { 36, "C2v^12", "B -2 -2b"        , "B b 2_1 m"                      , "B b 2_1 m"          , "Bb2_1m"    , "bca"  , Bravais::P,  7, 180},
-  { 36, "C2v^12", "B -2b -2"        , "B m 2_1 b"                      , "B m 2_1 b"          , "Bm2_1b"    , "a-cb" , Bravais::P,  7, 181},
+  { 36, "C2v^12", "B -2 -2b"        , "B b 2_1 m"                      , "B b 2_1 m"          , "Bb2_1m"    , "bca"  , Bravais::B,  7, 180},
+  { 36, "C2v^12", "B -2b -2"        , "B m 2_1 b"                      , "B m 2_1 b"          , "Bm2_1b"    , "a-cb" , Bravais::B,  7, 181},
   { 37, "C2v^13", "C 2 -2c"         , "C c c 2"                        , "C c c 2"            , "Ccc2"      , ""     , Bravais::C,  7, 182},
   { 37, "C2v^13", "A -2a 2"         , "A 2 a a"                        , "A 2 a a"            , "A2aa"      , "cab"  , Bravais::A,  7, 183},
-  { 37, "C2v^13", "B -2b -2b"       , "B b 2 b"                        , "B b 2 b"            , "Bb2b"      , "bca"  , Bravais::P,  7, 184},
+  { 37, "C2v^13", "B -2b -2b"       , "B b 2 b"                        , "B b 2 b"            , "Bb2b"      , "bca"  , Bravais::B,  7, 184},
   { 38, "C2v^14", "A 2 -2"          , "A m m 2"                        , "A m m 2"            , "Amm2"      , ""     , Bravais::A,  7, 185},
-  { 38, "C2v^14", "B 2 -2"          , "B m m 2"                        , "B m m 2"            , "Bmm2"      , "ba-c" , Bravais::P,  7, 186},
-  { 38, "C2v^14", "B -2 2"          , "B 2 m m"                        , "B 2 m m"            , "B2mm"      , "cab"  , Bravais::P,  7, 187},
+  { 38, "C2v^14", "B 2 -2"          , "B m m 2"                        , "B m m 2"            , "Bmm2"      , "ba-c" , Bravais::B,  7, 186},
+  { 38, "C2v^14", "B -2 2"          , "B 2 m m"                        , "B 2 m m"            , "B2mm"      , "cab"  , Bravais::B,  7, 187},
   { 38, "C2v^14", "C -2 2"          , "C 2 m m"                        , "C 2 m m"            , "C2mm"      , "-cba" , Bravais::C,  7, 188},
   { 38, "C2v^14", "C -2 -2"         , "C m 2 m"                        , "C m 2 m"            , "Cm2m"      , "bca"  , Bravais::C,  7, 189},
   { 38, "C2v^14", "A -2 -2"         , "A m 2 m"                        , "A m 2 m"            , "Am2m"      , "a-cb" , Bravais::A,  7, 190},
   { 39, "C2v^15", "A 2 -2c"         , "A e m 2"                        , "A e m 2"            , "Aem2"      , ""     , Bravais::A,  7, 191},
-  { 39, "C2v^15", "B 2 -2c"         , "B m e 2"                        , "B m e 2"            , "Bme2"      , "ba-c" , Bravais::P,  7, 192},
-  { 39, "C2v^15", "B -2c 2"         , "B 2 e m"                        , "B 2 e m"            , "B2em"      , "cab"  , Bravais::P,  7, 193},
+  { 39, "C2v^15", "B 2 -2c"         , "B m e 2"                        , "B m e 2"            , "Bme2"      , "ba-c" , Bravais::B,  7, 192},
+  { 39, "C2v^15", "B -2c 2"         , "B 2 e m"                        , "B 2 e m"            , "B2em"      , "cab"  , Bravais::B,  7, 193},
   { 39, "C2v^15", "C -2b 2"         , "C 2 m e"                        , "C 2 m e"            , "C2me"      , "-cba" , Bravais::C,  7, 194},
   { 39, "C2v^15", "C -2b -2b"       , "C m 2 e"                        , "C m 2 e"            , "Cm2e"      , "bca"  , Bravais::C,  7, 195},
   { 39, "C2v^15", "A -2c -2c"       , "A e 2 m"                        , "A e 2 m"            , "Ae2m"      , "a-cb" , Bravais::A,  7, 196},
   { 40, "C2v^16", "A 2 -2a"         , "A m a 2"                        , "A m a 2"            , "Ama2"      , ""     , Bravais::A,  7, 197},
-  { 40, "C2v^16", "B 2 -2b"         , "B b m 2"                        , "B b m 2"            , "Bbm2"      , "ba-c" , Bravais::P,  7, 198},
-  { 40, "C2v^16", "B -2b 2"         , "B 2 m b"                        , "B 2 m b"            , "B2mb"      , "cab"  , Bravais::P,  7, 199},
+  { 40, "C2v^16", "B 2 -2b"         , "B b m 2"                        , "B b m 2"            , "Bbm2"      , "ba-c" , Bravais::B,  7, 198},
+  { 40, "C2v^16", "B -2b 2"         , "B 2 m b"                        , "B 2 m b"            , "B2mb"      , "cab"  , Bravais::B,  7, 199},
   { 40, "C2v^16", "C -2c 2"         , "C 2 c m"                        , "C 2 c m"            , "C2cm"      , "-cba" , Bravais::C,  7, 200},
   { 40, "C2v^16", "C -2c -2c"       , "C c 2 m"                        , "C c 2 m"            , "Cc2m"      , "bca"  , Bravais::C,  7, 201},
   { 40, "C2v^16", "A -2a -2a"       , "A m 2 a"                        , "A m 2 a"            , "Am2a"      , "a-cb" , Bravais::A,  7, 202},
   { 41, "C2v^17", "A 2 -2ac"        , "A e a 2"                        , "A e a 2"            , "Aea2"      , ""     , Bravais::A,  7, 203},
-  { 41, "C2v^17", "B 2 -2bc"        , "B b e 2"                        , "B b e 2"            , "Bbe2"      , "ba-c" , Bravais::P,  7, 204},
-  { 41, "C2v^17", "B -2bc 2"        , "B 2 e b"                        , "B 2 e b"            , "B2eb"      , "cab"  , Bravais::P,  7, 205},
+  { 41, "C2v^17", "B 2 -2bc"        , "B b e 2"                        , "B b e 2"            , "Bbe2"      , "ba-c" , Bravais::B,  7, 204},
+  { 41, "C2v^17", "B -2bc 2"        , "B 2 e b"                        , "B 2 e b"            , "B2eb"      , "cab"  , Bravais::B,  7, 205},
   { 41, "C2v^17", "C -2bc 2"        , "C 2 c e"                        , "C 2 c e"            , "C2ce"      , "-cba" , Bravais::C,  7, 206},
   { 41, "C2v^17", "C -2bc -2bc"     , "C c 2 e"                        , "C c 2 e"            , "Cc2e"      , "bca"  , Bravais::C,  7, 207},
   { 41, "C2v^17", "A -2ac -2ac"     , "A e 2 a"                        , "A e 2 a"            , "Ae2a"      , "a-cb" , Bravais::A,  7, 208},
@@ -378,26 +378,26 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 63, "D2h^17", "-C 2c 2c"        , "C c m m"                        , "C 2/c 2/m 2_1/m"    , "Ccmm"      , "ba-c" , Bravais::C,  8, 299},
   { 63, "D2h^17", "-A 2a 2a"        , "A m m a"                        , "A 2_1/m 2/m 2/a"    , "Amma"      , "cab"  , Bravais::A,  8, 300},
   { 63, "D2h^17", "-A 2 2a"         , "A m a m"                        , "A 2_1/m 2/a 2/m"    , "Amam"      , "-cba" , Bravais::A,  8, 301},
-  { 63, "D2h^17", "-B 2 2b"         , "B b m m"                        , "B 2/b 2_1/m 2/m"    , "Bbmm"      , "bca"  , Bravais::P,  8, 302},
-  { 63, "D2h^17", "-B 2b 2"         , "B m m b"                        , "B 2/m 2_1/m 2/b"    , "Bmmb"      , "a-cb" , Bravais::P,  8, 303},
+  { 63, "D2h^17", "-B 2 2b"         , "B b m m"                        , "B 2/b 2_1/m 2/m"    , "Bbmm"      , "bca"  , Bravais::B,  8, 302},
+  { 63, "D2h^17", "-B 2b 2"         , "B m m b"                        , "B 2/m 2_1/m 2/b"    , "Bmmb"      , "a-cb" , Bravais::B,  8, 303},
   { 64, "D2h^18", "-C 2bc 2"        , "C m c e"                        , "C 2/m 2/c 2_1/e"    , "Cmce"      , ""     , Bravais::C,  8, 304},
   { 64, "D2h^18", "-C 2bc 2bc"      , "C c m e"                        , "C 2/c 2/m 2_1/e"    , "Ccme"      , "ba-c" , Bravais::C,  8, 305},
   { 64, "D2h^18", "-A 2ac 2ac"      , "A e m a"                        , "A 2_1/e 2/m 2/a"    , "Aema"      , "cab"  , Bravais::A,  8, 306},
   { 64, "D2h^18", "-A 2 2ac"        , "A e a m"                        , "A 2_1/e 2/a 2/m"    , "Aeam"      , "-cba" , Bravais::A,  8, 307},
-  { 64, "D2h^18", "-B 2 2bc"        , "B b e m"                        , "B 2/b 2_1/e 2/m"    , "Bbem"      , "bca"  , Bravais::P,  8, 308},
-  { 64, "D2h^18", "-B 2bc 2"        , "B m e b"                        , "B 2/m 2_1/e 2/b"    , "Bmeb"      , "a-cb" , Bravais::P,  8, 309},
+  { 64, "D2h^18", "-B 2 2bc"        , "B b e m"                        , "B 2/b 2_1/e 2/m"    , "Bbem"      , "bca"  , Bravais::B,  8, 308},
+  { 64, "D2h^18", "-B 2bc 2"        , "B m e b"                        , "B 2/m 2_1/e 2/b"    , "Bmeb"      , "a-cb" , Bravais::B,  8, 309},
   { 65, "D2h^19", "-C 2 2"          , "C m m m"                        , "C 2/m 2/m 2/m"      , "Cmmm"      , ""     , Bravais::C,  8, 310},
   { 65, "D2h^19", "-A 2 2"          , "A m m m"                        , "A 2/m 2/m 2/m"      , "Ammm"      , "cab"  , Bravais::A,  8, 311},
-  { 65, "D2h^19", "-B 2 2"          , "B m m m"                        , "B 2/m 2/m 2/m"      , "Bmmm"      , "bca"  , Bravais::P,  8, 312},
+  { 65, "D2h^19", "-B 2 2"          , "B m m m"                        , "B 2/m 2/m 2/m"      , "Bmmm"      , "bca"  , Bravais::B,  8, 312},
   { 66, "D2h^20", "-C 2 2c"         , "C c c m"                        , "C 2/c 2/c 2/m"      , "Cccm"      , ""     , Bravais::C,  8, 313},
   { 66, "D2h^20", "-A 2a 2"         , "A m a a"                        , "A 2/m 2/a 2/a"      , "Amaa"      , "cab"  , Bravais::A,  8, 314},
-  { 66, "D2h^20", "-B 2b 2b"        , "B b m b"                        , "B 2/b 2/m 2/b"      , "Bbmb"      , "bca"  , Bravais::P,  8, 315},
+  { 66, "D2h^20", "-B 2b 2b"        , "B b m b"                        , "B 2/b 2/m 2/b"      , "Bbmb"      , "bca"  , Bravais::B,  8, 315},
   { 67, "D2h^21", "-C 2b 2"         , "C m m e"                        , "C 2/m 2/m 2/e"      , "Cmme"      , ""     , Bravais::C,  8, 316},
   { 67, "D2h^21", "-C 2b 2b"        , "C m m e"                        , "C 2/m 2/m 2/e"      , "Cmme"      , "ba-c" , Bravais::C,  8, 317},
   { 67, "D2h^21", "-A 2c 2c"        , "A e m m"                        , "A 2/e 2/m 2/m"      , "Aemm"      , "cab"  , Bravais::A,  8, 318},
   { 67, "D2h^21", "-A 2 2c"         , "A e m m"                        , "A 2/e 2/m 2/m"      , "Aemm"      , "-cba" , Bravais::A,  8, 319},
-  { 67, "D2h^21", "-B 2 2c"         , "B m e m"                        , "B 2/m 2/e 2/m"      , "Bmem"      , "bca"  , Bravais::P,  8, 320},
-  { 67, "D2h^21", "-B 2c 2"         , "B m e m"                        , "B 2/m 2/e 2/m"      , "Bmem"      , "a-cb" , Bravais::P,  8, 321},
+  { 67, "D2h^21", "-B 2 2c"         , "B m e m"                        , "B 2/m 2/e 2/m"      , "Bmem"      , "bca"  , Bravais::B,  8, 320},
+  { 67, "D2h^21", "-B 2c 2"         , "B m e m"                        , "B 2/m 2/e 2/m"      , "Bmem"      , "a-cb" , Bravais::B,  8, 321},
   { 68, "D2h^22", "C 2 2 -1bc"      , "C c c e"                        , "C 2/c 2/c 2/e"      , "Ccce"      , "1"    , Bravais::C,  8, 322},
   { 68, "D2h^22", "-C 2b 2bc"       , "C c c e"                        , "C 2/c 2/c 2/e"      , "Ccce"      , "2"    , Bravais::C,  8, 323},
   { 68, "D2h^22", "C 2 2 -1bc"      , "C c c e"                        , "C 2/c 2/c 2/e"      , "Ccce"      , "1ba-c", Bravais::C,  8, 324},
@@ -406,10 +406,10 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 68, "D2h^22", "-A 2a 2c"        , "A e a a"                        , "A 2/e 2/a 2/a"      , "Aeaa"      , "2cab" , Bravais::A,  8, 327},
   { 68, "D2h^22", "A 2 2 -1ac"      , "A e a a"                        , "A 2/e 2/a 2/a"      , "Aeaa"      , "1-cba", Bravais::A,  8, 328},
   { 68, "D2h^22", "-A 2ac 2c"       , "A e a a"                        , "A 2/e 2/a 2/a"      , "Aeaa"      , "2-cba", Bravais::A,  8, 329},
-  { 68, "D2h^22", "B 2 2 -1bc"      , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "1bca" , Bravais::P,  8, 330},
-  { 68, "D2h^22", "-B 2bc 2b"       , "B b c b"                        , "B 2/b 2/e 2/b"      , "Bbcb"      , "2bca" , Bravais::P,  8, 331},
-  { 68, "D2h^22", "B 2 2 -1bc"      , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "1a-cb", Bravais::P,  8, 332},
-  { 68, "D2h^22", "-B 2b 2bc"       , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "2a-cb", Bravais::P,  8, 333},
+  { 68, "D2h^22", "B 2 2 -1bc"      , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "1bca" , Bravais::B,  8, 330},
+  { 68, "D2h^22", "-B 2bc 2b"       , "B b c b"                        , "B 2/b 2/e 2/b"      , "Bbcb"      , "2bca" , Bravais::B,  8, 331},
+  { 68, "D2h^22", "B 2 2 -1bc"      , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "1a-cb", Bravais::B,  8, 332},
+  { 68, "D2h^22", "-B 2b 2bc"       , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "2a-cb", Bravais::B,  8, 333},
   { 69, "D2h^23", "-F 2 2"          , "F m m m"                        , "F 2/m 2/m 2/m"      , "Fmmm"      , ""     , Bravais::F,  8, 334},
   { 70, "D2h^24", "F 2 2 -1d"       , "F d d d"                        , "F 2/d 2/d 2/d"      , "Fddd"      , "1"    , Bravais::F,  8, 335},
   { 70, "D2h^24", "-F 2uv 2vw"      , "F d d d"                        , "F 2/d 2/d 2/d"      , "Fddd"      , "2"    , Bravais::F,  8, 336},
-- 
2.43.0


From 0c6f50779c995857064d740075f748988ccb1d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:59 +0000
Subject: [PATCH 31/87] fix: international number 230 has a Hall number

---
 src/spg_database.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spg_database.cpp b/src/spg_database.cpp
index 81b31b4..2a9f726 100644
--- a/src/spg_database.cpp
+++ b/src/spg_database.cpp
@@ -612,7 +612,7 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
 bool brille::hall_number_ok(const int h) {return h>0 && h<531;}
 
 int brille::international_number_to_hall_number(const int n, const std::string& c){
-	if (n>=0 && n<230) for (int i=1; i<531; i++){
+	if (n>=0 && n<=230) for (int i=1; i<531; i++){
 		Spacegroup spg(ALL_SPACEGROUPS[i]);
     if (n==spg.number && (0==c.size() || 0==c.compare(spg.choice))) return i;
 	}
-- 
2.43.0


From 4d30d05eebb4d619671b0d53428e0f1f7b8f1f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:43 +0000
Subject: [PATCH 32/87] fix: repeated primes in a Hall symbol are the axis they
 stand for

---
 src/hall_symbol.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hall_symbol.cpp b/src/hall_symbol.cpp
index 1dccc68..c3a3c7e 100644
--- a/src/hall_symbol.cpp
+++ b/src/hall_symbol.cpp
@@ -105,7 +105,7 @@ bool HallSymbol::from_ascii(const std::string& s){
 bool HallSymbol::validate(){
   // verify that everything went ok
   bool ok = brille::bravais_is_known(this->L);
-  for (auto ss: this->symbols) ok &= ss.validate();
+  for (auto & ss: this->symbols) ok &= ss.validate();
   // further validation could be possible by finding the full spacegroup
   return ok;
 }
-- 
2.43.0


From fe3b8944849f01e1225534991c7f3be7ad3ed0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:43 +0000
Subject: [PATCH 33/87] fix: text of a Hall symbol includes its origin shift

---
 src/hall_symbol.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/hall_symbol.cpp b/src/hall_symbol.cpp
index c3a3c7e..daa0aae 100644
--- a/src/hall_symbol.cpp
+++ b/src/hall_symbol.cpp
@@ -15,6 +15,7 @@ See the GNU Affero General Public License for more details.
 You should have received a copy of the GNU Affero General Public License
 along with brille. If not, see <https://www.gnu.org/licenses/>.            */
 
+#include <cmath>
 #include "hall_symbol.hpp"
 #include "bravais.hpp" // for bravais_letter
 using namespace brille;
@@ -164,6 +165,14 @@ std::string HallSymbol::to_ascii() const {
   if (this->centrosymmetric) s += "-";
   s += brille::bravais_letter(this->L);
   for (auto z: this->symbols) s += " " + z.to_ascii();
+  // a change of basis is an origin shift, which is written in twelfths
+  if (!this->V.has_identity_translation()){
+    auto shift = this->V.gett();
+    s += " (";
+    for (size_t i=0; i<3u; ++i)
+      s += (i ? " " : "") + std::to_string(std::lround(12*shift[i]));
+    s += ")";
+  }
   return s;
 }
 
-- 
2.43.0


From c91624842758b6cf92f06e4601bef7a78b282729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:10 +0000
Subject: [PATCH 34/87] fix: Schoenflies symbol of the point group 32

---
 src/pointgroup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointgroup.cpp b/src/pointgroup.cpp
index 5a90f89..cfce8dd 100644
--- a/src/pointgroup.cpp
+++ b/src/pointgroup.cpp
@@ -98,7 +98,7 @@ static PointgroupType pointgroup_data[33] = {
   {/*15*/{0,2,0,5,1,1,5,0,2,0},"4/mmm","D4h",Holohedry::tetragonal,Laue::_4mmm,},
   {/*16*/{0,0,0,0,0,1,0,2,0,0},"3"    ,"C3" ,Holohedry::trigonal  ,Laue::_3   ,},
   {/*17*/{0,0,2,0,1,1,0,2,0,0},"-3"   ,"C3i",Holohedry::trigonal  ,Laue::_3   ,},
-  {/*18*/{0,0,0,0,0,1,3,2,0,0},"32"   ,"D3 ",Holohedry::trigonal  ,Laue::_3m  ,},
+  {/*18*/{0,0,0,0,0,1,3,2,0,0},"32"   ,"D3" ,Holohedry::trigonal  ,Laue::_3m  ,},
   {/*19*/{0,0,0,3,0,1,0,2,0,0},"3m"   ,"C3v",Holohedry::trigonal  ,Laue::_3m  ,},
   {/*20*/{0,0,2,3,1,1,3,2,0,0},"-3m"  ,"D3d",Holohedry::trigonal  ,Laue::_3m  ,},
   {/*21*/{0,0,0,0,0,1,1,2,0,2},"6"    ,"C6" ,Holohedry::hexagonal ,Laue::_6m  ,},
-- 
2.43.0


From 677c10b10dec015eb931e9c1d6332e0a0252d70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:10 +0000
Subject: [PATCH 35/87] fix: collecting the unique rotations of a list reads
 past those found so far

---
 src/pointgroup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointgroup.cpp b/src/pointgroup.cpp
index cfce8dd..15178bf 100644
--- a/src/pointgroup.cpp
+++ b/src/pointgroup.cpp
@@ -229,7 +229,7 @@ PointSymmetry brille::ptg_get_pointsymmetry(const int *rotations, const int num_
   // so that our outer for loop can start from the second one
   for (int i = 1; i < num_rotations; i++) {
     bool isunique = true;
-    for (int j = 0; j < num_rotations; j++)
+    for (size_t j = 0; j < pointsym.size(); j++)
       if ( brille::utils::equal_matrix(rotations+i*9, pointsym.data(j)) ){
        isunique = false;
        break;
-- 
2.43.0


From 9591279d8d864f45d2fe1b910bcdc3496f314a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:34 +0000
Subject: [PATCH 36/87] fix: a point group transformation that is not found is
 reported

---
 src/pointgroup.cpp | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/pointgroup.cpp b/src/pointgroup.cpp
index 15178bf..d0d5801 100644
--- a/src/pointgroup.cpp
+++ b/src/pointgroup.cpp
@@ -347,16 +347,16 @@ static int get_axes(int axes[3], const Laue laue, const PointSymmetry & pointsym
 {
   switch (laue) {
   case Laue::_1   : axes[0] = 0; axes[1] = 1; axes[2] = 2; break;
-  case Laue::_2m  : laue2m(axes, pointsym); break;
-  case Laue::_mmm : lauennn(axes, pointsym, 2); break;
-  case Laue::_4m  : laue_one_axis(axes, pointsym, 4); break;
-  case Laue::_4mmm: laue_one_axis(axes, pointsym, 4); break;
-  case Laue::_3   : laue_one_axis(axes, pointsym, 3); break;
-  case Laue::_3m  : laue_one_axis(axes, pointsym, 3); break;
-  case Laue::_6m  : laue_one_axis(axes, pointsym, 3); break;
-  case Laue::_6mmm: laue_one_axis(axes, pointsym, 3); break;
-  case Laue::_m3  : lauennn(axes, pointsym, 2); break;
-  case Laue::_m3m : lauennn(axes, pointsym, 4); break;
+  case Laue::_2m  : return laue2m(axes, pointsym);
+  case Laue::_mmm : return lauennn(axes, pointsym, 2);
+  case Laue::_4m  : return laue_one_axis(axes, pointsym, 4);
+  case Laue::_4mmm: return laue_one_axis(axes, pointsym, 4);
+  case Laue::_3   : return laue_one_axis(axes, pointsym, 3);
+  case Laue::_3m  : return laue_one_axis(axes, pointsym, 3);
+  case Laue::_6m  : return laue_one_axis(axes, pointsym, 3);
+  case Laue::_6mmm: return laue_one_axis(axes, pointsym, 3);
+  case Laue::_m3  : return lauennn(axes, pointsym, 2);
+  case Laue::_m3m : return lauennn(axes, pointsym, 4);
 	default: axes[0] = axes[1] = axes[2] = 0; return 0;
   }
   return 1;
@@ -379,6 +379,7 @@ static int laue2m(int axes[3], const PointSymmetry & pointsym)
 	    break;
 		}
   }
+	if (axes[1] < 0) return 0; // only the tabulated axes can be used here
   // find all unique crystallographic point group rotation axes
 	// which are perpendicular to the proper rotation (with rotation axis axes[1])
   num_ortho_axis = get_orthogonal_axis(ortho_axes, prop_rot, 2);
@@ -393,7 +394,10 @@ static int laue2m(int axes[3], const PointSymmetry & pointsym)
 		norm_squared[i] = brille::utils::vector_norm_squared(rot_axes[ortho_axes[i]]);
 		if (norm_squared[i] < max_norm - ZERO_PREC) ++below_count;
 	}
-	if (below_count < 2) return 0;
+	if (below_count < 2) {
+		delete[] norm_squared;
+		return 0;
+	}
 
 	// check all orthogonal axes for the shortest one with squared length < 8
 	/* the vectors [v: rot_axes] have |v|² ϵ {1, 2, 3, 5, 6, 11, 14} so we are
@@ -432,7 +436,7 @@ static int laue2m(int axes[3], const PointSymmetry & pointsym)
 
 static int laue_one_axis(int axes[3], const PointSymmetry & pointsym, const int rot_order)
 {
-  int num_ortho_axis, is_found=0;
+  int num_ortho_axis;
   int axis_vec[3], prop_rot[9], t_mat[9];
   int ortho_axes[NUM_ROT_AXES];
 
@@ -449,6 +453,7 @@ static int laue_one_axis(int axes[3], const PointSymmetry & pointsym, const int
       break;
     }
   }
+	if (axes[2] < 0) return 0; // only the tabulated axes can be used here
 	// find all unique crystallographic point group rotation axes
 	// which are perpendicular to the proper rotation (with rotation axis axes[1])
 	num_ortho_axis = get_orthogonal_axis(ortho_axes, prop_rot, rot_order);
@@ -462,15 +467,13 @@ static int laue_one_axis(int axes[3], const PointSymmetry & pointsym, const int
   for (int i = 0; i < num_ortho_axis; i++) {
     axes[0] = ortho_axes[i];
     brille::utils::multiply_matrix_vector(axis_vec, prop_rot, rot_axes[axes[0]]);
+    int minus_vec[3]{-axis_vec[0], -axis_vec[1], -axis_vec[2]};
     for (int j = 0; j < num_ortho_axis; j++) {
+			int is_found{0};
 			if (brille::utils::equal_vector<int,3>(axis_vec, rot_axes[ortho_axes[j]]))
 				is_found = 1;
-			if (!is_found){
-				for (int k=0; k<3; ++k)
-					axis_vec[k] *= -1;
-				if (brille::utils::equal_vector<int,3>(axis_vec, rot_axes[ortho_axes[j]]))
-					is_found = -1;
-			}
+			else if (brille::utils::equal_vector<int,3>(minus_vec, rot_axes[ortho_axes[j]]))
+				is_found = -1;
 			if (is_found){
 				axes[1] = ortho_axes[j] + (is_found < 0 ? NUM_ROT_AXES : 0);
 				axes_found = true;
@@ -508,11 +511,12 @@ static int lauennn(int axes[3], const PointSymmetry & pointsym, const int rot_or
 		if ((tr == -1 && rot_order == 2) || (tr==1 && rot_order==4)){
 			axis = get_rotation_axis(prop_rot);
 			if (axis!=axes[0] && axis!=axes[1] && axis!=axes[2]){
-				if (count >= 3) return 0; // something has gone wrong if there are more than three unique n-fold axes
+				if (axis < 0 || count >= 3) return 0; // something has gone wrong if there are more than three unique n-fold axes
 				axes[count++] = axis;
 			}
 		}
   }
+	if (count < 3) return 0;
 	// sort the axes:
 	if (axes[1] > axes[2] + ZERO_PREC){
 		axis = axes[1]; axes[1]=axes[2]; axes[2] = axis;
-- 
2.43.0


From 891de4ee8fff7ab733d6f914877d3608754625e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:17 +0000
Subject: [PATCH 37/87] fix: the stationary axis of an operation is found in
 any basis

---
 src/pointgroup.cpp | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/pointgroup.cpp b/src/pointgroup.cpp
index d0d5801..52c948e 100644
--- a/src/pointgroup.cpp
+++ b/src/pointgroup.cpp
@@ -55,6 +55,7 @@ along with brille. If not, see <https://www.gnu.org/licenses/>.            */
  POSSIBILITY OF SUCH DAMAGE. */
 
 #include <algorithm>
+#include <numeric>
 #include <string.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -665,13 +666,48 @@ int brille::get_pointgroup_rotations_hall_number(int *rotations, const int max_s
 	return num_unique;
 }
 
+/*! \brief Find the stationary axis of a proper rotation which is not one of the tabulated axes
+
+The tabulated axes cover all standard settings. In any other basis each column of
+S = ∑ᵢ₌₁ⁿ Rⁱ is parallel to the stationary axis.
+*/
+static std::array<std::array<int,3>,3> untabulated_axis_and_perpendicular_vectors(const int* prop_rot){
+	using vec_t = std::array<int,3>;
+	auto shortest = [](vec_t v){
+		int n = std::gcd(std::gcd(v[0], v[1]), v[2]);
+		if (n) for (auto & x: v) x /= n;
+		return v;
+	};
+	auto norm = [](const vec_t& v){ return v[0]*v[0] + v[1]*v[1] + v[2]*v[2]; };
+	int sum_rot[9]={0,0,0, 0,0,0, 0,0,0}, rot[9]={1,0,0, 0,1,0, 0,0,1};
+	for (int i=0; i<brille::rotation_order(prop_rot); ++i){
+		int tmp[9];
+		brille::utils::multiply_matrix_matrix(tmp, prop_rot, rot);
+		brille::utils::copy_matrix(rot, tmp);
+		brille::utils::add_matrix(sum_rot, rot, sum_rot);
+	}
+	vec_t a{{0,0,0}};
+	for (int i=0; i<3 && !norm(a); ++i) a = shortest({sum_rot[i], sum_rot[i+3], sum_rot[i+6]});
+	// the sign must not depend on which rotation about the axis this is
+	int first = a[0] ? a[0] : a[1] ? a[1] : a[2];
+	if (first < 0) for (auto & x: a) x *= -1;
+	// at least two of these are finite and not parallel, as a is not along a basis vector
+	std::array<vec_t,3> p{{shortest({0,a[2],-a[1]}), shortest({-a[2],0,a[0]}), shortest({a[1],-a[0],0})}};
+	std::sort(p.begin(), p.end(), [&](const vec_t& x, const vec_t& y){return norm(x) < norm(y);});
+	auto parallel = [](const vec_t& x, const vec_t& y){
+		return x[0]*y[1] == x[1]*y[0] && x[1]*y[2] == x[2]*y[1] && x[0]*y[2] == x[2]*y[0];
+	};
+	return {{a, p[0], parallel(p[0], p[1]) ? p[2] : p[1]}};
+}
+
 std::array<std::array<int,3>,3> brille::rotation_axis_and_perpendicular_vectors(const int* rot){
 	int prop_rot[9];
 	std::array<std::array<int,3>,3> out {{ {{0, 0, 0}}, {{0, 0, 0}}, {{0, 0, 0}} }};
 
 	get_proper_rotation(prop_rot, rot);
+	if (brille::utils::equal_matrix(prop_rot, identity)) return out;
 	int axis = get_rotation_axis(prop_rot);
-	if (axis < 0) return out;
+	if (axis < 0) return untabulated_axis_and_perpendicular_vectors(prop_rot);
 
 	out[0] = {rot_axes[axis][0], rot_axes[axis][1], rot_axes[axis][2]};
 	int ortho[NUM_ROT_AXES], norm[NUM_ROT_AXES];
-- 
2.43.0


From 16b1e8fcd30e78d3cc8014c661363f95a80f8f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:41 +0000
Subject: [PATCH 38/87] fix: axes orthogonal to a rotation

---
 src/pointgroup.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pointgroup.cpp b/src/pointgroup.cpp
index 52c948e..2e869ef 100644
--- a/src/pointgroup.cpp
+++ b/src/pointgroup.cpp
@@ -580,7 +580,9 @@ static int get_orthogonal_axis(int ortho_axes[], const int *proper_rot, const in
   int vec[3];
   int sum_rot[9]={0,0,0, 0,0,0, 0,0,0}, rot[9]={1,0,0, 0,1,0, 0,0,1};
   for (i = 0; i < rot_order; i++) {
-    brille::utils::multiply_matrix_matrix(rot, proper_rot, rot);
+    int tmp[9]; // the product can not be stored in one of its operands
+    brille::utils::multiply_matrix_matrix(tmp, proper_rot, rot);
+    brille::utils::copy_matrix(rot, tmp);
     brille::utils::add_matrix(sum_rot, rot, sum_rot);
   }
   for (i = 0; i < NUM_ROT_AXES; i++) {
-- 
2.43.0


From e195b10cc2e177a6ca719760aed6a948e6716bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:55 +0000
Subject: [PATCH 39/87] fix: the primitive transformation of a primitive
 lattice is the identity

---
 src/primitive.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitive.hpp b/src/primitive.hpp
index d87794a..d33e037 100644
--- a/src/primitive.hpp
+++ b/src/primitive.hpp
@@ -118,7 +118,7 @@ public:
     case Bravais::B: return { 3, 0,-3,  0, 6, 0,  3, 0, 3};
     case Bravais::C: return { 3, 3, 0, -3, 3, 0,  0, 0, 6};
     case Bravais::R: return { 4,-2,-2,  2, 2,-4,  2, 2, 2};
-    default: return {6,6,6, 6,6,6, 6,6,6};
+    default: return { 6, 0, 0,  0, 6, 0,  0, 0, 6};
     }
   }
   /*! \brief Return the inverse of the transformation matrix P
-- 
2.43.0


From b6620af441a1830bf724bd4b2decd6bf2bcd344a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:27 +0000
Subject: [PATCH 40/87] fix: integer lattice vectors without integer components
 in the other lattice are refused

---
 src/transform.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/transform.hpp b/src/transform.hpp
index fc76602..623360e 100644
--- a/src/transform.hpp
+++ b/src/transform.hpp
@@ -35,6 +35,18 @@ using sixPtype = PrimitiveTraits::sixP;
 //! The datatype of the inverse P PrimitiveTransform matrix
 using invPtype = PrimitiveTraits::invP;
 
+/*! \brief Remove the factor of six from vectors multiplied by 6*P
+
+Integer vectors can only hold the result if all components are multiples of six
+*/
+template<class S> void divide_by_six(LVec<S>& v){
+  if constexpr (std::is_integral_v<S>) {
+    for (const auto & x: v.valItr()) if (x % S(6))
+      throw std::runtime_error("The transformed vector does not have integer components");
+  }
+  v /= S(6);
+}
+
 /*! \brief transform_to_primitive(Reciprocal, LQVec)
 
   Takes a Reciprocal lattice, plus a reciprocal lattice
@@ -94,7 +106,7 @@ LVec<S> transform_to_primitive(const Lattice<double>& lat, const LVec<T>& a){
   for (auto x: a.subItr(sh))
     brille::utils::multiply_matrix_vector(out.ptr(x), transform.data(), a.ptr(x));
   if (LengthUnit::inverse_angstrom == lu){
-    out /= S(6); // correct for having used 6 * Pt
+    divide_by_six(out); // correct for having used 6 * Pt
   }
   return out;
 }
@@ -152,7 +164,7 @@ LVec<S> transform_from_primitive(const Lattice<double>& lat, const LVec<T>& a){
   for (auto x: a.subItr(sh))
     brille::utils::multiply_matrix_vector(out.ptr(x), transform.data(), a.ptr(x));
   if (LengthUnit::angstrom == lu){
-    out /= S(6); // since we used 6P instead of P
+    divide_by_six(out); // since we used 6P instead of P
   }
   return out;
 }
@@ -186,7 +198,7 @@ LVec<S> parallel_transform_to_primitive(const Lattice<double>& lat, const LVec<T
   }
 
   if (LengthUnit::inverse_angstrom == lu){
-    out /= S(6); // correct for having used 6 * Pt
+    divide_by_six(out); // correct for having used 6 * Pt
   }
   return out;
 }
@@ -226,7 +238,7 @@ LVec<S> parallel_transform_from_primitive(const Lattice<double>& lat, const LVec
   }
 
   if (LengthUnit::angstrom == lu){
-    out /= S(6); // since we used 6P instead of P
+    divide_by_six(out); // since we used 6P instead of P
   }
   return out;
 }
-- 
2.43.0


From b770b3398be8e327a744f2d4a18510a430f172d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:17 +0000
Subject: [PATCH 41/87] fix: the free sum of an array or lattice vectors can be
 called

---
 src/array_functions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/array_functions.hpp b/src/array_functions.hpp
index 17924fc..8ec3a47 100644
--- a/src/array_functions.hpp
+++ b/src/array_functions.hpp
@@ -464,13 +464,13 @@ operator*(const std::array<R,9>& m, const L<T>& a){
   // sum(bArray)
   template<class T, template<class> class A>
   std::enable_if_t<isBareArray<T,A>, A<T>>
-  sum(const A<T>& a, typename A<T>::ind_t dim){
+  sum(const A<T>& a, const brille::ind_t dim){
     return a.sum(dim);
   }
   // sum(LatVec)
   template<class T, template<class> class A>
   std::enable_if_t<isLatVec<T,A>, A<T>>
-  sum(const A<T>& a, typename A<T>::ind_t dim){
+  sum(const A<T>& a, const brille::ind_t dim){
     return A<T>(a.type(), a.lattice(), a.sum(dim));
   }
 #else
-- 
2.43.0


From 0fdccf5e9ad55bebd05b3b3aa75f35cd611b9dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:17 +0000
Subject: [PATCH 42/87] fix: the free star of lattice vectors keeps their
 Cartesian value

---
 src/array_functions.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/array_functions.hpp b/src/array_functions.hpp
index 8ec3a47..4f5ea9e 100644
--- a/src/array_functions.hpp
+++ b/src/array_functions.hpp
@@ -413,6 +413,7 @@ star(const L<T>& v){
   vsh.back() = 0;
   for (auto x: v.subItr(vsh)) // iterate over all but the last dimension
     brille::utils::multiply_matrix_vector(vstar.ptr(x), covariant_metric.data(), v.ptr(x));
+  vstar /= math::two_pi; // the metric takes v to 2π its representation in the dual lattice
   return vstar;
 }
 
-- 
2.43.0


From 48f6c4e901b8351230cd3420ace9750c3632859d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:17 +0000
Subject: [PATCH 43/87] fix: lattices built from equal parameters compare equal
 despite rounding

---
 src/lattice_dual.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lattice_dual.hpp b/src/lattice_dual.hpp
index acceaf6..f0070f5 100644
--- a/src/lattice_dual.hpp
+++ b/src/lattice_dual.hpp
@@ -634,7 +634,15 @@ public:
     // two lattices are *the* same if their basis vectors are the same
     auto bv = o.real_basis_vectors();
     auto rbv = o.reciprocal_basis_vectors();
-    return approx_float::equal(bv, _real_vectors) && approx_float::equal(rbv, _reciprocal_vectors);
+    // rounding errors scale with the size of the basis vectors, not with that of each of their components
+    auto close = [](const auto & x, const matrix_t & y){
+      T largest{0};
+      for (const auto & z: y) largest = std::max(largest, std::abs(z));
+      const T tolerance = largest * std::numeric_limits<T>::epsilon() * T(approx_float::TOL_MULT);
+      for (size_t i=0; i<9u; ++i) if (!(std::abs(x[i] - y[i]) <= tolerance)) return false;
+      return true;
+    };
+    return close(bv, _real_vectors) && close(rbv, _reciprocal_vectors);
   }
   template<class R>
   [[nodiscard]] bool is_equivalent(const Impl<R>& o) const {
-- 
2.43.0


From 686309d6796243203590458f81b2d592c9d705c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:40 +0000
Subject: [PATCH 44/87] fix: combining lattice vectors of unrelated lattices is
 refused

---
 src/array_functions.hpp | 4 ++--
 src/array_lvec.hpp      | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/array_functions.hpp b/src/array_functions.hpp
index 4f5ea9e..258028e 100644
--- a/src/array_functions.hpp
+++ b/src/array_functions.hpp
@@ -57,7 +57,7 @@ ARRAY_ARRAY_OP(/)
 #define ARRAY_ARRAY_OP(X) template<class T, class R, template<class> class A, class S = std::common_type_t<T,R>>\
 std::enable_if_t<bothLatVecs<T,A,R,A>, A<S>>\
 operator X (const A<T>& a, const A<R>& b){\
-  assert(a.same_lattice(b));\
+  if (!a.same_lattice(b)) throw std::runtime_error("Lattice vectors must be in the same lattice for operation " #X);\
   auto itr = a.broadcastItr(b);\
   A<S> out(a.type(), a.lattice(), itr.shape());\
   for (auto [ox, ax, bx]: itr) out[ox] = a[ax] X b[bx];\
@@ -197,7 +197,7 @@ ARRAY_LATVEC_BINARY_OP(/)
   template<class T, class R, template<class> class L, class S=std::common_type_t<std::common_type_t<T, R>, double>>
   std::enable_if_t<bothLatVecs<T,L,R,L>, L<S>>
   cross(const L<T>& a, const L<R>& b) {
-    assert( a.same_lattice(b) );
+    if (!a.same_lattice(b)) throw std::runtime_error("the cross product between Lattice Vectors requires the same lattice");
     auto oarray = cross(a.hkl(), b.hkl());
     // setup the output array
     auto lat = a.lattice();
diff --git a/src/array_lvec.hpp b/src/array_lvec.hpp
index 263f347..3606705 100644
--- a/src/array_lvec.hpp
+++ b/src/array_lvec.hpp
@@ -62,6 +62,9 @@ operator X (const T& v){\
 template<template<class> class A>\
 std::enable_if_t<isArray<T,A>, L <T>>&\
 operator X (const A<T>& b){\
+  if constexpr (isLatVec<T,A>) {\
+    if (!same_lattice(b)) throw std::runtime_error(#L " objects must be in the same lattice for operation " #X);\
+  }\
   auto itr = this->broadcastItr(b.shape());\
   if (!equal_shapes(itr.shape(), this->shape())) { \
     std::string msg="Incompatible shaped " + std::string(#L) + " arrays ";  \
-- 
2.43.0


From 6c6c203171ebe58140d1d40bca9188162f3a3f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:18 +0000
Subject: [PATCH 45/87] fix: snapping basis vectors to the symmetry keeps their
 orientation

---
 src/lattice_dual.hpp | 39 ++++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/src/lattice_dual.hpp b/src/lattice_dual.hpp
index f0070f5..deaa89e 100644
--- a/src/lattice_dual.hpp
+++ b/src/lattice_dual.hpp
@@ -22,31 +22,24 @@ standard_orientation_matrix(const std::array<T, 9>& bv){
    *   [ay, by, cy],
    *   [az, bz, cz]] --> {ax, bx, cx, ay, by, cy, az, bz, cz}
    *
-   *   Find the rotation matrix which takes us to the standard upper triangular
-   *   form with flattened matrix {a, bx, cx, 0, by, cy, 0, 0, cz}
+   *   Find the orthogonal matrix which takes us to the standard upper triangular
+   *   form with flattened matrix {a, bx, cx, 0, by, cy, 0, 0, cz} and a, by, cz > 0
+   *   That is the matrix with rows along a, perpendicular to a in the (a, b)
+   *   plane, and perpendicular to that plane on the same side as c.
    * */
-	// Avoid (0, -1) -> pi in std::atan2:
-	auto arctan = [](T x, T y){return std::abs(x) ? std::atan2(x, y) : 0.;};
-  // tan(mu) = -ay / az
-  S mu = arctan(-bv[3], bv[6]);
-  auto [c_mu, s_mu] = math::cos_and_sin(mu);
-
-  // tan(nu) = -az / (ax * cos(mu))
-  S nu = arctan(-bv[6], bv[0] * c_mu);
-  auto [c_nu, s_nu] = math::cos_and_sin(nu);
-
-  // tan(xi) = (bx sin(nu) - by cos(nu) sin(mu) + bz cos(nu) cos(mu)) / (by cos(mu) + bz sin(mu))
-  S num = bv[1] * s_nu - bv[4] * c_nu * s_mu + bv[7] * c_nu * c_mu;
-  S den = bv[4] * c_mu + bv[7] * s_mu;
-  S xi = arctan(num, den);
-  auto [c_xi, s_xi] = math::cos_and_sin(xi);
-
-  // Rotation matrix, verified 'by hand' multiple times.
-  std::array<S,9> rotation_matrix{
-      {c_nu,                              s_nu * s_mu,                      -s_nu * c_mu,
-       s_xi * s_nu,  c_xi * c_mu - s_xi * c_nu * s_mu,  c_xi * s_mu + s_xi * c_nu * c_mu,
-       c_xi * s_nu, -s_xi * c_mu - c_xi * c_nu * s_mu, -s_xi * s_mu + c_xi * c_nu * c_mu}
+  std::array<S,3> a{{bv[0], bv[3], bv[6]}}, b{{bv[1], bv[4], bv[7]}}, c{{bv[2], bv[5], bv[8]}};
+  auto normalise = [](std::array<S,3> & x){
+    auto n = linear_algebra::norm(x);
+    for (auto & y: x) y /= n;
   };
+  normalise(a);
+  auto a_dot_b = linear_algebra::dot(a, b);
+  for (size_t i=0; i<3u; ++i) b[i] -= a_dot_b * a[i];
+  normalise(b);
+  std::array<S,3> n{{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}};
+  if (linear_algebra::dot(n, c) < S(0)) for (auto & x: n) x = -x;
+
+  std::array<S,9> rotation_matrix{{a[0], a[1], a[2], b[0], b[1], b[2], n[0], n[1], n[2]}};
   return rotation_matrix;
 }
 
-- 
2.43.0


From 51e9534258ad4034f362ce103bd82866524211f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:15 +0000
Subject: [PATCH 46/87] fix: snapping lengths, angles and basis vectors to the
 symmetry makes them obey it

---
 src/lattice_dual.hpp | 100 ++++++++++++++-----------------------------
 1 file changed, 33 insertions(+), 67 deletions(-)

diff --git a/src/lattice_dual.hpp b/src/lattice_dual.hpp
index deaa89e..80c3b13 100644
--- a/src/lattice_dual.hpp
+++ b/src/lattice_dual.hpp
@@ -301,77 +301,43 @@ private:
     }
   }
   bool snap_to_symmetry(bool is_real, std::array<T, 3>& v, std::array<T, 3>& c, std::array<T, 3>& s){
-    /* Averaging is likely to reduce precision, so only do so if necessary */
-    auto equal2 = [](const T x, const T y){ return (x == y) ? x : (x + y) / T(2); };
-    auto equal3 = [](const T x, const T y, const T z){ return (x == y && y == z) ? x : (x + y + z) / T(3); };
-    // check if centring can give us a hint:
-    /* If the Lattice has spacegroup operations with centering is it *not*
-     * primitive. If the centering indicates that it is Rhombohedral then
-     * it is actually the Hexagonal setting of a rhombohedral lattice, so
-     * two angles must be 90 degrees and the third 120 degrees.
-     * If it is A,B,C Face centred, I Body centred, F face centred, then
-     * the symmetry-constrained angles *must* be 90 degrees.
-     * */
-    // don't use the stored Bravais value in case of user error?
-    bool centring_hint{_space.getcentring() != Bravais::P};
-    bool second_hint{centring_hint && _space.getcentring() != Bravais::R};
-    // determine if basis vectors are connected by symmetry operations
-    std::vector<std::array<int,3>> eis {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
-    // (a-b, b-c, c-a), (a*-b*, b*-c*, c*-a*)
-    bool main[3]{false, false, false}, dual[3]{false, false, false};
-    for (size_t i=0; i<3u; ++i){
-      const auto j{(i+1)%3u};
-      // Real lattice vectors rotate like v' = R v
-      main[i] = _point.mat_vec_links(eis[i], eis[j]);
-      // Reciprocal lattice vectors rotate like q' = tr(R) q = tr(tr(q) R)
-      dual[i] = _point.vec_mat_links(eis[i], eis[j]);
+    /* The metric of a lattice is not changed by its symmetry operations. Take
+     * the average of the metrics found by applying all operations if it is not.
+     *
+     * Vectors of the real lattice transform as x' = W x and those of the
+     * reciprocal lattice as q' = transpose(inverse(W)) q, so the operations
+     * leave transpose(W) G W, or W G* transpose(W), the same.                */
+    const T epsilon = std::numeric_limits<T>::epsilon();
+    matrix_t metric, average{{0, 0, 0, 0, 0, 0, 0, 0, 0}};
+    for (size_t i=0; i<3u; ++i) for (size_t j=0; j<3u; ++j) {
+      metric[3u * i + j] = v[i] * v[j] * (i == j ? T(1) : c[3u - i - j]);
     }
-    // if we're dealing with Reciprocal lattice parameters, then main and dual
-    // need to be swapped!
-    if (!is_real) std::swap(main, dual);
-    // stash the original lengths and cosines to check for changes
-    std::array<T,3> orig_v{v}, orig_cos{c};
-    if (main[0] && main[1]) {
-      /* All 'main' basis vectors are mapped to each other; so they must all  *
-       * have the same length:                                                */
-      v[0] = v[1] = v[2] = equal3(v[0], v[1], v[2]);
-      if (dual[0] && dual[1]) {
-        /* All 'dual' basis vectors are mapped, so the 'main' basis vector    *
-         * angles must be the same as well. If the lattice is centred then
-         * they all must be exactly 90 degrees, so the cos(angle)=0.0; !      */
-        c[0] = c[1] = c[2] = centring_hint ? T(0) : equal3(c[0], c[1], c[2]);
-        s[0] = s[1] = s[2] = centring_hint ? T(1) : std::sqrt(1 - c[0] * c[0]);
-      } else for (size_t i=0; i<3u; ++i) if (dual[i]) {
-        const auto j{(i + 1) % 3u};
-        c[i] = c[j] = second_hint ? T(0) : equal2(c[i], c[j]);
-        s[i] = s[j] = second_hint ? T(1) : std::sqrt(1 - c[i] * c[i]);
-      }
-    } else for (size_t i=0; i<3u; ++i) if (main[i]) {
-      const auto j{(i + 1) % 3u};
-      v[i] = v[j] = equal2(v[i], v[j]);
-      if (dual[0] && dual[1]){
-        throw std::runtime_error("How can more than two dual-vectors be mapped when only two real-vectors are mapped?");
-      }
-      for (size_t k=0; k<3u; ++k) if(k!=i && dual[k]){
-        throw std::runtime_error("How can a dual-vector be mapped if its real-vector is not mapped?");
-      }
-      if (dual[i]) {
-        if (centring_hint && _space.getcentring() == Bravais::R) {
-          const auto k{(i + 2) % 3u};
-          std::tie(c[k], s[k]) = math::cos_and_sin_d(is_real ? T(120) : T(60));
-        }
-        c[i] = c[j] = centring_hint ? T(0) : equal2(c[i], c[j]);
-        s[i] = s[j] = centring_hint ? T(1) : std::sqrt(1 - c[i] * c[i]);
-      }
+    const auto operations = _point.getall();
+    if (operations.empty()) return false;
+    for (const auto & op: operations) {
+      matrix_t w;
+      std::transform(op.begin(), op.end(), w.begin(), [](const auto & x){return static_cast<T>(x);});
+      const auto left = is_real ? transpose(w) : w;
+      const auto right = is_real ? w : transpose(w);
+      const auto image = linear_algebra::mul_mat_mat(left, linear_algebra::mul_mat_mat(metric, right));
+      for (size_t i=0; i<9u; ++i) average[i] += image[i] / static_cast<T>(operations.size());
     }
-
+    /* Averaging is likely to reduce precision, so only do so if necessary */
     bool changed{false};
-    if (main[0] || main[1] || main[2]){
+    for (size_t i=0; i<3u; ++i) for (size_t j=0; j<3u; ++j) {
+      const auto difference = std::abs(average[3u * i + j] - metric[3u * i + j]);
+      if (difference > T(20) * epsilon * v[i] * v[j]) changed = true;
+      // angles this far from those required are a mistake, which should not be hidden
+      const auto cosine = average[3u * i + j] / std::sqrt(average[4u * i] * average[4u * j]);
+      if (i != j && std::abs(cosine - c[3u - i - j]) > T(0.1)) return false;
+    }
+    if (changed) {
+      for (size_t i=0; i<3u; ++i) v[i] = std::sqrt(average[4u * i]);
       for (size_t i=0; i<3u; ++i) {
-        if (!approx_float::scalar(orig_v[i] - v[i], 0.)) changed = true;
-      }
-      for(size_t i=0; i<3u; ++i){
-        if (!approx_float::scalar(orig_cos[i] - c[i], 0.)) changed = true;
+        const auto j{(i + 1) % 3u}, k{(i + 2) % 3u};
+        c[i] = average[3u * j + k] / (v[j] * v[k]);
+        if (std::abs(c[i]) < T(10) * epsilon) c[i] = T(0);
+        s[i] = std::sqrt(T(1) - c[i] * c[i]);
       }
     }
     return changed; // signal if we did anything
-- 
2.43.0


From 41c35ff3dc5bc3feaade12b8f9698867b9eec40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:52 +0000
Subject: [PATCH 47/87] fix: points can be reduced to the first zone of a
 conventional lattice that is not primitive

---
 src/bz_move.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bz_move.cpp b/src/bz_move.cpp
index efe713c..f91fa7e 100644
--- a/src/bz_move.cpp
+++ b/src/bz_move.cpp
@@ -107,8 +107,8 @@ bool BrillouinZone::moveinto(const LVec<double>& Q, LVec<double>& q, LVec<int>&
   LVec<double> Qprim(Q.type(), _inner);
   LVec<double> qprim(q.type(), _inner);
   LVec<int> tauprim(tau.type(), _inner);
-  PrimitiveTransform PT(_outer.bravais());
-  bool transform_needed = PT.does_anything() && _outer.is_same(Q.lattice());
+  // without the primitive lattice in use there is nothing to transform
+  bool transform_needed = is_primitive && _outer.is_same(Q.lattice());
   if (!(already_same || transform_needed)){
     std::string msg = "Q points provided to BrillouinZone::moveinto must be ";
     msg += "in the standard or primitive lattice used to define ";
@@ -121,9 +121,9 @@ bool BrillouinZone::moveinto(const LVec<double>& Q, LVec<double>& q, LVec<int>&
 //  auto & tausl = transform_needed? tauprim : tau;
 
   auto [a, b, c] = _first.planes();
-  auto pa = parallel_transform_to_primitive(_outer, a, threads);
-  auto pb = parallel_transform_to_primitive(_outer, b, threads);
-  auto pc = parallel_transform_to_primitive(_outer, c, threads);
+  auto pa = is_primitive ? parallel_transform_to_primitive(_outer, a, threads) : a;
+  auto pb = is_primitive ? parallel_transform_to_primitive(_outer, b, threads) : b;
+  auto pc = is_primitive ? parallel_transform_to_primitive(_outer, c, threads) : c;
 
 //  // more than one thread == slow??
 //  this->_moveinto_prim(Qsl, qsl, tausl, pa, pb, pc, threads);
-- 
2.43.0


From ffb4c031274007d25602c3c42b064bfbfb4081ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:10 +0000
Subject: [PATCH 48/87] fix: points inside the irreducible wedge are collected
 without a data race

---
 src/bz.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/bz.hpp b/src/bz.hpp
index 470f858..7a50210 100644
--- a/src/bz.hpp
+++ b/src/bz.hpp
@@ -667,7 +667,9 @@ public:
       msg += "used to define the BrillouinZone object";
       throw std::runtime_error(msg);
     }
-    std::vector<bool> out(p.size(0), true);
+    // one addressable element per point, since std::vector<bool> packs bits
+    // which can not be written independently by different threads
+    std::vector<char> inside(p.size(0), 1);
     auto normals =
         isouter ? get_ir_wedge_normals() : get_primitive_ir_wedge_normals();
     if (normals.size(
@@ -691,13 +693,13 @@ public:
       // so when identifying whether a point is inside of the irreducible
       // Brillouin zone we must allow for the ≤0 case as well.
       cmp c = pos || no_ir_mirroring ? cmp::ge : cmp::le_ge;
-#pragma omp parallel for default(none) shared(out, normals, p, c)              \
+#pragma omp parallel for default(none) shared(inside, normals, p, c)           \
     schedule(dynamic)
       for (long long i = 0; i < p.size(0); ++i) // separately changed to ind_t
         //TODO Add tolerance here?
-        out[i] = dot(normals, p.view(i)).all(c, 0.);
+        inside[i] = dot(normals, p.view(i)).all(c, 0.) ? 1 : 0;
     }
-    return out;
+    return {inside.begin(), inside.end()};
   }
   /*! \brief Find q and τ such that Q=q+τ and τ is a reciprocal lattice vector
     \param[in] Q A reference to lattice::LVec list of Q points
-- 
2.43.0


From cac51903d2f18b418e10e1d332f1c6342089b806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:06 +0000
Subject: [PATCH 49/87] fix: faces of the irreducible zone on the first zone
 are not taken as wedge faces

---
 src/bz.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/bz.cpp b/src/bz.cpp
index 9895b38..b0494ed 100644
--- a/src/bz.cpp
+++ b/src/bz.cpp
@@ -26,8 +26,8 @@ LVec<double> BrillouinZone::get_ir_polyhedron_wedge_normals() const {
   auto bz_p = this->get_points();
   for (ind_t i=0; i<bz_n.size(0); ++i){
     // check if the irBZ face point is on a first BZ zone face too
-    // FIXME Add tolerance here
-    auto not_bz = dot(bz_n.view(i), ir_p - bz_p.view(i)).is(brille::cmp::neq, 0.);
+    // within the tolerances used to find the irreducible polyhedron
+    auto not_bz = dot(bz_n.view(i), ir_p - bz_p.view(i)).is(brille::cmp::neq, 0., float_tolerance, approx_tolerance);
     if (!not_bz.any())
       throw std::runtime_error("Why are all of the points on the first BZ surface?!");
     ir_n = ir_n.extract(not_bz);
@@ -42,8 +42,7 @@ LVec<double> BrillouinZone::get_ir_polyhedron_wedge_normals() const {
     std::vector<bool> no_inverse(ir_n.size(0), true), keep(ir_n.size(0), true);
     for (ind_t i=0; i<ir_n.size(0)-1; ++i) if (no_inverse[i])
     for (ind_t j=i+1; j<ir_n.size(0); ++j) if (no_inverse[j])
-    if ((ir_n.view(i)+ir_n.view(j)).all(brille::cmp::eq, 0.)) {
-      // FIXME Consider adding tolerance                             ^^^
+    if ((ir_n.view(i)+ir_n.view(j)).all(brille::cmp::eq, 0., float_tolerance, approx_tolerance)) {
       no_inverse[i] = no_inverse[j] = keep[j] = false;
       break;
     }
-- 
2.43.0


From b2cf992b35db970d97a6531c776bc79aece3856b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:20 +0000
Subject: [PATCH 50/87] fix: convex hulls and cuts treat points within
 tolerance of a plane or edge as on it

---
 src/geometry.hpp         | 11 ++++++-----
 src/polyhedron_faces.hpp |  2 ++
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/geometry.hpp b/src/geometry.hpp
index 812a614..15a68df 100644
--- a/src/geometry.hpp
+++ b/src/geometry.hpp
@@ -667,8 +667,10 @@ namespace brille {
         if (r == i || r == j || r == k) continue;
         auto d = pseudo_orient3d(points.view(i), points.view(j), points.view(k), points.view(r))[0];
 //        auto d = orient3d(points.ptr(i), points.ptr(j), points.ptr(k), points.ptr(r));
-        positive &= d >= 0;
-        negative &= d <= 0;
+        // a point may be off the plane of its face by a rounding error
+        auto on_plane = approx_float::scalar(d, T(0), Ttol, Ttol, tol);
+        positive &= on_plane || d > 0;
+        negative &= on_plane || d < 0;
       }
       if (positive ^ negative) {
         // (T,T) -> co-linear (i,j,k) => all points are co-planar
@@ -951,10 +953,9 @@ namespace brille {
     std::vector<ind_t> updated;
     updated.reserve(s);
     if (s > 2) {
-      updated.push_back(face[0]);
-      auto e0 = points.view(face[1]) - points.view(face[0]);
+      auto e0 = points.view(face[0]) - points.view(face[s - 1]);
       e0 /= norm(e0);
-      for (ind_t i = 1; i < s; ++i) {
+      for (ind_t i = 0; i < s; ++i) {
         auto e1 = points.view(face[(i + 1) % s]) - points.view(face[i]);
         e1 /= norm(e1);
         if (dot(e0, e1).any(cmp::lt, 1., t_tol, i_tol)) updated.push_back(face[i]);
diff --git a/src/polyhedron_faces.hpp b/src/polyhedron_faces.hpp
index c5aacef..37afe56 100644
--- a/src/polyhedron_faces.hpp
+++ b/src/polyhedron_faces.hpp
@@ -58,6 +58,8 @@ namespace brille::polyhedron{
       auto max = std::transform_reduce(fpv.begin(), fpv.end(), 0u, [](const auto & x, const auto & y){return x > y ? x : y;}, [](const auto & z){return z.size();});
       if (max > 2u) {
         _faces = polygon_faces(a, b, c, fpv, unique_vertices);
+        // a point in the middle of an edge must be removed from *both* of the faces which share it
+        _faces = remove_middle_colinear_points_from_faces(unique_vertices, _faces, Ttol, tol);
         debug_update("First-pass faces:\n", _faces);
         if (polygon_face_vertex_purge(unique_vertices, _faces)) {
           debug_update("Some vertices purged. Now vertices\nnp.array(\n",
-- 
2.43.0


From 535553bf246ab3514aa1096fc2904a60c2003139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:20 +0000
Subject: [PATCH 51/87] fix: centroid of a polyhedron of lattice vectors

---
 src/polyhedron_faces.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/polyhedron_faces.hpp b/src/polyhedron_faces.hpp
index 37afe56..4e33057 100644
--- a/src/polyhedron_faces.hpp
+++ b/src/polyhedron_faces.hpp
@@ -220,18 +220,24 @@ namespace brille::polyhedron{
         if (!_faces.empty()) throw std::runtime_error("No vertices provided for centroid");
         return x;
       }
+      /* The polyhedron is the sum of signed tetrahedra (a, b, c, o) with a, b, c
+      on a face. Each has centroid (a+b+c+o)/4 irrespective of the coordinate
+      system, while the component-wise formula holds only for orthonormal axes.
+      */
       auto cen = 0 * x.view(0);
+      const auto o{x.view(0)};
+      T total{0};
       for (const auto & face: _faces) {
         const auto a{x.view(face[0])};
         for (ind_t i=1; i < face.size() - 1; ++i) {
           const auto b{x.view(face[i])};
           const auto c{x.view(face[i + 1])};
-          auto cr = cross(b-a, c-a);
-          auto sq = (((a+b)^T(2))+ ((b+c)^T(2)) + ((c+a)^T(2)));
-          for (ind_t j=0; j<3; ++j) cen[j] += cr[j] * sq[j];
+          T six_volume = dot(cross(b-a, c-a), a-o).sum();
+          cen = cen + six_volume * ((a-o) + (b-o) + (c-o));
+          total += six_volume;
         }
       }
-      return cen / (T(48) * this->volume(x));
+      return o + cen / (T(4) * total);
     }
     template<class T, template<class> class A>
     std::enable_if_t<isArray<T,A>, A<T>> rand_rejection(const A<T>& x, const ind_t n, const unsigned int seed) const {
-- 
2.43.0


From 37e3e79197514cf145a5994bdb949c8c28cf5324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:26 +0000
Subject: [PATCH 52/87] fix: dividing a polyhedron by a plane moves the plane
 with it

---
 src/polyhedron_faces.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polyhedron_faces.hpp b/src/polyhedron_faces.hpp
index 4e33057..cfbb2dd 100644
--- a/src/polyhedron_faces.hpp
+++ b/src/polyhedron_faces.hpp
@@ -409,7 +409,7 @@ namespace brille::polyhedron{
     divide(const A<T>& v, const B<R>& a, const B<R>& b, const B<R>& c) const {
       // this all seems unnecessary
       auto z = this->centroid(v);
-      auto [cv, cf] = this->cut(v - z, a, b, c);
+      auto [cv, cf] = this->cut(v - z, a - z, b - z, c - z);
       return std::make_tuple(cv + z, cf);
     }
 
-- 
2.43.0


From 94ac97678b260d0fbfb2212abd4f0075e34ad9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:18 +0000
Subject: [PATCH 53/87] fix: minimum distance between the vertices of a
 polyhedron looks only at vertices in use

---
 src/polyhedron_faces.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polyhedron_faces.hpp b/src/polyhedron_faces.hpp
index cfbb2dd..f3de644 100644
--- a/src/polyhedron_faces.hpp
+++ b/src/polyhedron_faces.hpp
@@ -286,8 +286,8 @@ namespace brille::polyhedron{
       std::copy(index_set.cbegin(), index_set.cend(), std::back_inserter(indexes));
       if (indexes.size() < 2) return T(0);
       auto dist = (std::numeric_limits<T>::max)();
-      for (ind_t i=0; i<x.size(0)-1; ++i){
-        for (ind_t j=i+1; j<x.size(0); ++j){
+      for (size_t i=0; i<indexes.size()-1; ++i){
+        for (size_t j=i+1; j<indexes.size(); ++j){
           auto dij = norm(x.view(indexes[i]) - x.view(indexes[j])).sum();
           if (dij < dist) dist = dij;
         }
-- 
2.43.0


From a4e906cdd8ea9acc0a98984aa80fcfc2346a733a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:14 +0000
Subject: [PATCH 54/87] fix: the largest volume of a triangulated polyhedron

---
 src/triangulation_poly.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/triangulation_poly.hpp b/src/triangulation_poly.hpp
index 1b30221..af7212c 100644
--- a/src/triangulation_poly.hpp
+++ b/src/triangulation_poly.hpp
@@ -169,7 +169,9 @@ public:
   }
   //! Return the volume of the largest tetrahedron
   T maximum_volume() const {
-    return triple_product(points_, tetrahedra_).max();
+    T max_vol{0};
+    for (ind_t i=0; i<this->number_of_tetrahedra(); ++i) max_vol = (std::max)(max_vol, this->volume(i));
+    return max_vol;
   }
   //! Return the number of triangulated vertices
   [[nodiscard]] ind_t number_of_vertices() const {return points_.size(0);}
-- 
2.43.0


From 7613fb77c966218b91aa9ddbe12beabab69b0b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:16 +0000
Subject: [PATCH 55/87] fix: added points are found in large non-convex tetgen
 meshes

---
 lib/tetgen/tetgen.cxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/tetgen/tetgen.cxx b/lib/tetgen/tetgen.cxx
index 839e7c0..d4bb232 100644
--- a/lib/tetgen/tetgen.cxx
+++ b/lib/tetgen/tetgen.cxx
@@ -11101,7 +11101,7 @@ void tetgenmesh::randomsample(point searchpt,triface *searchtet)
     }
   } else {
     // The mesh is non-convex. Do not use 'recenttet'.
-    searchdist = longest;
+    searchdist = longest * longest; // compared with squared distances
   }
 
   // Select "good" candidate using k random samples, taking the closest one.
@@ -11152,6 +11152,13 @@ void tetgenmesh::randomsample(point searchpt,triface *searchtet)
     }
     sampleblock = (void **) *sampleblock;
   }
+
+  if (searchtet->tet == NULL) {
+    // Only dead or far away tets were sampled. Choose any living one.
+    tetrahedrons->traversalinit();
+    searchtet->tet = tetrahedrontraverse();
+    searchtet->ver = 11;
+  }
 }
 
 //============================================================================//
-- 
2.43.0


From ac75f13215c8afd03dff054e0e42f350df108a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:16 +0000
Subject: [PATCH 56/87] fix: smoothing a triangulation does not move the added
 origin

---
 src/triangulation_poly.hpp   | 1 +
 src/triangulation_simple.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/triangulation_poly.hpp b/src/triangulation_poly.hpp
index af7212c..31df382 100644
--- a/src/triangulation_poly.hpp
+++ b/src/triangulation_poly.hpp
@@ -87,6 +87,7 @@ triangulate(const T max_volume, const bool addGamma, const A<T>& points, const F
   try {
     if (addGamma && !gammaPresent){
       tgb.insertaddpoints = 1;
+      tgb.smooth_maxiter = 0; // smoothing would move the added point
       tetgenio add_in;
       add_in.numberofpoints = 1;
       add_in.pointlist = new double[3];
diff --git a/src/triangulation_simple.hpp b/src/triangulation_simple.hpp
index 8253887..1398683 100644
--- a/src/triangulation_simple.hpp
+++ b/src/triangulation_simple.hpp
@@ -123,6 +123,7 @@ public:
     try {
       if (addGamma && !gammaPresent){
         tgb.insertaddpoints = 1;
+        tgb.smooth_maxiter = 0; // smoothing would move the added point
         tetgenio addin;
         addin.numberofpoints = 1;
         addin.pointlist = new double[3];
-- 
2.43.0


From deca1c3bd83daebf7e8a6984765ee9a2355dc6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:16 +0000
Subject: [PATCH 57/87] fix: the origin is added to a triangulation if it is on
 the surface

---
 src/array_tetgen.hpp         | 78 ++++++++++++++++++++++++++++++++++++
 src/triangulation_poly.hpp   |  2 +
 src/triangulation_simple.hpp |  3 ++
 3 files changed, 83 insertions(+)

diff --git a/src/array_tetgen.hpp b/src/array_tetgen.hpp
index f58ed3d..0bd5ebc 100644
--- a/src/array_tetgen.hpp
+++ b/src/array_tetgen.hpp
@@ -29,5 +29,83 @@ namespace brille {
     return four_point_sphere(v.view(i[0]), v.view(i[1]), v.view(i[2]), v.view(i[3]));
   }
 
+  /*! \brief Make the origin a point of all facets of a convex polyhedron on which it lies
+
+  TetGen does not insert an additional point if rounding has put it outside of
+  the volume, so a point on the surface must be part of the input facets.
+
+  \param io the TetGen input, with exactly one polygon per facet, all of which
+            have their vertices ordered around an outward pointing normal.
+  \returns Whether the origin is on the surface and has been added.
+  */
+  inline bool add_surface_origin(tetgenio& io){
+    const int no = io.numberofpoints;
+    double scale{0};
+    for (int i=0; i<3*no; ++i) scale = (std::max)(scale, std::abs(io.pointlist[i]));
+    const double tol{scale * 1e-10};
+    auto cross = [](const double* a, const double* b){
+      return std::array<double,3>{{a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]}};
+    };
+    auto dot = [](const double* a, const double* b){return a[0]*b[0]+a[1]*b[1]+a[2]*b[2];};
+    std::vector<int> on;
+    for (int f=0; f<io.numberoffacets; ++f){
+      const auto & p{io.facetlist[f].polygonlist[0]};
+      std::array<double,3> n{{0,0,0}};
+      for (int j=0; j<p.numberofvertices; ++j){
+        auto c = cross(io.pointlist + 3*p.vertexlist[j], io.pointlist + 3*p.vertexlist[(j+1)%p.numberofvertices]);
+        for (int k=0; k<3; ++k) n[k] += c[k];
+      }
+      double distance = dot(n.data(), io.pointlist + 3*p.vertexlist[0]) / std::sqrt(dot(n.data(), n.data()));
+      if (distance < -tol) return false; // the origin is outside of the polyhedron
+      if (distance < tol) on.push_back(f);
+    }
+    if (on.empty()) return false;
+    // extend the list of points
+    auto points = new double[3*(no+1)];
+    auto markers = new int[no+1];
+    std::copy(io.pointlist, io.pointlist + 3*no, points);
+    std::copy(io.pointmarkerlist, io.pointmarkerlist + no, markers);
+    for (int k=0; k<3; ++k) points[3*no + k] = 0.;
+    markers[no] = no;
+    delete[] io.pointlist;
+    delete[] io.pointmarkerlist;
+    io.pointlist = points;
+    io.pointmarkerlist = markers;
+    io.numberofpoints = no + 1;
+    // and of the vertices of each facet
+    for (int f: on){
+      auto & facet{io.facetlist[f]};
+      auto & p{facet.polygonlist[0]};
+      int edge{-1};
+      for (int j=0; j<p.numberofvertices && edge<0; ++j){
+        const double* a = points + 3*p.vertexlist[j];
+        const double* b = points + 3*p.vertexlist[(j+1)%p.numberofvertices];
+        std::array<double,3> ab{{b[0]-a[0], b[1]-a[1], b[2]-a[2]}};
+        auto c = cross(a, b);
+        if (dot(c.data(), c.data()) < tol*tol*dot(ab.data(), ab.data())) edge = j;
+      }
+      if (edge < 0){
+        // an isolated point inside of the facet
+        auto polygons = new tetgenio::polygon[2];
+        polygons[0] = p;
+        polygons[1].numberofvertices = 1;
+        polygons[1].vertexlist = new int[1];
+        polygons[1].vertexlist[0] = no;
+        delete[] facet.polygonlist;
+        facet.polygonlist = polygons;
+        facet.numberofpolygons = 2;
+      } else {
+        auto list = new int[p.numberofvertices + 1];
+        std::copy(p.vertexlist, p.vertexlist + edge + 1, list);
+        list[edge + 1] = no;
+        std::copy(p.vertexlist + edge + 1, p.vertexlist + p.numberofvertices, list + edge + 2);
+        delete[] p.vertexlist;
+        p.vertexlist = list;
+        p.numberofvertices += 1;
+      }
+    }
+    return true;
+  }
+
 }
 #endif
\ No newline at end of file
diff --git a/src/triangulation_poly.hpp b/src/triangulation_poly.hpp
index 31df382..872969d 100644
--- a/src/triangulation_poly.hpp
+++ b/src/triangulation_poly.hpp
@@ -81,6 +81,8 @@ triangulate(const T max_volume, const bool addGamma, const A<T>& points, const F
     for (size_t j=0; j<f[i].size(); ++j)
       tgi.facetlist[i].polygonlist[0].vertexlist[j] = static_cast<int>(f[i][j]);
   }
+  // if the origin is on the surface it is part of the input
+  if (addGamma && !gammaPresent) gammaPresent = add_surface_origin(tgi);
   // The input is now filled with the piecewise linear complex information.
   // so we can call tetrahedralize:
   debug_update("Calling tetgen::tetrahedralize");
diff --git a/src/triangulation_simple.hpp b/src/triangulation_simple.hpp
index 1398683..62900c4 100644
--- a/src/triangulation_simple.hpp
+++ b/src/triangulation_simple.hpp
@@ -23,6 +23,7 @@ along with brille. If not, see <https://www.gnu.org/licenses/>.            */
 */
 #include "array_.hpp" // defines bArray
 #include "tetgen.h"
+#include "array_tetgen.hpp"
 namespace brille {
 
 /*! \brief A class to handle interaction with `TetGen`
@@ -117,6 +118,8 @@ public:
       for (size_t j=0; j<vpf[i].size(); ++j)
         tgi.facetlist[i].polygonlist[0].vertexlist[j] = static_cast<int>(vpf[i][j]);
     }
+    // if the origin is on the surface it is part of the input
+    if (addGamma && !gammaPresent) gammaPresent = add_surface_origin(tgi);
     // The input is now filled with the piecewise linear complex information.
     // so we can call tetrahedralize:
     debug_update("Calling tetgen::tetrahedralize");
-- 
2.43.0


From 0a2ba792c3cedc9136453b56aa16723ebabe2073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:16 +0000
Subject: [PATCH 58/87] fix: connecting tetrahedra of two layers does not end
 the program

---
 src/triangulation_layers.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/triangulation_layers.hpp b/src/triangulation_layers.hpp
index a9379ec..8e8c5b8 100644
--- a/src/triangulation_layers.hpp
+++ b/src/triangulation_layers.hpp
@@ -31,6 +31,7 @@ along with brille. If not, see <https://www.gnu.org/licenses/>.            */
 #include "array_.hpp" // defines bArray
 #include "tetgen.h"
 #include "polyhedron_flex.hpp"
+#include "approx_config.hpp"
 namespace brille {
 
 /*! \brief A single triangulated layer of the hierarchy for Mesh3
@@ -211,6 +212,17 @@ public:
       vertex_positions.ptr(i[3],0) )/6.0;
     return v;
   }
+  //! Determine if any face of one tetrahedron has all of another tetrahedron (of any layer) beyond it
+  [[nodiscard]] bool face_separates(const ind_t tet, const TetTriLayer& other, const ind_t other_tet) const {
+    std::array<double,4> most{{-1.,-1.,-1.,-1.}}, w{};
+    for (ind_t k=0; k<4u; ++k){
+      this->weights(tet, other.vertex_positions.view(other.vertices_per_tetrahedron.val(other_tet, k)), w);
+      for (size_t f=0; f<4u; ++f) if (k == 0u || w[f] > most[f]) most[f] = w[f];
+    }
+    // the weight of the vertex opposite a face is negative for points beyond the face
+    const double tol{approx_float::config.reciprocal<double>()};
+    return std::any_of(most.begin(), most.end(), [tol](double m){return m < -tol;});
+  }
   [[nodiscard]] std::array<double,3> volume_statistics() const {
     // total volume, minimum volume, maximum volume
     std::array<double,3> vs{0.,(std::numeric_limits<double>::max)(),std::numeric_limits<double>::lowest()};
@@ -462,8 +474,6 @@ private:
       // initialize the map
       map[i] = TetSet();
       auto cchi = layers[high].get_circum_centres().view(i);
-      // get a Polyhedron object for the ith higher-tetrahedra in case we need it
-      auto tethi = layers[high].get_tetrahedron(i);
       std::vector<double> sumrad;
       for (double r: layers[low].get_circum_radii()) sumrad.push_back(layers[high].get_circum_radii()[i]+r);
       // if two circumsphere centers are closer than the sum of their radii
@@ -479,10 +489,9 @@ private:
             add = true;
         }
         // even if no vertex is inside of the ith higher-tetrahedra, the two tetrahedra
-        // can overlap -- and checking for this overlap is complicated.
-        // make the Polyhedron class do the heavy lifting.
-        // if (add || tethi.intersects(ll.get_tetrahedron(j))) map[i].push_back(j);
-        if (add || layers[low].get_tetrahedron(j).intersects(tethi)) map[i].push_back(j);
+        // can overlap, unless they are on opposite sides of a face of either one.
+        if (add || !(layers[high].face_separates(i, layers[low], j) || layers[low].face_separates(j, layers[high], i)))
+          map[i].push_back(j);
       }
     }
     if (brille::printer.datetime()) stopwatch.toc();
-- 
2.43.0


From 945b5892acc293c79c98834a7804d5862efa0b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:16 +0000
Subject: [PATCH 59/87] fix: a point outside of a layered triangulation is in
 none of its tetrahedra

---
 src/triangulation_layers.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/triangulation_layers.hpp b/src/triangulation_layers.hpp
index 8e8c5b8..aef72a7 100644
--- a/src/triangulation_layers.hpp
+++ b/src/triangulation_layers.hpp
@@ -422,6 +422,8 @@ public:
     ind_t idx = layers[0].unsafe_locate(x,vw);
     // use the layer-connection map to restrict the search in the next layer's tetrahedra
     for (size_t i=1; i<layers.size(); ++i){
+      // a point which is not in the layer is in none of its tetrahedra
+      if (idx >= layers[i-1].number_of_tetrahedra()) return {};
       const TetSet& tosearch = connections[i-1][idx];
       idx = layers[i].unsafe_locate(tosearch, x, vw);
     }
-- 
2.43.0


From cc582cd4d9b8b56945055a455323da83f04cf81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:16 +0000
Subject: [PATCH 60/87] fix: points on the surface of a layered triangulation
 are found despite rounding

---
 src/triangulation_layers.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/triangulation_layers.hpp b/src/triangulation_layers.hpp
index aef72a7..cfd0b37 100644
--- a/src/triangulation_layers.hpp
+++ b/src/triangulation_layers.hpp
@@ -181,7 +181,7 @@ public:
     for (ind_t idx: tosearch){
       if (this->unsafe_might_contain(idx, x) && this->unsafe_contains(idx, x, ws)){
         // unsafe_contains sets the weights in ws
-        for (ind_t i=0; i<4u; ++i) if (!brille::approx_float::scalar(ws[i], 0.))
+        for (ind_t i=0; i<4u; ++i) if (!weight_is_zero(ws[i]))
           vw.emplace_back(vertices_per_tetrahedron.val(idx,i), ws[i]);
         return idx;
       }
@@ -264,7 +264,8 @@ public:
   }
 protected:
   [[nodiscard]] bool unsafe_might_contain(const ind_t tet, const bArray<double>& x) const {
-    return norm(x-circum_centres.view(tet)).all(brille::cmp::le, circum_radii[tet]);
+    const auto & c{approx_float::config};
+    return norm(x-circum_centres.view(tet)).all(brille::cmp::le, circum_radii[tet], c.reciprocal<double>(), c.digit());
   }
   [[nodiscard]] bool unsafe_contains(const ind_t tet, const bArray<double>& x) const {
     std::array<double,4> w{0.,0.,0.,0.};
@@ -272,7 +273,12 @@ protected:
   }
   bool unsafe_contains(const ind_t tet, const bArray<double>& x, std::array<double,4>& w) const {
     this->weights(tet, x, w);
-    return std::all_of(w.begin(), w.end(), [](double z){ return (z>0.||brille::approx_float::scalar(z,0.)); });
+    return std::all_of(w.begin(), w.end(), [](double z){ return (z>0. || weight_is_zero(z)); });
+  }
+  //! Weights are as inexact as the points for which they are found
+  static bool weight_is_zero(const double z) {
+    const auto & c{approx_float::config};
+    return brille::approx_float::scalar(z, 0., c.reciprocal<double>(), c.reciprocal<double>(), c.digit());
   }
   void weights(const ind_t tet, const bArray<double>& x, std::array<double,4>& w) const {
     const ind_t* i = vertices_per_tetrahedron.ptr(tet);
-- 
2.43.0


From dd16178d935ce18a5fb95954b8dad9223aa9cf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:16 +0000
Subject: [PATCH 61/87] fix: tetrahedra of a nest are subdivided without
 looking for a convex hull

---
 src/nest.tpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nest.tpp b/src/nest.tpp
index 594c10f..b8144ad 100644
--- a/src/nest.tpp
+++ b/src/nest.tpp
@@ -57,7 +57,8 @@ void Nest<T,S,V,A>::subdivide(
   const double max_volume, const double exp, ind_t& nVerts
 ){
   if (!node.is_leaf()) return; // return node; // we can only branch un-branched nodes
-  poly_t poly(vertices_.extract(node.boundary().vertices()));
+  // the faces of the tetrahedron are known, no convex hull needs to be found
+  poly_t poly(vertices_.extract(node.boundary().vertices()), polyhedron::Faces({{0,1,2},{0,2,3},{1,0,3},{1,3,2}}));
   double mult = (maxBr > nBr) ? std::pow(static_cast<double>(maxBr-nBr),exp) : 1.0;
   SimpleTet node_tet(poly, max_volume*mult);
   // add any new vertices to the object's array, keep a mapping for all:
-- 
2.43.0


From 9edbe296d3b149e0687ee61803b28159c99bb5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:47 +0000
Subject: [PATCH 62/87] fix: the triangulation does not depend on what other
 threads triangulate

---
 lib/tetgen/tetgen.cxx | 26 +++++++++++++-------------
 lib/tetgen/tetgen.h   |  7 +++++++
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/lib/tetgen/tetgen.cxx b/lib/tetgen/tetgen.cxx
index d4bb232..5df658b 100644
--- a/lib/tetgen/tetgen.cxx
+++ b/lib/tetgen/tetgen.cxx
@@ -10740,7 +10740,7 @@ void tetgenmesh::transfernodes()
 //  exactinit(b->verbose);
 
   // Use the number of points as the random seed.
-  srand(in->numberofpoints);
+  seed_random(in->numberofpoints);
 
   // 'longest' is the largest possible edge length formed by input vertices.
   longest = sqrt(x * x + y * y + z * z);
@@ -11227,7 +11227,7 @@ enum tetgenmesh::locateresult
     
     // We enter from one of serarchtet's faces, which face do we exit?
     // Randomly choose one of three faces (containig  toppo) of this tet.
-    s = rand() % 3; // s \in \{0,1,2\}
+    s = next_random() % 3; // s \in \{0,1,2\}
     for (i = 0; i < s; i++) enextself(*searchtet);
 
     oriorg = orient3d(dest(*searchtet), apex(*searchtet), toppo, searchpt, use_inexact, use_filter, o3d_filter);
@@ -11720,7 +11720,7 @@ int  tetgenmesh::insert_vertex_bw(point insertpt, triface *searchtet,
 
     // Set a handle for speeding point location.
     // Randomly pick a new tet.
-    i = rand() % f_out;
+    i = next_random() % f_out;
     recenttet = * (triface *) fastlookup(cavebdrylist, i);    
     setpoint2tet(insertpt, (tetrahedron) (recenttet.tet));
 
@@ -11804,7 +11804,7 @@ int  tetgenmesh::insert_vertex_bw(point insertpt, triface *searchtet,
     // Set a handle for speeding point location.
     //recenttet = newtet;
     //setpoint2tet(insertpt, (tetrahedron) (newtet.tet));
-    i = rand() % f_out;
+    i = next_random() % f_out;
     recenttet = * (triface *) fastlookup(cavebdrylist, i);
     // This is still an oldtet.
     fsymself(recenttet);
@@ -11981,9 +11981,9 @@ void tetgenmesh::incrementaldelaunay(clock_t& tv)
     if (b->verbose) {
       printf("  Permuting vertices.\n"); 
     }
-    srand(in->numberofpoints);
+    seed_random(in->numberofpoints);
     for (i = 0; i < in->numberofpoints; i++) {
-      randindex = rand() % (i + 1); // randomnation(i + 1);
+      randindex = next_random() % (i + 1); // randomnation(i + 1);
       permutarray[i] = permutarray[randindex];
       permutarray[randindex] = (point) points->traverse();
     }
@@ -19271,7 +19271,7 @@ int tetgenmesh::add_steinerpt_in_schoenhardtpoly(triface *abtets, int n,
 
   if (splitsliverflag) {
     // randomly pick a tet.
-    int idx = rand() % n;
+    int idx = next_random() % n;
 
     // Calulcate the barycenter of this tet.
     point pa = org(abtets[idx]);
@@ -25365,9 +25365,9 @@ void tetgenmesh::insertconstrainedpoints(point *insertarray, int arylen,
     }
     point swappoint;
     int randindex;
-    srand(arylen);
+    seed_random(arylen);
     for (i = 0; i < arylen; i++) {
-      randindex = rand() % (i + 1); 
+      randindex = next_random() % (i + 1); 
       swappoint = insertarray[i];
       insertarray[i] = insertarray[randindex];
       insertarray[randindex] = swappoint;
@@ -25681,9 +25681,9 @@ void tetgenmesh::collectremovepoints(arraypool *remptlist)
       // Sort the list of points randomly.
       point *parypt_i, swappt;
       int randindex, i;
-      srand(intptlist->objects);
+      seed_random(intptlist->objects);
       for (i = 0; i < intptlist->objects; i++) {
-        randindex = rand() % (i + 1); // randomnation(i + 1);
+        randindex = next_random() % (i + 1); // randomnation(i + 1);
         parypt_i = (point *) fastlookup(intptlist, i); 
         parypt = (point *) fastlookup(intptlist, randindex);
         // Swap this two points.
@@ -27604,7 +27604,7 @@ tetgenmesh::locate_on_surface(point searchpt, face* searchsh)
         enextself(searchtet);
       } else if (ori2 < 0) {
         // Randomly choose one.
-        if (rand() % 2) { // flipping a coin.
+        if (next_random() % 2) { // flipping a coin.
           //E.ver = _enext_tbl[E.ver];
           enextself(searchtet);
         } else {
@@ -29029,7 +29029,7 @@ void tetgenmesh::repairbadtets(REAL queratio, int chkencflag)
 
 
     // Randomly select a tet to split.
-    i = rand() % check_tets_list->objects;
+    i = next_random() % check_tets_list->objects;
     quetet = (triface *) fastlookup(check_tets_list, i);
     checktet = *quetet;
     
diff --git a/lib/tetgen/tetgen.h b/lib/tetgen/tetgen.h
index 6dce051..3d7cb39 100644
--- a/lib/tetgen/tetgen.h
+++ b/lib/tetgen/tetgen.h
@@ -78,6 +78,7 @@
 #include <string.h>
 #include <math.h>
 #include <time.h>
+#include <random>
 
 // The types 'intptr_t' and 'uintptr_t' are signed and unsigned integer types,
 //   respectively. They are guaranteed to be the same width as a pointer.
@@ -1458,6 +1459,12 @@ public:
   int useinsertradius;       // Save the insertion radius for Steiner points.
   long samples;               // Number of random samples for point location.
   unsigned long randomseed;                    // Current random number seed.
+
+  // The random sequence must not be shared between meshes: rand() made the
+  // triangulation depend on what is triangulated by other threads.
+  std::minstd_rand random_sequence;
+  void seed_random(long s) {random_sequence.seed(static_cast<std::minstd_rand::result_type>(s));}
+  int next_random() {return static_cast<int>(random_sequence());}
   REAL cosmaxdihed, cosmindihed;    // The cosine values of max/min dihedral.
   REAL cossmtdihed;     // The cosine value of a bad dihedral to be smoothed.
   REAL cosslidihed;      // The cosine value of the max dihedral of a sliver.
-- 
2.43.0


From a4eec7dc13b05a2da077e739cfd1b73d32efbf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:47 +0000
Subject: [PATCH 63/87] fix: points outside of a trellis are not interpolated

---
 src/trellis_poly.hpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/trellis_poly.hpp b/src/trellis_poly.hpp
index 74a2dc6..7cf3635 100644
--- a/src/trellis_poly.hpp
+++ b/src/trellis_poly.hpp
@@ -72,11 +72,11 @@ static size_t find_bin(const std::vector<T>& bin_edges, const T x){
   return d>0 ? d-1 : d;
 }
 template<class T>
-static int on_boundary(const std::vector<T>& bin_edges, const T x, const size_t i){
+static int on_boundary(const std::vector<T>& bin_edges, const T x, const size_t i, const T tol, const int digit){
   // if (i==0) then above d was *either* 0 or 1, otherwise d = i + 1;
   // if (i==0) we can't go lower in either case, so no problem.
-  if (i+2<bin_edges.size() && brille::approx_float::scalar(bin_edges[i+1],x)) return  1;
-  if (i  >0                && brille::approx_float::scalar(bin_edges[i  ],x)) return -1;
+  if (i+2<bin_edges.size() && brille::approx_float::scalar(bin_edges[i+1],x,tol,tol,digit)) return  1;
+  if (i  >0                && brille::approx_float::scalar(bin_edges[i  ],x,tol,tol,digit)) return -1;
   return 0;
 }
 
@@ -245,12 +245,15 @@ public:
   [[nodiscard]] std::vector<std::pair<ind_t,VertexComponents>>
   indices_weights(const vert_t& x) const {
     std::vector<std::pair<ind_t,VertexComponents>> iw{};
-    if (x.ndim()!=2 && x.size(0)!=1u && x.size(1)!=3u)
+    if (x.ndim()!=2 || x.size(0)!=1u || x.size(1)!=3u)
       throw std::runtime_error("The indices and weights can only be found for one point at a time.");
-    // if node_index does not throw an error then the indicated node *should*
-    // contain the interpolation point (but rounding might be a problem)
+    // without a valid node the point is not in the domain of the trellis
+    const auto sub = this->node_subscript(x);
+    if (!subscript_ok_and_not_null(sub)) return iw;
+    // otherwise the indicated node *should* contain the interpolation point,
+    // if it is in the domain at all, (but rounding might be a problem)
     const bool should_contain = true;
-    nodes_.indices_weights(this->node_index(x), vertices_, x, iw, should_contain);
+    if (!nodes_.indices_weights(this->sub2idx(sub), vertices_, x, iw, should_contain)) iw.clear();
     return iw;
   }
   //! Check that the held data can be used for linear interpolation
@@ -392,7 +395,7 @@ public:
       // directions. if we are, on_boundary returns the direction in which we
       // can safely take a step without leaving the binned region
       for (ind_t i=0; i<3; ++i)
-        close[i] = on_boundary(knots_[i], pos[i], sub[i]);
+        close[i] = on_boundary(knots_[i], pos[i], sub[i], approx_.reciprocal<double>(), approx_.digit());
       auto num_close = std::count_if(close.begin(), close.end(), [](int a){return a!=0;});
       // check one
       std::array<ind_t,3> newsub{sub};
@@ -405,7 +408,7 @@ public:
       if (bad && num_close>1) {
         for (int i = 0; i < 3 && bad; ++i) {
           if (close[i]) {
-            for (int j = 0; j < 3 && bad; ++j) {
+            for (int j = i + 1; j < 3 && bad; ++j) {
               if (close[j]) {
                 newsub = sub;
                 newsub[i] += close[i];
@@ -424,7 +427,7 @@ public:
       }
       if (!bad) sub = newsub;
       else {
-        auto node_type = nodes_.node_type_string(sub2idx(sub));
+        auto node_type = subscript_ok(sub) ? nodes_.node_type_string(sub2idx(sub)) : "missing";
         info_update("The node subscript ", sub, " for the point\n\t(hkl) ",
                     p.to_string(0u), "\n\t(xyz) [[", pos, "]]\n",
                     " is either invalid or a ", node_type, " node");
-- 
2.43.0


From 72957d558402eab04b7b9f9c5a0d7fd1a52dda77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:47 +0000
Subject: [PATCH 64/87] fix: only rounding errors are forgiven when a node does
 not contain a point

---
 src/trellis_node.hpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/trellis_node.hpp b/src/trellis_node.hpp
index 2942ab3..0dbf672 100644
--- a/src/trellis_node.hpp
+++ b/src/trellis_node.hpp
@@ -18,6 +18,9 @@ namespace brille {
 
 
 
+  //! The deviation of interpolation weights from the range (0,1) which is attributed to rounding errors
+  static constexpr double rounding_weight{1e-6};
+
   /*! \brief A base class for the differentiation of Node types
 
   The NullNode is not within the domain of the PolyhedronTrellis because it has
@@ -135,11 +138,17 @@ namespace brille {
       // (000) (100) (110) (010) (101) (001) (011) (111)
       // so that vertex_indices[i] and vertex_indices[7-i] are connected by a body diagonal
       auto node_verts = vertices.extract(vertex_indices);
-      T node_volume = abs(node_verts.view(0)-node_verts.view(7)).prod(1)[0];
-      auto w = abs(x - node_verts).prod(1)/node_volume; // the normalised volume of each sub-parallelpiped
+      // the cuboid is aligned with the axes of the orthonormal frame
+      auto node_xyz = get_xyz(node_verts);
+      T node_volume = abs(node_xyz.view(0)-node_xyz.view(7)).prod(1)[0];
+      auto w = abs(get_xyz(x) - node_xyz).prod(1)/node_volume; // the normalised volume of each sub-parallelpiped
       // If any normalised weights are greater than 1+eps() the point isn't in this node
       iw.clear();
       if (w.any(brille::cmp::gt, T(1)) && !should_contain) return false;
+      // The weights add up to one for a point in the node, and to more for all others
+      T total{0};
+      for (ind_t i=0; i<8u; ++i) total += w[i];
+      if (!(total <= T(1) + T(rounding_weight))) return false;
       auto needed = w.is(brille::cmp::gt, 0.);
       for (int i=0; i<8; ++i) if (needed[i]) {
         // the weight corresponds to the vertex opposite the one used to find the partial volume
@@ -293,13 +302,14 @@ namespace brille {
       // thus far :/ so we need an escape-hatch in case a point 'should' be
       // in *one* of the contained tetrahedra but "isn't".
       if (should_contain){
+        // the shortcut does not find a weight, so all must be found again
+        bool allow_shortcut{false};
+        for (ind_t i=0; i<vi_t.size(); ++i) most_neg[i] = tetrahedra_contains(i, vertices, x, w, allow_shortcut);
         auto i = std::distance(most_neg.begin(), std::max_element(most_neg.begin(), most_neg.end()));
+        // Any but a rounding error puts the point outside of this node
+        if (vi_t.empty() || !(most_neg[i] >= -T(rounding_weight))) return false;
         verbose_update("PolyNode does not contain ",x.to_string(0)," but should\n\tUsing tetrahedron with ",most_neg[i]," weight for one vertex");
-        bool allow_shortcut{false}; // just in case we chose an unfortunate tetrahedron
-        auto val = tetrahedra_contains(static_cast<ind_t>(i), vertices, x, w, allow_shortcut);
-        if (val > 0.){
-          throw std::runtime_error("This shouldn't be possible");
-        }
+        tetrahedra_contains(static_cast<ind_t>(i), vertices, x, w, allow_shortcut);
         for (int j=0; j<4; ++j) if (!brille::approx_float::scalar(w[j], 0.))
           iw.emplace_back(static_cast<I>(vi_t[i][j]), w[j]);
         return true;
-- 
2.43.0


From 697a7f0e3d2b9845df61b2196271c01694e6887c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:47 +0000
Subject: [PATCH 65/87] fix: a mesh can be constructed from a polyhedron and
 copied with its tolerances

---
 src/mesh.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mesh.hpp b/src/mesh.hpp
index dd33755..c2b2581 100644
--- a/src/mesh.hpp
+++ b/src/mesh.hpp
@@ -80,11 +80,12 @@ public:
   }
   template<class... Args>
   Mesh3(const poly_t& poly, Args... args){
-    this->construct(poly.vertices(), poly.facets().facets(), args...);
+    this->construct(poly.vertices(), poly.faces().faces(), args...);
   }
   Mesh3(const class_t& other){
     this->mesh = other.mesh;
     this->data_ = other.data_;
+    this->approx_ = other.approx_;
   }
   //Mesh3(TetTri  m, const data_t& d): mesh(std::move(m)), data_(d) {}
   Mesh3(mesh_t m, data_t d, approx_t a): mesh(std::move(m)), data_(std::move(d)), approx_(a) {}
@@ -93,6 +94,7 @@ public:
   auto& operator=(const class_t& other){
     this->mesh = other.mesh;
     this->data_ = other.data_;
+    this->approx_ = other.approx_;
     return *this;
   }
   [[nodiscard]] approx_t approx_config() const {return approx_;}
-- 
2.43.0


From 5343585fdab1e3c64f6b78423e8920089b2ded97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:47 +0000
Subject: [PATCH 66/87] fix: points outside of a mesh are reported with more
 than one thread

---
 src/mesh.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/mesh.hpp b/src/mesh.hpp
index c2b2581..e36ca91 100644
--- a/src/mesh.hpp
+++ b/src/mesh.hpp
@@ -27,6 +27,7 @@ along with brille. If not, see <https://www.gnu.org/licenses/>.            */
 // #include <array>
 // #include <omp.h>
 #include "interpolatordual.hpp"
+#include "thread_exception.h"
 // #include "utilities.hpp"
 // #include "permutation.hpp"
 #include <queue>
@@ -177,12 +178,23 @@ public:
     brille::Array2<DataVectors> vecs2(vecs);
     // OpenMP < v3.0 (VS uses v2.0) requires signed indexes for omp parallel
     long xsize = brille::utils::u2s<long, ind_t>(x.size(0));
-#pragma omp parallel for default(none) shared(x, vals2, vecs2, xsize) schedule(dynamic)
+    size_t missing{0};
+    ThreadException thread_ex;
+#pragma omp parallel for default(none) shared(x, vals2, vecs2, xsize, thread_ex) reduction(+:missing) schedule(dynamic)
     for (long si=0; si<xsize; ++si){
-      auto i = brille::utils::s2u<ind_t, long>(si);
-      auto verts_weights = this->mesh.locate(x.view(i));
-      data_.interpolate_at(verts_weights, vals2, vecs2, i);
+      thread_ex.run([&]{
+        auto i = brille::utils::s2u<ind_t, long>(si);
+        auto verts_weights = this->mesh.locate(x.view(i));
+        if (verts_weights.size()>0){
+          data_.interpolate_at(verts_weights, vals2, vecs2, i);
+        } else {
+          ++missing;
+        }
+      });
     }
+    thread_ex.rethrow(); // only throws if error(s) were caught
+    if (missing)
+      throw std::runtime_error(std::to_string(missing) + " point(s) not found in tetrahedral mesh");
     return std::make_tuple(vals, vecs);
   }
   //! Return the neighbours for which a passed boolean array holds true
-- 
2.43.0


From e85a7b9d0daae54a0df96582467f2cbeff99f52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:47 +0000
Subject: [PATCH 67/87] fix: the vectors interpolated from a nest have their
 own shape

---
 src/nest.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nest.hpp b/src/nest.hpp
index cd18613..3c8b3d6 100644
--- a/src/nest.hpp
+++ b/src/nest.hpp
@@ -358,7 +358,7 @@ public:
   interpolate_at(const vert_t& x) const {
     this->check_before_interpolating(x);
     auto valsh = data_.values().shape();
-    auto vecsh = data_.values().shape();
+    auto vecsh = data_.vectors().shape();
     valsh[0] = x.size(0);
     vecsh[0] = x.size(0);
     brille::Array<DataValues> vals(valsh);
@@ -373,6 +373,7 @@ public:
     for (ind_t i=0; i<x.size(0); ++i){
       // auto iw = root_.indices_weights(vertices_, map_, x.extract(i));
       auto iw = root_.indices_weights(vertices_, x.extract(i), t, n);
+      if (iw.empty()) throw std::runtime_error("Point not found in Nest");
       data_.interpolate_at(iw, vals2, vecs2, i);
     }
     return std::make_tuple(vals, vecs);
-- 
2.43.0


From a7ab23b45b07425a6d49a63dda77593b3b80a794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:47 +0000
Subject: [PATCH 68/87] fix: errors of a parallel nest interpolation reach the
 caller

---
 src/nest.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/nest.hpp b/src/nest.hpp
index 3c8b3d6..14881a5 100644
--- a/src/nest.hpp
+++ b/src/nest.hpp
@@ -34,6 +34,7 @@ along with brille. If not, see <https://www.gnu.org/licenses/>.            */
 // #include "debug.hpp"
 #include "triangulation_simple.hpp"
 #include "interpolatordual.hpp"
+#include "thread_exception.h"
 #include "approx_config.hpp"
 #include "polyhedron_flex.hpp"
 
@@ -400,16 +401,20 @@ public:
     auto t = approx_.reciprocal<double>();
     auto n = approx_.digit();
     auto xsize = brille::utils::u2s<long long, ind_t>(x.size(0));
-  #pragma omp parallel for default(none) shared(x, vals2, vecs2) reduction(+:unfound) firstprivate(xsize, t, n) schedule(dynamic)
+    ThreadException thread_ex;
+  #pragma omp parallel for default(none) shared(x, vals2, vecs2, thread_ex) reduction(+:unfound) firstprivate(xsize, t, n) schedule(dynamic)
     for (long long si=0; si<xsize; ++si){
-      auto i = brille::utils::s2u<ind_t, long long>(si);
-      auto iw = root_.indices_weights(vertices_, x.extract(i), t, n);
-      if (iw.size()){
-        data_.interpolate_at(iw, vals2, vecs2, i);
-      } else {
-        ++unfound;
-      }
+      thread_ex.run([&]{
+        auto i = brille::utils::s2u<ind_t, long long>(si);
+        auto iw = root_.indices_weights(vertices_, x.extract(i), t, n);
+        if (iw.size()){
+          data_.interpolate_at(iw, vals2, vecs2, i);
+        } else {
+          ++unfound;
+        }
+      });
     }
+    thread_ex.rethrow(); // only throws if error(s) were caught
     if (unfound > 0){
       std::string msg = std::to_string(unfound) + " points not found in Nest";
       throw std::runtime_error(msg);
-- 
2.43.0


From ebc97ee9da92b6a7602fe8536d68cf31bb14804d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:47 +0000
Subject: [PATCH 69/87] fix: errors of the parallel trellis construction reach
 the caller

---
 src/trellis_poly_parallel.tpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/trellis_poly_parallel.tpp b/src/trellis_poly_parallel.tpp
index 1dbec3f..b5c9099 100644
--- a/src/trellis_poly_parallel.tpp
+++ b/src/trellis_poly_parallel.tpp
@@ -221,6 +221,7 @@ PolyTrellis<T,R,S,A>::part_one(const poly_t& poly, const A<S>& all_points, std::
     int thread = omp_get_thread_num();
 #pragma omp for
     for (long long s_i = 0; s_i < s_count; ++s_i) {
+      thread_ex.run([&]{ // an exception must not leave the parallel region
       auto i = cube_indexes[utils::s2u<ind_t>(s_i)];
       auto this_node_faces = trellis_node_faces(i);
       // this limits all_points to have the knots *first*
@@ -240,7 +241,7 @@ PolyTrellis<T,R,S,A>::part_one(const poly_t& poly, const A<S>& all_points, std::
       } else {
         if (intersection.face_count() < 4 || intersection.volume() <= 0.) {
           node_type[i] = NodeType::found_null;
-          continue; // we don't want to re-wrap the following code block
+          return; // we don't want to re-wrap the following code block
         }
         // find which of the vertices of the intersection are knots as well.
         const auto &iv{intersection.vertices()};
@@ -257,14 +258,12 @@ PolyTrellis<T,R,S,A>::part_one(const poly_t& poly, const A<S>& all_points, std::
         auto & node_map = thread_pairs[thread].second.get(i);
         node_map.resize(iv.size(0));
         for (ind_t iv_index = 0; iv_index < iv.size(0); ++iv_index) {
-          thread_ex.run([&]{
           if (auto search = i2p.find(iv_index); search != i2p.end()) {
             node_map[iv_index] = thread_pairs[thread].first.preserve(search->second);
           } else {
 					  // might-throw:
             node_map[iv_index] = thread_pairs[thread].first.add(iv.view(iv_index), AddVertexType::Crafted);
           }
-					}); // end might-throw handler ThreadException runner
         }
       }
       // this was protected by a not-null check; but now if the node is null
@@ -279,9 +278,9 @@ PolyTrellis<T,R,S,A>::part_one(const poly_t& poly, const A<S>& all_points, std::
         if (no == 0) thread_pairs[thread].second.append(i, thread_pairs[thread].first.origin_index());
       }
       // Storing the intersection into the std::map is likely not thread safe
-      stash_mutex.lock();
+      std::lock_guard<std::mutex> stash_guard(stash_mutex);
       poly_stash.emplace(i, intersection);
-      stash_mutex.unlock();
+      }); // end might-throw handler ThreadException runner
     } // end parallel for-loop
   } // end parallel region -- back to single-thread execution
   thread_ex.rethrow(); //Now handle any encountered errors if they exist
@@ -346,8 +345,10 @@ PolyTrellis<T,R,S,A>::part_two(
 
   // Handle all cubic nodes (this probably doesn't need a parallel loop)
   auto c_count = utils::u2s<long long>(cube_indexes.size());
-#pragma omp parallel for default(none) shared(n_kept, poly_stash, cube_indexes, c_count, node_index_map)
+  ThreadException thread_ex;
+#pragma omp parallel for default(none) shared(n_kept, poly_stash, cube_indexes, c_count, node_index_map, thread_ex)
   for (long long s_i=0; s_i<c_count; ++s_i) {
+    thread_ex.run([&]{
     auto i = static_cast<ind_t>(cube_indexes[utils::s2u<ind_t>(s_i)]);
     // we already ensured we don't need to worry about Γ if this is a cube
     std::array<ind_t,8> fvi;
@@ -362,20 +363,26 @@ PolyTrellis<T,R,S,A>::part_two(
     // [1,2,6,5,3,0,4,7] to put the vertices in the 'correct' order:
     std::array<ind_t,8> cube_vert_idx{{fvi[1], fvi[2], fvi[6], fvi[5], fvi[3], fvi[0], fvi[4], fvi[7]}};
     nodes_.set(i, CubeNode(cube_vert_idx));
+    });
   }
+  thread_ex.rethrow();
 
   profile_update("Cube node vertices stored");
 
   // Handle all polyhedron nodes (this almost certainly needs to be parallel)
   ind_t fatal_tri{0}, fatal_miss{0}, fatal_match{0}, hiccups{0};
   auto p_count = utils::u2s<long long>(poly_indexes.size());
-#pragma omp parallel for default(none) shared(std::cout, n_kept, poly_stash, poly_indexes, p_count, node_index_map, s_tol, d_tol) reduction(+:fatal_tri, fatal_miss, fatal_match, hiccups)
+  // vertices_ can be replaced below, so the other threads only use what is known now
+  const auto known_vertices{vertices_};
+  std::mutex vertices_mutex;
+#pragma omp parallel for default(none) shared(std::cout, n_kept, poly_stash, poly_indexes, p_count, node_index_map, s_tol, d_tol, known_vertices, vertices_mutex, thread_ex) reduction(+:fatal_tri, fatal_miss, fatal_match, hiccups)
   for (long long s_i=0; s_i<p_count; ++s_i) {
+    thread_ex.run([&]{
     auto i = poly_indexes[utils::s2u<ind_t>(s_i)];
     //
-    auto Gamma = 0 * vertices_.view(0);
+    auto Gamma = 0 * known_vertices.view(0);
     // combine the vertex indexes for preserved (kept pristine) and appended
-    auto node_verts = vertices_.extract(node_index_map.decode(n_kept, i));
+    auto node_verts = known_vertices.extract(node_index_map.decode(n_kept, i));
 
     // get a reference the stashed Polyhedron from before:
     const auto & this_node{poly_stash.at(i)};
@@ -416,6 +423,7 @@ PolyTrellis<T,R,S,A>::part_two(
         //local_map.push_back(poly_vert_idx[known.first()]);
         local_map.push_back(node_index_map.decode(n_kept, i, known.first()));
       } else {
+        std::lock_guard<std::mutex> vertices_guard(vertices_mutex);
         auto punt = vertices_.row_is(brille::cmp::eq, trij, s_tol, s_tol, d_tol);
         if (punt.count() < 1 && added_in_triangulation > 0){
           // we've *ADDED* a new point to the triangulation, so we need to
@@ -451,7 +459,9 @@ PolyTrellis<T,R,S,A>::part_two(
       throw std::runtime_error("Triangulated node is actually Null!");
     }
     nodes_.set(i, PolyNode(idx_per_tet, cci_per_tet, vol_per_tet));
+    });
   }
+  thread_ex.rethrow();
 
   profile_update("Poly node vertexes stored");
 
-- 
2.43.0


From 38329917ac9cc633419f1bd328719ad13220dff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:02 +0000
Subject: [PATCH 70/87] fix: infinitely distant points are not in a nest

---
 src/nest.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nest.hpp b/src/nest.hpp
index 14881a5..79b2dbf 100644
--- a/src/nest.hpp
+++ b/src/nest.hpp
@@ -42,7 +42,8 @@ namespace brille {
 
 template<typename T,size_t N>
 static bool none_negative(const std::array<T,N>& x, const T t, const int n){
-  auto is_negative = [t, n](T z){return z<0 && !brille::approx_float::scalar(z, 0., t, t, n);};
+  // infinitely distant points have no finite weights
+  auto is_negative = [t, n](T z){return !std::isfinite(z) || (z<0 && !brille::approx_float::scalar(z, 0., t, t, n));};
   auto any_negative = std::any_of(x.begin(), x.end(), is_negative);
   return !any_negative;
 }
-- 
2.43.0


From 5529e7c19ea1ac4dae5b06d280b9c4b2ba7bff42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:02 +0000
Subject: [PATCH 71/87] fix: infinitely distant points are not in a trellis
 node

---
 src/trellis_node.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/trellis_node.hpp b/src/trellis_node.hpp
index 0dbf672..4fec0a9 100644
--- a/src/trellis_node.hpp
+++ b/src/trellis_node.hpp
@@ -343,6 +343,9 @@ namespace brille {
       w[1] = pseudo_orient3d(v.view(vi_t[t][0u]), x, v.view(vi_t[t][2u]), v.view(vi_t[t][3u]))[0]/vol6;
       w[2] = pseudo_orient3d(v.view(vi_t[t][0u]), v.view(vi_t[t][1u]), x, v.view(vi_t[t][3u]))[0]/vol6;
       w[3] = pseudo_orient3d(v.view(vi_t[t][0u]), v.view(vi_t[t][1u]), v.view(vi_t[t][2u]), x)[0]/vol6;
+      // without finite weights the point is infinitely far away
+      if (std::any_of(w.begin(), w.end(), [](double z){return !std::isfinite(z);}))
+        return -std::numeric_limits<double>::infinity();
       if (std::any_of(w.begin(), w.end(), [](double z){return z < 0. && !brille::approx_float::scalar(z, 0.);}))
         return *std::min_element(w.begin(), w.end());
       return 0.;
-- 
2.43.0


From 6b78f400b044d29944c86eed5c4f5831529e3972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:47 +0000
Subject: [PATCH 72/87] fix: the cost of pairing real vectors is found from
 their elements

---
 src/utilities.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utilities.tpp b/src/utilities.tpp
index 1ca981a..22fdbb6 100644
--- a/src/utilities.tpp
+++ b/src/utilities.tpp
@@ -527,7 +527,7 @@ template<class T> T magnitude(const std::complex<T> a){
   // undocumented real-valued (default) functions:
   template<class T> T antiphase(const T){return T(1);}
   template<class I, class T> T antiphase(const I, const T*, const T*){return T(1);}
-  template<class I, class T> void inplace_antiphase(const I, const T*, const T*, T*) {}
+  template<class I, class T> void inplace_antiphase(const I n, const T*, const T* b, T* phased) {for (I i=0; i<n; ++i) phased[i] = b[i];}
   template<class T, template<class> class A> T unsafe_antiphase(const A<T>&, const A<T>&){return T(1);}
 #endif
 /*! \brief Find the reciprocal phase of a complex number
-- 
2.43.0


From 28a8325bf7f478c7301744403f7090351f769e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:07 +0000
Subject: [PATCH 73/87] fix: vertices of a nest are merged with the tolerance
 of the nest

---
 src/nest.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nest.tpp b/src/nest.tpp
index b8144ad..fae29cf 100644
--- a/src/nest.tpp
+++ b/src/nest.tpp
@@ -69,7 +69,7 @@ void Nest<T,S,V,A>::subdivide(
     // If we're clever we can possibly simplify this
     bool notfound{true};
     if (nVerts > 0){
-      auto idx = norm(vertices_.view(0,nVerts)-vi).find(brille::cmp::eq,0.);
+      auto idx = norm(vertices_.view(0,nVerts)-vi).find(brille::cmp::eq, 0., approx_.reciprocal<double>(), approx_.digit());
       if (idx.size()>1)
         throw std::runtime_error("Multiple matching vertices?!");
       if (idx.size()==1){
-- 
2.43.0


From 2952ff5b7f1c421189f859f0ea4d79103c5a00b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:07 +0000
Subject: [PATCH 74/87] fix: degenerate bodies are refined by tetgen

---
 lib/tetgen/tetgen.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/tetgen/tetgen.h b/lib/tetgen/tetgen.h
index 3d7cb39..17d7a5c 100644
--- a/lib/tetgen/tetgen.h
+++ b/lib/tetgen/tetgen.h
@@ -1462,9 +1462,9 @@ public:
 
   // The random sequence must not be shared between meshes: rand() made the
   // triangulation depend on what is triangulated by other threads.
-  std::minstd_rand random_sequence;
-  void seed_random(long s) {random_sequence.seed(static_cast<std::minstd_rand::result_type>(s));}
-  int next_random() {return static_cast<int>(random_sequence());}
+  std::mt19937 random_sequence;
+  void seed_random(long s) {random_sequence.seed(static_cast<std::mt19937::result_type>(s));}
+  int next_random() {return static_cast<int>(random_sequence() >> 1);}
   REAL cosmaxdihed, cosmindihed;    // The cosine values of max/min dihedral.
   REAL cossmtdihed;     // The cosine value of a bad dihedral to be smoothed.
   REAL cosslidihed;      // The cosine value of the max dihedral of a sliver.
-- 
2.43.0


From af3e565d3e46a12de2eeb9f91dd54fbe1f7d6bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:14 +0000
Subject: [PATCH 75/87] fix: a released tetrahedron is not the start of a
 search

---
 lib/tetgen/tetgen.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tetgen/tetgen.cxx b/lib/tetgen/tetgen.cxx
index 5df658b..d26310d 100644
--- a/lib/tetgen/tetgen.cxx
+++ b/lib/tetgen/tetgen.cxx
@@ -25115,7 +25115,7 @@ int tetgenmesh::scout_point(point searchpt, triface *searchtet, int /*randflag*/
     }
   
     if (ishulltet(*searchtet)) {
-      if ((recenttet.tet != NULL) && !ishulltet(recenttet)) {
+      if ((recenttet.tet != NULL) && !isdeadtet(recenttet) && !ishulltet(recenttet)) {
         *searchtet = recenttet;
       }
     }
-- 
2.43.0


From f0c9ba36796bfe3ef87662ecfb564d94fe35f1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:10 +0000
Subject: [PATCH 76/87] fix: a point whose weights cannot be found is not in a
 tetrahedron of a trellis

---
 src/trellis_node.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trellis_node.hpp b/src/trellis_node.hpp
index 4fec0a9..6056bdc 100644
--- a/src/trellis_node.hpp
+++ b/src/trellis_node.hpp
@@ -343,8 +343,8 @@ namespace brille {
       w[1] = pseudo_orient3d(v.view(vi_t[t][0u]), x, v.view(vi_t[t][2u]), v.view(vi_t[t][3u]))[0]/vol6;
       w[2] = pseudo_orient3d(v.view(vi_t[t][0u]), v.view(vi_t[t][1u]), x, v.view(vi_t[t][3u]))[0]/vol6;
       w[3] = pseudo_orient3d(v.view(vi_t[t][0u]), v.view(vi_t[t][1u]), v.view(vi_t[t][2u]), x)[0]/vol6;
-      // without finite weights the point is infinitely far away
-      if (std::any_of(w.begin(), w.end(), [](double z){return !std::isfinite(z);}))
+      // the weights always add up to one, unless the point is too far away to find them
+      if (!(std::abs(w[0] + w[1] + w[2] + w[3] - 1.) <= rounding_weight))
         return -std::numeric_limits<double>::infinity();
       if (std::any_of(w.begin(), w.end(), [](double z){return z < 0. && !brille::approx_float::scalar(z, 0.);}))
         return *std::min_element(w.begin(), w.end());
-- 
2.43.0


From 1dc7b7b79a451ca0e501c286d51f61626c3ebb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:55 +0000
Subject: [PATCH 77/87] fix: move components along real lattice vectors by the
 operation that moves the point

---
 src/interpolator_real.tpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/interpolator_real.tpp b/src/interpolator_real.tpp
index 3e31f0f..f878c8f 100644
--- a/src/interpolator_real.tpp
+++ b/src/interpolator_real.tpp
@@ -42,18 +42,18 @@ bool Interpolator<T>::rip_real(
       for (ind_t b=0; b<b_; ++b){
         // scalar elements do not need to be rotated, so skip them
         ind_t o = b*s_ + no[0];
-        // rotate real vectors: since Q = Rᵀq + τ → Rv
+        // rotate real vectors: since Q = Rᵀq + τ → R⁻¹v
         for (ind_t v=0; v<no[1]; ++v){
-          brille::utils::mul_mat_vec(tmp_v, 3u, ptsym.get(r[i]).data(), xi+o);
+          brille::utils::mul_mat_vec(tmp_v, 3u, ptsym.get(invR[i]).data(), xi+o);
           for (int j=0; j<3; ++j) x.val(i,o+j) = tmp_v[j];
           o += 3u; // shift 3 for each vector
         }
         for (ind_t m=0; m<no[2]; ++m){
-          // Calculate R*M*R⁻¹ in two steps
-          // first calculate M*R⁻¹, storing in tmp_m
-          brille::utils::mul_mat_mat(tmp_m, 3u, xi+o, ptsym.get(invR[i]).data());
-          // next calculate R*tmp_m, storing back in the x array
-          brille::utils::mul_mat_mat(xi+o, 3u, ptsym.get(r[i]).data(), tmp_m);
+          // Calculate R⁻¹*M*R in two steps
+          // first calculate M*R, storing in tmp_m
+          brille::utils::mul_mat_mat(tmp_m, 3u, xi+o, ptsym.get(r[i]).data());
+          // next calculate R⁻¹*tmp_m, storing back in the x array
+          brille::utils::mul_mat_mat(xi+o, 3u, ptsym.get(invR[i]).data(), tmp_m);
           o += 9u; // shift 9 for each matrix
         }
       }
-- 
2.43.0


From 790402a25011da6202774755004fb88b83adffc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:55 +0000
Subject: [PATCH 78/87] fix: phonon eigenvectors and dynamical matrices have
 one vector or matrix per atom or pair

---
 src/interpolator_gamma.tpp | 19 +++++++++++--------
 src/phonon.hpp             |  6 ++++--
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/interpolator_gamma.tpp b/src/interpolator_gamma.tpp
index c45db2e..2fb4eb8 100644
--- a/src/interpolator_gamma.tpp
+++ b/src/interpolator_gamma.tpp
@@ -63,12 +63,14 @@ bool Interpolator<T>::rip_gamma_complex(
   auto no = this->count_scalars_vectors_matrices();
   if (!std::any_of(no.begin()+1, no.end(), [](ind_t n){return n>0;}))
     return false;
+  // for Γ transformations of vectors there must be one for each atom
+  const auto n_atoms = pgt.size();
+  if (no[1] != 0 && no[1] != n_atoms)
+    throw std::runtime_error("Atomic displacement Gamma transformation requires one vector per atom!");
   // for Γ transformations of tensors, there *must* be N×N in total:
-  ind_t Nmat = static_cast<ind_t>(std::sqrt(no[2]))/3;
-  if (no[2] != 9*Nmat*Nmat){
-    std::cout << "Atomic displacement Gamma transformation requires NxN 3x3 tensors!" << std::endl;
-    return false;
-  }
+  const ind_t Nmat{no[2] ? n_atoms : 0u};
+  if (no[2] != Nmat*Nmat)
+    throw std::runtime_error("Atomic displacement Gamma transformation requires NxN 3x3 tensors!");
   const ind_t b_{this->branches()}, s_{this->branch_span()};
   // OpenMP < v3.0 (VS uses v2.0) requires signed indexes for omp parallel
   long long xsize = brille::utils::u2s<long long, ind_t>(x.size(0));
@@ -115,11 +117,12 @@ bool Interpolator<T>::rip_gamma_complex(
       }
       if (no[2]>0){
         if (tA.size() < no[2]*9u) tA.resize(no[2]*9u);
+        // both atoms are moved by R⁻¹, like those of the outer product of two vectors
         for (ind_t n=0; n<Nmat; ++n){
-          T Rph = e_iqd_gt(i, n, Rii);
-          ind_t v = static_cast<ind_t>(pgt.F0(n, Rii));
+          T Rph = e_iqd_gt(i, n, iRii);
+          ind_t v = static_cast<ind_t>(pgt.F0(n, iRii));
           for (ind_t m=0; m<Nmat; ++m){
-            T iRph = e_iqd_gt(i, m, iRii);
+            T iRph = std::conj(e_iqd_gt(i, m, iRii));
             ind_t k = static_cast<ind_t>(pgt.F0(m, iRii));
             // Calculate R⁻¹*M*R in two steps
             // first calculate M*R, storing in t0
diff --git a/src/phonon.hpp b/src/phonon.hpp
index 64822d8..0f4c62b 100644
--- a/src/phonon.hpp
+++ b/src/phonon.hpp
@@ -96,8 +96,8 @@ private:
   std::vector<ind_t> point2space_; //! maps Rᵣ to Sᵣ
   // use std::vectors instead of std::map for the mapping since we know the
   // total number of keys and how to calculate their positions in the vector
-  ind_t n_atoms;
-  ind_t n_sym_ops;
+  ind_t n_atoms{0};
+  ind_t n_sym_ops{0};
   std::vector<ind_t> l_mapping; //! maps (κ,r) to l=Nₒ(κ,Sᵣ)
   std::vector<ind_t> v_mapping; //! maps (κ,r) to v
   lattice_t lattice_;
@@ -165,6 +165,8 @@ public:
     vectors_.resize(count); // not really necessary memory copy?
     return true;
   }
+  //! Return the number of atoms for which the table is known
+  [[nodiscard]] ind_t size() const {return n_atoms;}
   template<class Ik, class Ir>
   ind_t F0(Ik k, Ir r) const {
     return l_mapping[this->calc_key(k,r)];
-- 
2.43.0


From 9822cf55946c994f71683bd969b32c1bd22a4d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:55 +0000
Subject: [PATCH 79/87] fix: values which rotate like phonons need the table of
 atoms too

---
 src/bz_mesh.hpp    | 2 +-
 src/bz_nest.hpp    | 2 +-
 src/bz_trellis.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bz_mesh.hpp b/src/bz_mesh.hpp
index 19d2a6d..125d020 100644
--- a/src/bz_mesh.hpp
+++ b/src/bz_mesh.hpp
@@ -122,7 +122,7 @@ public:
     auto cfg = this->approx_config();
     auto s_tol = cfg.template direct<double>();
     auto n_tol = cfg.digit();
-    bool needed = RotatesLike::Gamma == this->data().vectors().rotateslike();
+    bool needed = RotatesLike::Gamma == this->data().vectors().rotateslike() || RotatesLike::Gamma == this->data().values().rotateslike();
     auto pgt = GammaTable(needed, bz_.get_lattice(), bz_.add_time_reversal(), s_tol, n_tol);
     //
     brille::Array2<T> vals2(vals);
diff --git a/src/bz_nest.hpp b/src/bz_nest.hpp
index d35f264..9d70311 100644
--- a/src/bz_nest.hpp
+++ b/src/bz_nest.hpp
@@ -114,7 +114,7 @@ public:
     auto cfg = this->approx_config();
     auto s_tol = cfg.template direct<double>();
     auto n_tol = cfg.digit();
-    bool needed = RotatesLike::Gamma == this->data().vectors().rotateslike();
+    bool needed = RotatesLike::Gamma == this->data().vectors().rotateslike() || RotatesLike::Gamma == this->data().values().rotateslike();
     auto pgt = GammaTable(needed, bz_.get_lattice(), bz_.add_time_reversal(), s_tol, n_tol);
     //
     brille::Array2<T> vals2(vals);
diff --git a/src/bz_trellis.hpp b/src/bz_trellis.hpp
index 77de7ff..0b5bbfa 100644
--- a/src/bz_trellis.hpp
+++ b/src/bz_trellis.hpp
@@ -182,7 +182,7 @@ public:
     auto cfg = this->approx_config();
     auto s_tol = cfg.template direct<double>();
     auto n_tol = cfg.digit();
-    bool needed = RotatesLike::Gamma == this->data().vectors().rotateslike();
+    bool needed = RotatesLike::Gamma == this->data().vectors().rotateslike() || RotatesLike::Gamma == this->data().values().rotateslike();
     auto pgt = GammaTable(needed, bz_.get_lattice(), bz_.add_time_reversal(), s_tol, n_tol);
     // make data-sharing Array2 objects for the rotation functions
     brille::Array2<T> vals2(vals);
-- 
2.43.0


From 8d7b6396ff0fcb9c3b6ab0468c743d80aa3f07aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:55 +0000
Subject: [PATCH 80/87] fix: refuse to rotate data without an operation for
 every point

---
 src/interpolator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/interpolator.hpp b/src/interpolator.hpp
index 7fcba0b..7f14a2a 100644
--- a/src/interpolator.hpp
+++ b/src/interpolator.hpp
@@ -391,6 +391,10 @@ public:
                        const std::vector<size_t>& r,
                        const std::vector<size_t>& invr,
                        const int nth=0) const {
+    if (r.size() < x.size(0) || invr.size() < x.size(0))
+      throw std::runtime_error("The operation and its inverse are required for every point");
+    for (ind_t i=0; i<x.size(0); ++i) if (r[i] >= ps.size() || invr[i] >= ps.size())
+      throw std::runtime_error("The operations must be indexes into the point group");
     switch (lenunit_) {
       case LengthUnit::real_lattice: {
         switch (rotlike_) {
-- 
2.43.0


From 8b7b6d44e27cfc7a2c1a5c8f87138457a6de2718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:57 +0000
Subject: [PATCH 81/87] fix: keep the vector cost function of interpolation
 data when it is read from a file

---
 src/interpolator.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/interpolator.hpp b/src/interpolator.hpp
index 7f14a2a..87343fd 100644
--- a/src/interpolator.hpp
+++ b/src/interpolator.hpp
@@ -260,28 +260,28 @@ public:
       this->_vectorfun = [](ind_t n, const T* i, const T* j){
         return brille::utils::vector_distance(n, i, j);
       };
-      _funtype[0] = 1;
+      _funtype[1] = 1;
       break;
       case 2:
       debug_update("selecting 1-brille::utils::vector_product");
       this->_vectorfun = [](ind_t n, const T* i, const T* j){
         return 1-brille::utils::vector_product(n, i, j);
       };
-      _funtype[0] = 2;
+      _funtype[1] = 2;
       break;
       case 3:
       debug_update("selecting brille::utils::vector_angle");
       this->_vectorfun = [](ind_t n, const T* i, const T* j){
         return brille::utils::vector_angle(n, i, j);
       };
-      _funtype[0] = 3;
+      _funtype[1] = 3;
       break;
       case 4:
       debug_update("selecting brille::utils::hermitian_angle");
       this->_vectorfun = [](ind_t n, const T* i, const T* j){
          return brille::utils::hermitian_angle(n,i,j);
       };
-      _funtype[0] = 4;
+      _funtype[1] = 4;
       break;
       default:
       debug_update("selecting sin**2(brille::utils::hermitian_angle)");
-- 
2.43.0


From 5fa2c7da9c55c2ffbbbb18799d75f6221e377223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:57 +0000
Subject: [PATCH 82/87] fix: keep the order of point operations when they are
 read from a file

---
 src/pointsymmetry.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pointsymmetry.hpp b/src/pointsymmetry.hpp
index 58383bf..e5e76ee 100644
--- a/src/pointsymmetry.hpp
+++ b/src/pointsymmetry.hpp
@@ -107,9 +107,10 @@ public:
     from_hdf(HF& obj, const std::string& entry){
         std::vector<HF_Matrix<int>> hfm;
         obj.getDataSet(entry).read(hfm);
-        Matrices<int> m;
-        for (const auto& x: hfm) m.push_back(x.array());
-        return PointSymmetry(m);
+        // the stored order is that which any stored or returned operation index refers to
+        PointSymmetry p;
+        for (const auto& x: hfm) p.R.push_back(x.array());
+        return p;
     }
 
 };
-- 
2.43.0


From 448eeed0ae01b0ec31b3abe9b15ea09870344e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:32 +0000
Subject: [PATCH 83/87] fix: grow the list of added vertices also when nothing
 was reserved for it

---
 src/vertex_map_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vertex_map_set.h b/src/vertex_map_set.h
index 05808c9..f208528 100644
--- a/src/vertex_map_set.h
+++ b/src/vertex_map_set.h
@@ -229,7 +229,7 @@ private:
   }
 
   rel_t insert(const A<T>& vertex){
-    if (appended_.size(0) < appended_count_ + 1u) appended_.resize(2 * appended_count_);
+    if (appended_.size(0) < appended_count_ + 1u) appended_.resize(std::max<ind_t>(2 * appended_count_, appended_count_ + 1u));
     appended_.set(appended_count_, vertex);
     //return pristine_count() + appended_count_++;
     return std::make_pair(MapVertexType::Appended, appended_count_++);
-- 
2.43.0


From ac746cc3a265d5b20c0495bc42171db8098bf1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:40 +0000
Subject: [PATCH 84/87] fix: release shared array storage exactly once across
 threads

---
 src/array.hpp  | 29 ++++++++++++-----------------
 src/array.tpp  |  4 +---
 src/array2.hpp | 29 ++++++++++++-----------------
 src/array2.tpp |  4 +---
 4 files changed, 26 insertions(+), 40 deletions(-)

diff --git a/src/array.hpp b/src/array.hpp
index 6419bad..be1f7aa 100644
--- a/src/array.hpp
+++ b/src/array.hpp
@@ -141,7 +141,7 @@ public:
   Array(T* data, const ind_t num, const bool own, const bool mut=true)
   // : _data(data), _num(num), _own(own), _ref(std::make_shared<char>()),
   //   _mutable(mut), _offset({0}), _shape({num}), _stride({1})
-  : _data(data), _num(num), _shift(0u), _own(own), _ref(std::make_shared<char>()),
+  : _data(data), _num(num), _shift(0u), _own(own), _ref(own ? hold(data) : std::make_shared<char>()),
     _mutable(mut), _shape({num}), _stride({1})
   {
     this->init_check();
@@ -151,7 +151,7 @@ public:
     const shape_t& shape, const shape_t& stride, const bool mut=true)
   // : _data(data), _num(num), _own(own), _ref(std::make_shared<char>()),
   //   _mutable(mut), _offset(shape.size(),0), _shape(shape), _stride(stride)
-  : _data(data), _num(num), _shift(0u), _own(own), _ref(std::make_shared<char>()),
+  : _data(data), _num(num), _shift(0u), _own(own), _ref(own ? hold(data) : std::make_shared<char>()),
     _mutable(mut), _shape(shape), _stride(stride)
   {
     this->init_check();
@@ -269,21 +269,12 @@ public:
   : _data(o._data), _num(o._num), _shift(o._shift), _own(o._own), _ref(o._ref),
     _mutable(o._mutable), _shape(o._shape), _stride(o._stride)
   {}
-  ~Array(){
-    if (_own && _ref.use_count()==1 && _data != nullptr) delete[] _data;
-  }
+  // an owned raw array is released by its reference counter, see hold()
+  ~Array() = default;
   Array<T>& operator=(const Array<T>& other){
     if (this != &other){
-      if (_own){
-        T* old_data = _data;
-        ref_t old_ref = _ref;
-        _data = other._data;
-        _ref = other._ref;
-        if (old_ref.use_count()==1 && old_data != nullptr) delete[] old_data;
-      } else {
-        _data = other._data;
-        _ref = other._ref;
-      }
+      _data = other._data;
+      _ref = other._ref;
       _own = other.own();
       _num = other.raw_size();
       _shift = other.raw_shift();
@@ -352,6 +343,10 @@ protected: // so inherited classes can calculate subscript indexes into their da
     return sub2lin(s, _stride) + _shift;
   }
 private:
+  // The last holder of a reference to an owned raw array releases it. Counting
+  // the references and dropping one of them is a single operation, so this
+  // holds when copies of an array are dropped by different threads.
+  static ref_t hold(T* data) {return std::shared_ptr<T>(data, std::default_delete<T[]>());}
   ind_t size_from_shape(const shape_t& s) const {
     // std::reduce can perform the same operation in parallel, but isn't implemented
     // in the gcc libraries until v9.3. Since the number of dimensions is (probably)
@@ -364,8 +359,8 @@ private:
   void construct() {
     _num = this->size_from_shape();
     if (_num > 0){
-      _ref = std::make_shared<char>();
       _data = new T[_num]();
+      _ref = hold(_data);
       _own = true;
     } else {
       _data = nullptr;
@@ -430,7 +425,7 @@ private:
       for (auto x: SubIt(_shape)) new_data[sub2lin(x,new_st)] = _data[this->s2l_d(x)];
     }
     bool new_own = true; // always take ownership of C++ allocated memory
-    auto new_ref = std::make_shared<char>(); // always use the default with C++ created arrays
+    auto new_ref = hold(new_data); // always use the default with C++ created arrays
     bool new_mut = true; // new allocated memory should be mutable
     return Array<T>(new_data, nnum, new_own, new_ref, _shape, new_st, new_mut);
   }
diff --git a/src/array.tpp b/src/array.tpp
index ceaab1f..add84d9 100644
--- a/src/array.tpp
+++ b/src/array.tpp
@@ -362,14 +362,12 @@ Array<T>::resize(const shape_t& ns, const T init) {
   // copy into the new array if the old array isn't the null pointer
   if (_data != nullptr && nd != nullptr)
     for (auto x : SubIt(inside)) nd[sub2lin(x, nt)] = _data[sub2lin(x, _stride) + _shift];
-  // delete the old _data if we hold the only reference
-  if (_own && _ref.use_count()==1 && _data != nullptr) delete[] _data;
   // update data, number, ownership, reference, size, stride, and mutability
   _data = nd;
   _shift = 0u;
   _num = nnum;
   _own = true;
-  _ref = std::make_shared<char>(); // resizing in place can not change the template parameter
+  _ref = hold(nd); // releases the old _data if we held its only reference
   // _offset = shape_t(ns.size(), 0);
   _shape = ns;
   _stride = nt;
diff --git a/src/array2.hpp b/src/array2.hpp
index b90a8fb..ae1a03d 100644
--- a/src/array2.hpp
+++ b/src/array2.hpp
@@ -123,7 +123,7 @@ public:
   {}
   // 1D initializer
   Array2(T* data, const ind_t num, const bool own, const bool mut=true)
-  : _data(data), _num(num), _shift(0u), _own(own), _ref(std::make_shared<std::atomic<char>>()),
+  : _data(data), _num(num), _shift(0u), _own(own), _ref(own ? hold(data) : std::make_shared<std::atomic<char>>()),
     _mutable(mut), _shape({num,1}), _stride({1,1})
   {
     this->init_check();
@@ -131,7 +131,7 @@ public:
   // 2D initializer
   Array2(T* data, const ind_t num, const bool own,
     const shape_t& shape, const shape_t& stride, const bool mut=true)
-  : _data(data), _num(num), _shift(0u), _own(own), _ref(std::make_shared<std::atomic<char>>()),
+  : _data(data), _num(num), _shift(0u), _own(own), _ref(own ? hold(data) : std::make_shared<std::atomic<char>>()),
     _mutable(mut), _shape(shape), _stride(stride)
   {
     this->init_check();
@@ -246,21 +246,12 @@ public:
   : _data(o._data), _num(o._num), _shift(o._shift), _own(o._own), _ref(o._ref),
     _mutable(o._mutable), _shape(o._shape), _stride(o._stride)
   {}
-  ~Array2(){
-    if (_own && _ref.use_count()==1 && _data != nullptr) delete[] _data;
-  }
+  // an owned raw array is released by its reference counter, see hold()
+  ~Array2() = default;
   Array2<T>& operator=(const Array2<T>& other){
     if (this != &other){
-      if (_own){
-        T* old_data = _data;
-        ref_t old_ref = _ref;
-        _data = other._data;
-        _ref = other._ref;
-        if (old_ref.use_count()==1 && old_data != nullptr) delete[] old_data;
-      } else {
-        _data = other._data;
-        _ref = other._ref;
-      }
+      _data = other._data;
+      _ref = other._ref;
       _own = other.own();
       _num = other.raw_size();
       _shift = other.raw_shift();
@@ -317,6 +308,10 @@ protected: // so inherited classes can calculate subscript indexes into their da
     return sub2lin(s, _stride) + _shift;
   }
 private:
+  // The last holder of a reference to an owned raw array releases it. Counting
+  // the references and dropping one of them is a single operation, so this
+  // holds when copies of an array are dropped by different threads.
+  static ref_t hold(T* data) {return std::shared_ptr<T>(data, std::default_delete<T[]>());}
   [[nodiscard]] ind_t size_from_shape(const shape_t& s) const {
     return s[0]*s[1];
   }
@@ -324,8 +319,8 @@ private:
   void construct() {
     _num = this->size_from_shape();
     if (_num > 0){
-      _ref = std::make_shared<std::atomic<char>>();
       _data = new T[_num]();
+      _ref = hold(_data);
       _own = true;
     } else {
       _data = nullptr;
@@ -378,7 +373,7 @@ private:
       for (const auto & x: this->subItr()) new_data[sub2lin(x,new_st)] = _data[this->s2l_d(x)];
     }
     bool new_own = true; // always take ownership of C++ allocated memory
-    auto new_ref = std::make_shared<std::atomic<char>>(); // always use the default with C++ created arrays
+    auto new_ref = hold(new_data); // always use the default with C++ created arrays
     bool new_mut = true; // new allocated memory should be mutable
     return Array2<T>(new_data, nnum, new_own, new_ref, _shape, new_st, new_mut);
   }
diff --git a/src/array2.tpp b/src/array2.tpp
index c947b20..b5b85c3 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -355,14 +355,12 @@ Array2<T>::resize(const shape_t& ns, const T init) {
   // copy into the new array if the old array isn't the null pointer
   if (_data != nullptr && nd != nullptr)
     for (auto x : SubIt2(inside)) nd[sub2lin(x, nt)] = _data[sub2lin(x, _stride) + _shift];
-  // delete the old _data if we hold the only reference
-  if (_own && _ref.use_count()==1 && _data != nullptr) delete[] _data;
   // update data, number, ownership, reference, size, stride, and mutability
   _data = nd;
   _shift = 0u;
   _num = nnum;
   _own = true;
-  _ref = std::make_shared<char>(); // resizing in place can not change the template parameter
+  _ref = hold(nd); // releases the old _data if we held its only reference
   _shape = ns;
   _stride = nt;
   _mutable = true;
-- 
2.43.0


From b35a89a7594d66cb29c51d018e97693a7cec8450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:38 +0000
Subject: [PATCH 85/87] fix: collect exceptions which are not std::exception

---
 src/thread_exception.h | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/thread_exception.h b/src/thread_exception.h
index cc6d03d..1049714 100644
--- a/src/thread_exception.h
+++ b/src/thread_exception.h
@@ -3,21 +3,29 @@
 #include <exception>
 #include <mutex>
 #include <sstream>
+#include <stdexcept>
+#include <string>
 
 class ThreadException {
   size_t count_=0;
   std::exception_ptr ptr_=nullptr;
   std::mutex         lock_;
+  // not everything thrown is a std::exception, e.g., tetgen throws an int
+  static std::string message(const std::exception_ptr & ptr){
+    try {
+      if (ptr) std::rethrow_exception(ptr);
+    } catch (const std::exception & e){
+      return e.what();
+    } catch (...) {
+      return "unknown exception";
+    }
+    return "";
+  }
 public:
   void rethrow(){
     if (count_>1) {
       std::ostringstream oss;
-      oss << count_ << " exceptions occurred:\n";
-      try {
-        if (ptr_) std::rethrow_exception(ptr_);
-      } catch (const std::exception & e){
-        oss << e.what();
-      }
+      oss << count_ << " exceptions occurred:\n" << message(ptr_);
       ptr_ = std::make_exception_ptr(std::runtime_error(oss.str()));
     }
     if (ptr_) std::rethrow_exception(ptr_);
@@ -26,16 +34,7 @@ public:
     std::unique_lock<std::mutex> guard(lock_);
     if (count_++) {
       std::ostringstream oss;
-      try {
-        if (ptr_) std::rethrow_exception(ptr_);
-      } catch (const std::exception & e){
-        oss << e.what();
-      }
-      try {
-        std::rethrow_exception(std::current_exception());
-      } catch (const std::exception & e){
-        oss << "\n" << e.what();
-      }
+      oss << message(ptr_) << "\n" << message(std::current_exception());
       ptr_ = std::make_exception_ptr(std::runtime_error(oss.str()));
     } else {
       ptr_ = std::current_exception();
-- 
2.43.0


From cb0dcb4d9dafcf390fe06066dc1fbc8bca2a3160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:38 +0000
Subject: [PATCH 86/87] fix: let errors in worker threads reach the caller

---
 src/bz.hpp                    |  9 +++++++--
 src/bz_move.cpp               | 18 +++++++++++-------
 src/interpolator.hpp          |  1 +
 src/interpolator_gamma.tpp    |  8 ++++++--
 src/interpolatordual.hpp      | 10 +++++++---
 src/trellis_poly_parallel.tpp | 22 ++++++++++++++++------
 src/triangulation_layers.hpp  | 25 ++++++++++++++++++-------
 src/triangulation_poly.hpp    |  4 ++--
 src/vertex_map_knit.h         | 11 ++++++++---
 9 files changed, 76 insertions(+), 32 deletions(-)

diff --git a/src/bz.hpp b/src/bz.hpp
index 7a50210..a634652 100644
--- a/src/bz.hpp
+++ b/src/bz.hpp
@@ -32,6 +32,7 @@ along with brille. If not, see <https://www.gnu.org/licenses/>.            */
 #include "bz_config.hpp"
 #include "approx_float.hpp"
 #include "approx_config.hpp"
+#include "thread_exception.h"
 
 namespace brille {
 /*! \brief An object to hold information about the first Brillouin zone of a
@@ -693,11 +694,15 @@ public:
       // so when identifying whether a point is inside of the irreducible
       // Brillouin zone we must allow for the ≤0 case as well.
       cmp c = pos || no_ir_mirroring ? cmp::ge : cmp::le_ge;
-#pragma omp parallel for default(none) shared(inside, normals, p, c)           \
+      ThreadException thread_ex;
+#pragma omp parallel for default(none) shared(inside, normals, p, c, thread_ex) \
     schedule(dynamic)
       for (long long i = 0; i < p.size(0); ++i) // separately changed to ind_t
         //TODO Add tolerance here?
-        inside[i] = dot(normals, p.view(i)).all(c, 0.) ? 1 : 0;
+        thread_ex.run([&]{ // an exception must not leave the parallel region
+          inside[i] = dot(normals, p.view(i)).all(c, 0.) ? 1 : 0;
+        });
+      thread_ex.rethrow();
     }
     return {inside.begin(), inside.end()};
   }
diff --git a/src/bz_move.cpp b/src/bz_move.cpp
index f91fa7e..0c24a99 100644
--- a/src/bz_move.cpp
+++ b/src/bz_move.cpp
@@ -312,17 +312,19 @@ bool BrillouinZone::ir_moveinto_wedge(const LVec<double>& Q, LVec<double>& q, st
   // OpenMP 2 (VS) doesn't like unsigned loop counters
   size_t n_outside{0};
   auto snQ = brille::utils::u2s<long long, ind_t>(nQ);
-#pragma omp parallel default(none) shared(R, q, Q, lat, snQ) reduction(+:n_outside)
+  // get the PointSymmetry object, containing all operations
+  auto psym = this->_outer.pointgroup_symmetry();
+  if (time_reversal) psym = psym.add_space_inversion();
+  auto eidx = psym.find_identity_index();
+  std::vector<std::array<int, 9>> r_transpose;
+  for (const auto& r: psym.getall()) r_transpose.push_back(transpose(r));
+  ThreadException thread_ex;
+#pragma omp parallel default(none) shared(R, q, Q, lat, snQ, psym, eidx, r_transpose, thread_ex) reduction(+:n_outside)
   {
-    // get the PointSymmetry object, containing all operations
-    auto psym = this->_outer.pointgroup_symmetry();
-    if (time_reversal) psym = psym.add_space_inversion();
-    auto eidx = psym.find_identity_index();
     std::array<double, 3> q_j{0,0,0}; // temporary result storage
-    std::vector<std::array<int, 9>> r_transpose;
-    for (const auto& r: psym.getall()) r_transpose.push_back(transpose(r));
 #pragma omp for schedule(dynamic)
     for (long long si = 0; si < snQ; ++si) {
+      thread_ex.run([&]{ // an exception must not leave the parallel region
       auto i = brille::utils::s2u<ind_t, long long>(si);
       // any q already in the irreducible zone need no rotation → identity
       bool inside{_inside_wedge_outer(Q.view(i))};
@@ -343,8 +345,10 @@ bool BrillouinZone::ir_moveinto_wedge(const LVec<double>& Q, LVec<double>& q, st
           }
       }
       if (!inside) ++n_outside;
+      });
     }
   }
+  thread_ex.rethrow();
   if (n_outside > 0) for (ind_t i=0; i<nQ; ++i) if (!_inside_wedge_outer(q.view(i))){
         std::string msg = "Q = " + Q.to_string(i);
         msg += " is outside of the irreducible reciprocal space wedge ";
diff --git a/src/interpolator.hpp b/src/interpolator.hpp
index 87343fd..79f1ca7 100644
--- a/src/interpolator.hpp
+++ b/src/interpolator.hpp
@@ -31,6 +31,7 @@ along with brille. If not, see <https://www.gnu.org/licenses/>.            */
 #include "permutation.hpp"
 #include "permutation_table.hpp"
 #include "rotates.hpp"
+#include "thread_exception.h"
 namespace brille {
 
 /*! \brief A function to calculate a scalar property of two arrays
diff --git a/src/interpolator_gamma.tpp b/src/interpolator_gamma.tpp
index 2fb4eb8..e15bff4 100644
--- a/src/interpolator_gamma.tpp
+++ b/src/interpolator_gamma.tpp
@@ -76,13 +76,15 @@ bool Interpolator<T>::rip_gamma_complex(
   long long xsize = brille::utils::u2s<long long, ind_t>(x.size(0));
   std::vector<T> tA;
   T t0[9], t1[9];
+  ThreadException thread_ex;
 
 #if defined(__GNUC__) && !defined(__llvm__) && __GNUC__ < 9
-#pragma omp parallel for default(none) shared(x,q,pgt,rot,ridx,invRidx,e_iqd_gt) private(t0,t1,tA) firstprivate(no,Nmat,xsize) schedule(static)
+#pragma omp parallel for default(none) shared(x,q,pgt,rot,ridx,invRidx,e_iqd_gt,thread_ex) private(t0,t1,tA) firstprivate(no,Nmat,xsize) schedule(static)
 #else
-#pragma omp parallel for default(none) shared(b_,s_,x,q,pgt,rot,ridx,invRidx,e_iqd_gt) private(t0,t1,tA) firstprivate(no,Nmat,xsize) schedule(static)
+#pragma omp parallel for default(none) shared(b_,s_,x,q,pgt,rot,ridx,invRidx,e_iqd_gt,thread_ex) private(t0,t1,tA) firstprivate(no,Nmat,xsize) schedule(static)
 #endif
   for (long long si=0; si<xsize; ++si){
+    thread_ex.run([&]{ // an exception must not leave the parallel region
     ind_t i = brille::utils::s2u<ind_t, long long>(si);
     T * xi = x.ptr(i);
     size_t Rii = ridx[i], iRii = invRidx[i];
@@ -136,7 +138,9 @@ bool Interpolator<T>::rip_gamma_complex(
         for (ind_t j=0; j<no[2]*9u; ++j) xi[o+j] = tA[j];
       }
     }
+    });
   }
+  thread_ex.rethrow();
   profile_update("  End Interpolator::rip_gamma_complex method");
   return true;
 }
diff --git a/src/interpolatordual.hpp b/src/interpolatordual.hpp
index 50bdca0..ec5567e 100644
--- a/src/interpolatordual.hpp
+++ b/src/interpolatordual.hpp
@@ -412,11 +412,15 @@ DualInterpolator<T,R>::sort(){
   // now find the permutations in parallel
   std::mutex m;
   auto nok = brille::utils::u2s<long long, size_t>(tri_ij.size());
-  #pragma omp parallel for default(none) shared(tri_ij, m, nok)
+  ThreadException thread_ex;
+  #pragma omp parallel for default(none) shared(tri_ij, m, nok, thread_ex)
   for (long long sk=0; sk<nok; ++sk){
-    auto k = brille::utils::s2u<size_t, long long>(sk);
-    this->determine_permutation_ij(tri_ij[k][0], tri_ij[k][1], m);
+    thread_ex.run([&]{ // an exception must not leave the parallel region
+      auto k = brille::utils::s2u<size_t, long long>(sk);
+      this->determine_permutation_ij(tri_ij[k][0], tri_ij[k][1], m);
+    });
   }
+  thread_ex.rethrow();
   debug_update("Done");
 }
 
diff --git a/src/trellis_poly_parallel.tpp b/src/trellis_poly_parallel.tpp
index b5c9099..85503f3 100644
--- a/src/trellis_poly_parallel.tpp
+++ b/src/trellis_poly_parallel.tpp
@@ -192,7 +192,8 @@ PolyTrellis<T,R,S,A>::part_one(const poly_t& poly, const A<S>& all_points, std::
   for (ind_t i=0; i < nNodes; ++i) if (NodeType::cube == node_type[i]) cube_indexes.push_back(i);
 
 //#pragma omp parallel master default(none) shared(all_points, s_tol, d_tol, thread_pairs)
-#pragma omp parallel default(none) shared(all_points, s_tol, d_tol, thread_pairs)
+  ThreadException thread_ex;
+#pragma omp parallel default(none) shared(all_points, s_tol, d_tol, thread_pairs, thread_ex)
   {
     // Perform per-thread initialization *inside* a parallel region, because
     // we don't know how many threads the pool will have outside.
@@ -202,16 +203,19 @@ PolyTrellis<T,R,S,A>::part_one(const poly_t& poly, const A<S>& all_points, std::
 #pragma omp master
     {
     int n_threads = omp_get_num_threads();
+    thread_ex.run([&]{ // an exception must not leave the parallel region
     for (int i = 0; i < n_threads; ++i) {
       thread_pairs.push_back(std::make_pair(VertexMapSet<S,A>(all_points, s_tol, d_tol),
                               VertexIndexMap()));
       }
+    });
     }
   }
 
+  thread_ex.rethrow();
+
   auto test0 = !always_triangulate;
   auto s_count = utils::u2s<long long>(cube_indexes.size());
-  ThreadException thread_ex;
 #pragma omp parallel default(none)\
                      shared(poly, poly_stash, stash_mutex, test0, node_type,\
                      s_count, cube_indexes, s_tol, d_tol,\
@@ -483,17 +487,23 @@ PolyTrellis<T,R,S,A>::collect_keys() {
   profile_update("Start of PolyTrellis permutation key collection");
   std::set<size_t> keys;
   long long nnodes = brille::utils::u2s<long long, size_t>(nodes_.size());
-  #pragma omp parallel for default(none) shared(keys, nnodes)
+  ThreadException thread_ex;
+  #pragma omp parallel for default(none) shared(keys, nnodes, thread_ex)
   for (long long sni=0; sni<nnodes; ++sni){
-    ind_t ni = brille::utils::s2u<ind_t, long long>(sni);
-    std::set<size_t> t = this->collect_keys_node(ni);
+    std::set<size_t> t;
+    // an exception must not leave the parallel region or the critical section
+    thread_ex.run([&]{
+      ind_t ni = brille::utils::s2u<ind_t, long long>(sni);
+      t = this->collect_keys_node(ni);
+    });
     if (t.size()){
       #pragma omp critical
       {
-        keys.insert(t.begin(), t.end());
+        thread_ex.run([&]{keys.insert(t.begin(), t.end());});
       }
     }
   }
+  thread_ex.rethrow();
   profile_update("  End of PolyTrellis permutation key collection");
   return keys;
 }
diff --git a/src/triangulation_layers.hpp b/src/triangulation_layers.hpp
index cfd0b37..1e5ed0a 100644
--- a/src/triangulation_layers.hpp
+++ b/src/triangulation_layers.hpp
@@ -29,6 +29,7 @@ along with brille. If not, see <https://www.gnu.org/licenses/>.            */
 // #include <cassert>
 // #include <algorithm>
 #include "array_.hpp" // defines bArray
+#include "thread_exception.h"
 #include "tetgen.h"
 #include "polyhedron_flex.hpp"
 #include "approx_config.hpp"
@@ -250,16 +251,22 @@ public:
     auto ntets = brille::utils::u2s<long long, ind_t>(this->number_of_tetrahedra());
     ind_t nvert = this->number_of_vertices();
     std::set<size_t> keys;
-    #pragma omp parallel for default(none) shared(ntets, keys, nvert)
+    ThreadException thread_ex;
+    #pragma omp parallel for default(none) shared(ntets, keys, nvert, thread_ex)
     for (long long si=0; si<ntets; ++si){
-      auto i = brille::utils::s2u<ind_t, long long>(si);
-      auto v = vertices_per_tetrahedron.view(i).to_std();
-      std::set<size_t> t = permutation_table_keys_from_indicies(v.begin(), v.end(), nvert);
+      std::set<size_t> t;
+      // an exception must not leave the parallel region or the critical section
+      thread_ex.run([&]{
+        auto i = brille::utils::s2u<ind_t, long long>(si);
+        auto v = vertices_per_tetrahedron.view(i).to_std();
+        t = permutation_table_keys_from_indicies(v.begin(), v.end(), nvert);
+      });
       #pragma omp critical
       {
-        keys.insert(t.begin(), t.end());
+        thread_ex.run([&]{keys.insert(t.begin(), t.end());});
       }
     }
+    thread_ex.rethrow();
     return keys;
   }
 protected:
@@ -470,14 +477,16 @@ private:
     if (brille::printer.datetime()) stopwatch.tic(); // we only need to start the timer if we are printing timing information
     TetMap map(layers[high].number_of_tetrahedra());
     auto mapsize = brille::utils::u2s<long long, size_t>(map.size());
+    ThreadException thread_ex;
 #if defined(__GNUC__) && !defined(__llvm__) && __GNUC__ < 9
 // this version is necessary with g++ <= 8.3.0
-#pragma omp parallel for default(none) shared(map, mapsize) schedule(dynamic)
+#pragma omp parallel for default(none) shared(map, mapsize, thread_ex) schedule(dynamic)
 #else
 // this version is necessary with g++ == 9.2.0
-#pragma omp parallel for default(none) shared(map, mapsize, high, low) schedule(dynamic)
+#pragma omp parallel for default(none) shared(map, mapsize, high, low, thread_ex) schedule(dynamic)
 #endif
     for (long ui=0; ui<mapsize; ++ui){
+      thread_ex.run([&]{ // an exception must not leave the parallel region
       auto i = brille::utils::s2u<ind_t, long long>(ui);
       // initialize the map
       map[i] = TetSet();
@@ -501,7 +510,9 @@ private:
         if (add || !(layers[high].face_separates(i, layers[low], j) || layers[low].face_separates(j, layers[high], i)))
           map[i].push_back(j);
       }
+      });
     }
+    thread_ex.rethrow();
     if (brille::printer.datetime()) stopwatch.toc();
     info_update_if(brille::printer.datetime(), "Connect ",layers[high].number_of_tetrahedra()," to ",layers[low].number_of_tetrahedra()," completed in ",stopwatch.elapsed()," ms");
     // we now have a TetMap which contains, for every tetrahedral index of the
diff --git a/src/triangulation_poly.hpp b/src/triangulation_poly.hpp
index 872969d..e2b06b0 100644
--- a/src/triangulation_poly.hpp
+++ b/src/triangulation_poly.hpp
@@ -68,12 +68,12 @@ triangulate(const T max_volume, const bool addGamma, const A<T>& points, const F
   }
   debug_update("Initialize and fill the input object's facetlist parameter");
   tgi.numberoffacets = static_cast<int>(f.size());
-  tgi.facetlist = new tetgenio::facet[tgi.numberoffacets];
+  tgi.facetlist = new tetgenio::facet[tgi.numberoffacets](); // zeros, in case what follows fails
   tgi.facetmarkerlist = new int[tgi.numberoffacets];
   for (size_t i=0; i<f.size(); ++i){
     tgi.facetmarkerlist[i] = static_cast<int>(i);
+    tgi.facetlist[i].polygonlist = new tetgenio::polygon[1]();
     tgi.facetlist[i].numberofpolygons = 1;
-    tgi.facetlist[i].polygonlist = new tetgenio::polygon[1];
     tgi.facetlist[i].numberofholes = 0;
     tgi.facetlist[i].holelist = nullptr;
     tgi.facetlist[i].polygonlist[0].numberofvertices = static_cast<int>(f[i].size());
diff --git a/src/vertex_map_knit.h b/src/vertex_map_knit.h
index 1785d15..6e3e498 100644
--- a/src/vertex_map_knit.h
+++ b/src/vertex_map_knit.h
@@ -7,6 +7,7 @@
 
 #include "vertex_map_set.h"
 #include "vertex_index_map.h"
+#include "thread_exception.h"
 
 namespace brille::vertex_maps {
 
@@ -173,11 +174,15 @@ parallel_reduce(const std::vector<std::pair<VertexMapSet<T, A>, VertexIndexMap>>
   auto isodd = static_cast<size_t>(2 * out_len + 1) == input.size();
   output.reserve((isodd ? out_len + 1 : out_len));
   output.resize(out_len);
-#pragma omp parallel for default(none) shared(input, output, out_len)
+  ThreadException thread_ex;
+#pragma omp parallel for default(none) shared(input, output, out_len, thread_ex)
   for (int64_t idx = 0; idx < out_len; ++idx) {
-    auto i = static_cast<size_t>(idx);
-    output[i] = combine(input[2 * i], input[2 * i + 1]);
+    thread_ex.run([&]{ // an exception must not leave the parallel region
+      auto i = static_cast<size_t>(idx);
+      output[i] = combine(input[2 * i], input[2 * i + 1]);
+    });
   }
+  thread_ex.rethrow();
   if (isodd) output.push_back(input.back());
   return output;
 }
-- 
2.43.0


From cfe41eda03ec049d177f3fd979159e80f7524fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:24 +0000
Subject: [PATCH 87/87] fix: messages of several threads are printed one after
 another

---
 src/debug.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/debug.hpp b/src/debug.hpp
index a39f1bb..38b32c0 100644
--- a/src/debug.hpp
+++ b/src/debug.hpp
@@ -30,6 +30,7 @@ along with brille. If not, see <https://www.gnu.org/licenses/>.            */
 #include <vector>
 #include <complex>
 #include <chrono>
+#include <mutex>
 //#define VERBOSE_DEBUG
 //#define DEBUG // comment-out for no debugging output
 //#define PROFILING
@@ -259,6 +260,7 @@ class DebugPrinter{
   bool _silenced;
   bool emit_datetime;
   size_t _before;
+  std::mutex _mutex; // messages can be printed by more than one thread
 public:
   DebugPrinter(std::string s)
   : last_function(std::move(s)), _silenced(false), emit_datetime(false), _before(0)
@@ -275,6 +277,7 @@ public:
   bool datetime(bool edt) {emit_datetime = edt; return emit_datetime;}
   template<typename... L> void print(const std::string& fnc, L... l){
     if (!_silenced){
+      std::lock_guard<std::mutex> guard(_mutex);
       size_t torem{0};
       if (last_function.compare(fnc)){
         last_function = fnc;
-- 
2.43.0

