From 5cb34fb2e555cf056060cfb6dd03735c3c65192d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 01/38] fix: multiplying a monomial with itself in place read
 freed memory

---
 include/ieompp/algebra/monomial/monomial.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/ieompp/algebra/monomial/monomial.hpp b/include/ieompp/algebra/monomial/monomial.hpp
index b54cac3..a0efd29 100644
--- a/include/ieompp/algebra/monomial/monomial.hpp
+++ b/include/ieompp/algebra/monomial/monomial.hpp
@@ -69,6 +69,9 @@ namespace ieompp
 
             Monomial& operator*=(const Monomial& rhs)
             {
+                if(this == &rhs) {
+                    return *this *= Monomial(rhs);
+                }
                 std::copy(rhs.begin(), rhs.end(), std::back_inserter(*this));
                 return *this;
             }
-- 
2.43.0


From 30402004d80eff3976c7f7bd3a10735096826dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 02/38] fix: multiplying a term with itself in place read freed
 memory

---
 include/ieompp/algebra/term/term.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/ieompp/algebra/term/term.hpp b/include/ieompp/algebra/term/term.hpp
index 31185e1..bffba1a 100644
--- a/include/ieompp/algebra/term/term.hpp
+++ b/include/ieompp/algebra/term/term.hpp
@@ -50,6 +50,9 @@ namespace ieompp
 
             Term& operator*=(const Term& rhs)
             {
+                if(this == &rhs) {
+                    return *this *= Term(rhs);
+                }
                 prefactor *= rhs.prefactor;
                 std::copy(rhs.operators.begin(), rhs.operators.end(),
                           std::back_inserter(operators));
-- 
2.43.0


From 0a65c8eab38b52d1e3d19993bec226d912d6eddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 03/38] fix: Term::conjugate iterated the term instead of its
 operators

---
 include/ieompp/algebra/term/term.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/term/term.hpp b/include/ieompp/algebra/term/term.hpp
index bffba1a..0d91d9b 100644
--- a/include/ieompp/algebra/term/term.hpp
+++ b/include/ieompp/algebra/term/term.hpp
@@ -24,7 +24,7 @@ namespace ieompp
             {
                 prefactor = types::conjugate(prefactor);
                 std::reverse(operators.begin(), operators.end());
-                for(auto& op : *this) {
+                for(auto& op : operators) {
                     op.conjugate();
                 }
             }
-- 
2.43.0


From 6ccad8d57b22c5b4bc6ac4856ff7f87cb1e3c532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 04/38] fix: copy_as_unique_terms called a member function that
 does not exist

---
 include/ieompp/algebra/term/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/term/list.hpp b/include/ieompp/algebra/term/list.hpp
index 4e82522..ccb6be4 100644
--- a/include/ieompp/algebra/term/list.hpp
+++ b/include/ieompp/algebra/term/list.hpp
@@ -24,7 +24,7 @@ namespace ieompp
                     lst.push_back(t);
                     continue;
                 }
-                if(pos->same_operators(t)) {
+                if(pos->have_same_operators(t)) {
                     pos->prefactor += t.prefactor;
                 } else {
                     lst.insert(pos, t);
-- 
2.43.0


From 050ece7c5d9ab3f2977ef9144580cb3a84ce6a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 05/38] fix: total_spin used a misspelt type alias

---
 include/ieompp/algebra/term/checks.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/term/checks.hpp b/include/ieompp/algebra/term/checks.hpp
index 8885670..e0797f7 100644
--- a/include/ieompp/algebra/term/checks.hpp
+++ b/include/ieompp/algebra/term/checks.hpp
@@ -31,7 +31,7 @@ namespace ieompp
         int total_spin(const Term& t)
         {
             static_assert(
-                std::is_same<typename IndexType<Index, typename Term::Operator>::type, bool>::value,
+                std::is_same<typename IndexType<Index, typename Term::Operator>::Type, bool>::value,
                 "spin index must be a boolean");
 
             int spin = 0;
-- 
2.43.0


From 9cac7e7a484d56281062d0ef4993913d8894c213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 06/38] fix: print_tuple printed the last element in every
 position

---
 include/ieompp/tuple.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/tuple.hpp b/include/ieompp/tuple.hpp
index 55cf820..35b4df1 100644
--- a/include/ieompp/tuple.hpp
+++ b/include/ieompp/tuple.hpp
@@ -13,7 +13,7 @@ namespace ieompp
         struct TuplePrinter {
             static void print(std::ostream& strm, const Tuple& t, const std::string& delimiter)
             {
-                strm << std::get<N>(t) << delimiter;
+                strm << std::get<I>(t) << delimiter;
                 TuplePrinter<Tuple, I + 1, N>::print(strm, t, delimiter);
             }
         };
-- 
2.43.0


From a4a85c13facf35646afa0180502ce1192315a2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:56 +0000
Subject: [PATCH 07/38] fix: order_kroneckers compared mismatched indices, so
 that the order was not a strict weak one

---
 include/ieompp/symbolic/prefactor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/symbolic/prefactor.hpp b/include/ieompp/symbolic/prefactor.hpp
index 3d26ea4..278f6be 100644
--- a/include/ieompp/symbolic/prefactor.hpp
+++ b/include/ieompp/symbolic/prefactor.hpp
@@ -69,7 +69,7 @@ namespace ieompp
                               if(a.a < b.a) {
                                   return true;
                               }
-                              if(a.b > b.a) {
+                              if(a.a > b.a) {
                                   return false;
                               }
                               return a.b < b.b;
-- 
2.43.0


From 2b21499cd7f07717a1659c2421d4254458b26f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 08/38] fix: multiplying a symbolic prefactor with itself in
 place read freed memory

---
 include/ieompp/symbolic/prefactor.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/symbolic/prefactor.hpp b/include/ieompp/symbolic/prefactor.hpp
index 278f6be..f58c21c 100644
--- a/include/ieompp/symbolic/prefactor.hpp
+++ b/include/ieompp/symbolic/prefactor.hpp
@@ -30,15 +30,16 @@ namespace ieompp
 
             Prefactor& operator*=(const std::vector<Kronecker>& rhs)
             {
-                std::copy(rhs.begin(), rhs.end(), std::back_inserter(kroneckers));
+                const std::vector<Kronecker> factors(rhs);
+                std::copy(factors.begin(), factors.end(), std::back_inserter(kroneckers));
                 return *this;
             }
 
             template <typename Value_, typename Container_>
             Prefactor& operator*=(const Prefactor<Value_, Container_>& rhs)
             {
-                std::copy(rhs.kroneckers.begin(), rhs.kroneckers.end(),
-                          std::back_inserter(kroneckers));
+                const auto factors = rhs.kroneckers;
+                std::copy(factors.begin(), factors.end(), std::back_inserter(kroneckers));
                 value *= rhs.value;
 
                 return *this;
-- 
2.43.0


From 1674984ba7852c833cbde20fc5baab67bf5364c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 09/38] fix: make_kronecker for numbers called to_string
 without std::

---
 include/ieompp/algebra/kronecker.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/kronecker.hpp b/include/ieompp/algebra/kronecker.hpp
index bab6c61..1b2bac2 100644
--- a/include/ieompp/algebra/kronecker.hpp
+++ b/include/ieompp/algebra/kronecker.hpp
@@ -46,7 +46,7 @@ namespace ieompp
         typename std::enable_if<std::is_arithmetic<IndexType>::value, Kronecker>::type
         make_kronecker(const IndexType& a, const IndexType& b)
         {
-            return Kronecker{to_string(a), to_string(b)};
+            return Kronecker{std::to_string(a), std::to_string(b)};
         }
     } // namespace algebra
 } // namespace ieompp
-- 
2.43.0


From 632645ad3a1a5c963dc54761209b639df3113b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 10/38] fix: subtracting from an integer iterator advanced it

---
 include/ieompp/iterators/integer_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/iterators/integer_iterator.hpp b/include/ieompp/iterators/integer_iterator.hpp
index 351d4c1..94a350c 100644
--- a/include/ieompp/iterators/integer_iterator.hpp
+++ b/include/ieompp/iterators/integer_iterator.hpp
@@ -149,7 +149,7 @@ namespace ieompp
         inline IntegerIterator<T, const_iterator>& IntegerIterator<T, const_iterator>::
         operator-=(const typename IntegerIterator<T, const_iterator>::difference_type& diff)
         {
-            _val += diff;
+            _val -= diff;
             return *this;
         }
 
-- 
2.43.0


From 0ea6ece684dcedd659b2ad914406a0dbf1ece046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 11/38] fix: postfix increment and decrement of integer
 iterators returned a dangling reference

---
 include/ieompp/iterators/integer_iterator.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ieompp/iterators/integer_iterator.hpp b/include/ieompp/iterators/integer_iterator.hpp
index 94a350c..35cf57d 100644
--- a/include/ieompp/iterators/integer_iterator.hpp
+++ b/include/ieompp/iterators/integer_iterator.hpp
@@ -52,9 +52,9 @@ namespace ieompp
             reference operator*();
             value_type operator[](const difference_type& diff);
             reference operator++();
-            reference operator++(int);
+            IntegerIterator operator++(int);
             reference operator--();
-            reference operator--(int);
+            IntegerIterator operator--(int);
             IntegerIterator& operator+=(const difference_type& diff);
             IntegerIterator& operator-=(const difference_type& diff);
             IntegerIterator operator+(const difference_type& diff) const;
@@ -117,10 +117,10 @@ namespace ieompp
         }
 
         template <typename T, bool const_iterator>
-        inline typename IntegerIterator<T, const_iterator>::reference
+        inline IntegerIterator<T, const_iterator>
             IntegerIterator<T, const_iterator>::operator++(int)
         {
-            return _val++;
+            return IntegerIterator(_val++);
         }
 
         template <typename T, bool const_iterator>
@@ -131,10 +131,10 @@ namespace ieompp
         }
 
         template <typename T, bool const_iterator>
-        inline typename IntegerIterator<T, const_iterator>::reference
+        inline IntegerIterator<T, const_iterator>
             IntegerIterator<T, const_iterator>::operator--(int)
         {
-            return _val--;
+            return IntegerIterator(_val--);
         }
 
         template <typename T, bool const_iterator>
-- 
2.43.0


From 6b95bd6fc69b4bc374f1d11d00b5b2bf863a6f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 12/38] fix: adding an integer iterator to an offset accessed a
 private member

---
 include/ieompp/iterators/integer_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/iterators/integer_iterator.hpp b/include/ieompp/iterators/integer_iterator.hpp
index 35cf57d..ff3089a 100644
--- a/include/ieompp/iterators/integer_iterator.hpp
+++ b/include/ieompp/iterators/integer_iterator.hpp
@@ -223,7 +223,7 @@ namespace ieompp
         operator+(const typename IntegerIterator<T, const_iterator>::difference_type& diff,
                   const IntegerIterator<T, const_iterator>& it)
         {
-            return IntegerIterator<T, const_iterator>(diff + it._val);
+            return it + diff;
         }
 
         template <typename T, bool const_iterator>
-- 
2.43.0


From 6a4c769bfe32b071198cfd3b1c5fd68128c2ac83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 13/38] fix: positions beyond the last site of a chain wrapped
 to a negative site index

---
 include/ieompp/lattices/periodic_chain.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/lattices/periodic_chain.hpp b/include/ieompp/lattices/periodic_chain.hpp
index 3b88057..acb8de7 100644
--- a/include/ieompp/lattices/periodic_chain.hpp
+++ b/include/ieompp/lattices/periodic_chain.hpp
@@ -249,7 +249,7 @@ namespace ieompp
             while(v < _x_min) {
                 v += _x_length;
             }
-            while(v > _x_max) {
+            while(v > _x_min + _x_length) {
                 v -= _x_length;
             }
             return SiteIndex(std::round((v - _x_min) / _dx)) % _size;
-- 
2.43.0


From eb5389cdb30e6bbd38b03255f999115256c39f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 14/38] fix: closest() of a momentum chain ignored that +pi and
 -pi are the same point

---
 include/ieompp/lattices/periodic_chain.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/lattices/periodic_chain.hpp b/include/ieompp/lattices/periodic_chain.hpp
index acb8de7..dbfa4e4 100644
--- a/include/ieompp/lattices/periodic_chain.hpp
+++ b/include/ieompp/lattices/periodic_chain.hpp
@@ -110,7 +110,7 @@ namespace ieompp
             while(v < _x_min - dx2) {
                 v += _x_length;
             }
-            while(v > _x_max + dx2) {
+            while(v > _x_min + _x_length - dx2) {
                 v -= _x_length;
             }
             Float min_dist = ((*this)[SiteIndex(0)] - v) * ((*this)[SiteIndex(0)] - v), dist;
-- 
2.43.0


From 986b32ae83ee566bdf1f3a81f013137ba7ce9c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 15/38] fix: rectangular square lattices mixed up the row
 stride, so that sites collided

---
 .../ieompp/lattices/periodic_square_lattice.hpp  | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/ieompp/lattices/periodic_square_lattice.hpp b/include/ieompp/lattices/periodic_square_lattice.hpp
index 91bbbef..f0fa555 100644
--- a/include/ieompp/lattices/periodic_square_lattice.hpp
+++ b/include/ieompp/lattices/periodic_square_lattice.hpp
@@ -114,26 +114,26 @@ namespace ieompp
         template <typename Float, typename Index>
         Index PeriodicSquareLattice<Float, Index>::index(const Index& x, const Index& y) const
         {
-            return x * _size_x + y;
+            return x * _size_y + y;
         }
 
         template <typename Float, typename Index>
         Index PeriodicSquareLattice<Float, Index>::x_index(const Index& i) const
         {
-            return i / _size_x;
+            return i / _size_y;
         }
 
         template <typename Float, typename Index>
         Index PeriodicSquareLattice<Float, Index>::y_index(const Index& i) const
         {
-            return i % _size_x;
+            return i % _size_y;
         }
 
         template <typename Float, typename Index>
         std::array<Index, 4> PeriodicSquareLattice<Float, Index>::neighbors(const Index& idx) const
         {
             const auto i = idx / _size_y;
-            const auto j = idx % _size_x;
+            const auto j = idx % _size_y;
             return std::array<Index, 4>{{index((i == 0) ? _size_x - 1 : i - 1, j),
                                          index(i, (j == 0) ? _size_y - 1 : j - 1),
                                          index((i == _size_x - 1) ? 0 : i + 1, j),
@@ -145,7 +145,7 @@ namespace ieompp
         PeriodicSquareLattice<Float, Index>::unique_neighbors(const Index& idx) const
         {
             const auto i = idx / _size_y;
-            const auto j = idx % _size_x;
+            const auto j = idx % _size_y;
             return std::array<Index, 2>{{index((i == _size_x - 1) ? 0 : i + 1, j),
                                          index(i, (j == _size_y - 1) ? 0 : j + 1)}};
         }
@@ -353,8 +353,8 @@ namespace ieompp
                                 typename PeriodicSquareLattice<Float, Index>::Vector>::type
             PeriodicSquareLattice<Float, Index>::operator[](const IndexT& idx) const
         {
-            const Index i = idx / _size_x;
-            const Index j = idx % _size_x;
+            const Index i = idx / _size_y;
+            const Index j = idx % _size_y;
             return Vector{_x_min + i * _dx, _y_min + j * _dy};
         }
 
@@ -376,7 +376,7 @@ namespace ieompp
             }
             const auto i = Index(std::round((v[0] - _x_min) / _dx));
             const auto j = Index(std::round((v[1] - _y_min) / _dy));
-            return i * _size_x + j;
+            return index(i, j);
         }
     } // namespace lattices
 } // namespace ieompp
-- 
2.43.0


From 8035e40e77094bae5592de7870c7700f652b7167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 16/38] fix: square lattice positions near the upper boundary
 mapped to indices outside of the lattice

---
 include/ieompp/lattices/periodic_square_lattice.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ieompp/lattices/periodic_square_lattice.hpp b/include/ieompp/lattices/periodic_square_lattice.hpp
index f0fa555..2707bba 100644
--- a/include/ieompp/lattices/periodic_square_lattice.hpp
+++ b/include/ieompp/lattices/periodic_square_lattice.hpp
@@ -365,17 +365,17 @@ namespace ieompp
             while(v[0] < _x_min) {
                 v[0] += _x_length;
             }
-            while(v[0] > _x_max) {
+            while(v[0] > _x_min + _x_length) {
                 v[0] -= _x_length;
             }
             while(v[1] < _y_min) {
                 v[1] += _y_length;
             }
-            while(v[1] > _y_max) {
+            while(v[1] > _y_min + _y_length) {
                 v[1] -= _y_length;
             }
-            const auto i = Index(std::round((v[0] - _x_min) / _dx));
-            const auto j = Index(std::round((v[1] - _y_min) / _dy));
+            const auto i = Index(std::round((v[0] - _x_min) / _dx)) % _size_x;
+            const auto j = Index(std::round((v[1] - _y_min) / _dy)) % _size_y;
             return index(i, j);
         }
     } // namespace lattices
-- 
2.43.0


From 557d1872f3f6afa05376d1aa5022bb341e53c85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 17/38] fix: closest() of a square momentum lattice ignored
 that +pi and -pi are the same point

---
 include/ieompp/lattices/periodic_square_lattice.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ieompp/lattices/periodic_square_lattice.hpp b/include/ieompp/lattices/periodic_square_lattice.hpp
index 2707bba..769f3ad 100644
--- a/include/ieompp/lattices/periodic_square_lattice.hpp
+++ b/include/ieompp/lattices/periodic_square_lattice.hpp
@@ -158,13 +158,13 @@ namespace ieompp
             while(v[0] < _x_min - dx2) {
                 v[0] += _x_length;
             }
-            while(v[0] > _x_max + dx2) {
+            while(v[0] > _x_min + _x_length - dx2) {
                 v[0] -= _x_length;
             }
             while(v[1] < _y_min - dy2) {
                 v[1] += _y_length;
             }
-            while(v[1] > _y_max + dy2) {
+            while(v[1] > _y_min + _y_length - dy2) {
                 v[1] -= _y_length;
             }
             Float min_dist = types::dot_product(v - (*this)[Index(0)], v - (*this)[Index(0)]);
-- 
2.43.0


From 173809b04c9d7e8734b2a66a6e192e85a17dfdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 18/38] fix: SiteOccupation::expectation_value dropped its
 arguments for two three-operator monomials

---
 include/ieompp/models/hubbard_real_space/site_occupation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/models/hubbard_real_space/site_occupation.hpp b/include/ieompp/models/hubbard_real_space/site_occupation.hpp
index 4c6f0dd..c02dd58 100644
--- a/include/ieompp/models/hubbard_real_space/site_occupation.hpp
+++ b/include/ieompp/models/hubbard_real_space/site_occupation.hpp
@@ -234,7 +234,7 @@ namespace ieompp
                     if(b.size() == 1) {
                         return expectation_value_3_1(a, b);
                     }
-                    return expectation_value_3_3();
+                    return expectation_value_3_3(a, b);
                 }
 
                 template <typename Vector>
-- 
2.43.0


From 5c6d128a29d07c055bc3846fd982c1266cb595fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:46 +0000
Subject: [PATCH 19/38] fix: Fermi jump kept its work vector for the first
 lattice size it was evaluated with

---
 include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp | 2 +-
 include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp b/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
index 24eee95..7ec57dc 100644
--- a/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
+++ b/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
@@ -121,7 +121,7 @@ namespace ieompp
                 Float operator()(const Vector& h) const
                 {
                     const auto& basis = _basis_ref.get();
-                    static Vector h_NO(basis.N);
+                    Vector h_NO(basis.N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < basis.N; ++i) {
diff --git a/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp b/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp
index b739c91..961d78c 100644
--- a/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp
+++ b/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp
@@ -61,7 +61,7 @@ namespace ieompp
                 Float operator()(const Vector& h) const
                 {
                     const auto& basis = _basis_ref.get();
-                    static Vector h_NO(basis.N);
+                    Vector h_NO(basis.N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < basis.N; ++i) {
-- 
2.43.0


From 0b4e77238a815b39bde2eec86513c0293b9d8e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:46 +0000
Subject: [PATCH 20/38] fix: Fourier coefficients were written into reserved,
 but not existing vector elements

---
 include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp | 2 +-
 include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp b/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
index 7ec57dc..e16ef72 100644
--- a/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
+++ b/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
@@ -45,7 +45,7 @@ namespace ieompp
                 FermiJump1D(const Lattice& lattice, ExpectationValueFunction expectation_value, const Float& k_F)
                     : _N(lattice.size()), _expectation_value(std::move(expectation_value))
                 {
-                    _fourier_coefficients.reserve(_N);
+                    _fourier_coefficients.resize(_N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < _N; ++i) {
diff --git a/include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp b/include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp
index 69f7057..05311ad 100644
--- a/include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp
+++ b/include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp
@@ -49,7 +49,7 @@ namespace ieompp
                 {
                     static const auto k_F = HalfPi<double>::value;
 
-                    _fourier_coefficients.reserve(_N);
+                    _fourier_coefficients.resize(_N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < _N; ++i) {
@@ -107,7 +107,7 @@ namespace ieompp
                 {
                     static const auto k_F = HalfPi<double>::value;
 
-                    _fourier_coefficients.reserve(_N);
+                    _fourier_coefficients.resize(_N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < _N; ++i) {
-- 
2.43.0


From 324b8340d0181662cba5ed034897747be9eef893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:46 +0000
Subject: [PATCH 21/38] fix: is_hermitian compared matrix entries with their
 own conjugate

---
 include/ieompp/types/matrix_check.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/types/matrix_check.hpp b/include/ieompp/types/matrix_check.hpp
index 456e94d..f60e126 100644
--- a/include/ieompp/types/matrix_check.hpp
+++ b/include/ieompp/types/matrix_check.hpp
@@ -48,7 +48,7 @@ namespace ieompp
             const Index N = MatrixDimensionInfo<Matrix>::rows(m);
             for(Index i = 0; i < N; ++i) {
                 for(Index j = 0; j <= i; ++j) {
-                    if(!IsEqual(m(i, j), conjugate(m(i, j)))) {
+                    if(!IsEqual(m(i, j), conjugate(m(j, i)))) {
                         return false;
                     }
                 }
-- 
2.43.0


From e46016cf851bace405998803570d71fbdae8aaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:46 +0000
Subject: [PATCH 22/38] fix: IsZero for matrices used an undeclared variable

---
 include/ieompp/types/matrix_check.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ieompp/types/matrix_check.hpp b/include/ieompp/types/matrix_check.hpp
index f60e126..14b003d 100644
--- a/include/ieompp/types/matrix_check.hpp
+++ b/include/ieompp/types/matrix_check.hpp
@@ -2,6 +2,7 @@
 #define IEOMPP_TYPES_MATRIX_CHECK_HPP_
 
 #include "ieompp/types/matrix.hpp"
+#include "ieompp/types/number.hpp"
 
 #include <type_traits>
 
@@ -65,7 +66,7 @@ namespace ieompp
             const auto cols = MatrixDimensionInfo<Matrix>::columns(m);
             for(Index i = 0; i < rows; ++i) {
                 for(Index j = 0; j < cols; ++j) {
-                    if(!IsZero(t(i, j))) {
+                    if(!IsZero(m(i, j))) {
                         return false;
                     }
                 }
-- 
2.43.0


From 77b47e11386990d7041573b4652bef40fc44adcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:28 +0000
Subject: [PATCH 23/38] fix: neighboring() disagreed with neighbors() on square
 lattices of extent one

---
 include/ieompp/lattices/periodic_square_lattice.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/ieompp/lattices/periodic_square_lattice.hpp b/include/ieompp/lattices/periodic_square_lattice.hpp
index 769f3ad..31581fa 100644
--- a/include/ieompp/lattices/periodic_square_lattice.hpp
+++ b/include/ieompp/lattices/periodic_square_lattice.hpp
@@ -294,15 +294,13 @@ namespace ieompp
             const auto x_b = x_index(b);
             const auto y_b = y_index(b);
 
-            if(x_a == x_b) {
-                return ((y_a + 1) % _size_y == y_b) || ((y_b + 1) % _size_y == y_a);
+            if((x_a == x_b)
+               && (((y_a + 1) % _size_y == y_b) || ((y_b + 1) % _size_y == y_a))) {
+                return true;
             }
 
-            if(y_a == y_b) {
-                return ((x_a + 1) % _size_x == x_b) || ((x_b + 1) % _size_x == x_a);
-            }
-
-            return false;
+            return (y_a == y_b)
+                   && (((x_a + 1) % _size_x == x_b) || ((x_b + 1) % _size_x == x_a));
         }
 
         template <typename Float, typename Index>
-- 
2.43.0


From 197bd102c61849a7095671184f4e94193700352a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:17 +0000
Subject: [PATCH 24/38] fix: RK4 steps with function matrices did not compile
 with assertions enabled

---
 include/ieompp/types/function_matrix.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/ieompp/types/function_matrix.hpp b/include/ieompp/types/function_matrix.hpp
index bcadade..83e213e 100644
--- a/include/ieompp/types/function_matrix.hpp
+++ b/include/ieompp/types/function_matrix.hpp
@@ -1,6 +1,7 @@
 #ifndef IEOMPP_TYPES_FUNCTION_MATRIX_HPP_
 #define IEOMPP_TYPES_FUNCTION_MATRIX_HPP_
 
+#include "ieompp/types/matrix.hpp"
 #include "ieompp/types/number.hpp"
 
 #include <functional>
@@ -76,6 +77,12 @@ namespace ieompp
             static constexpr bool value = true;
         };
 
+        template <typename Scalar, typename Index>
+        struct MatrixDimensionInfo<FunctionMatrix<Scalar, Index>> {
+            static Index rows(const FunctionMatrix<Scalar, Index>& m) { return m.rows(); }
+            static Index columns(const FunctionMatrix<Scalar, Index>& m) { return m.cols(); }
+        };
+
         template <typename Scalar, typename Index>
         std::ostream& operator<<(std::ostream& strm, const FunctionMatrix<Scalar, Index>& matrix)
         {
-- 
2.43.0


From deefc574f84a088fb3b7b64f7322afef61ade7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:17 +0000
Subject: [PATCH 25/38] fix: merging or checking the columns of an empty
 triplet list was undefined

---
 include/ieompp/types/triplet.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/ieompp/types/triplet.hpp b/include/ieompp/types/triplet.hpp
index bbd9178..dbec7f0 100644
--- a/include/ieompp/types/triplet.hpp
+++ b/include/ieompp/types/triplet.hpp
@@ -36,6 +36,10 @@ namespace ieompp
                 TripletList filtered;
                 filtered.reserve(this->size());
 
+                if(this->empty()) {
+                    return filtered;
+                }
+
                 auto triplet = this->front();
                 for(auto it = this->begin() + 1; it != this->end(); ++it) {
                     if(it->column == triplet.column) {
@@ -53,6 +57,10 @@ namespace ieompp
 
             bool has_unique_columns() const
             {
+                if(this->empty()) {
+                    return true;
+                }
+
                 for(auto it = this->begin() + 1; it != this->end(); ++it) {
                     if(it->column == (it - 1)->column) {
                         return false;
-- 
2.43.0


From 89c1050f14696e3ef7061522e1dc72e2952a8484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 26/38] fix: printing monomials and terms without operators
 read out of bounds

---
 include/ieompp/algebra/monomial/io.hpp | 3 +++
 include/ieompp/algebra/term/io.hpp     | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/monomial/io.hpp b/include/ieompp/algebra/monomial/io.hpp
index 56dce2b..5e28e2c 100644
--- a/include/ieompp/algebra/monomial/io.hpp
+++ b/include/ieompp/algebra/monomial/io.hpp
@@ -13,6 +13,9 @@ namespace ieompp
         template <typename Operator>
         std::ostream& operator<<(std::ostream& strm, const Monomial<Operator>& monomial)
         {
+            if(monomial.empty()) {
+                return strm;
+            }
             std::copy(monomial.begin(), --monomial.end(),
                       std::ostream_iterator<Operator>(strm, " "));
             strm << monomial.back();
diff --git a/include/ieompp/algebra/term/io.hpp b/include/ieompp/algebra/term/io.hpp
index c1c5d09..9e58af6 100644
--- a/include/ieompp/algebra/term/io.hpp
+++ b/include/ieompp/algebra/term/io.hpp
@@ -13,7 +13,11 @@ namespace ieompp
         template <typename Prefactor, typename Operator, typename Container>
         std::ostream& operator<<(std::ostream& strm, const Term<Prefactor, Operator, Container>& t)
         {
-            strm << t.prefactor << u8" ⋅ ";
+            strm << t.prefactor;
+            if(t.operators.empty()) {
+                return strm;
+            }
+            strm << u8" ⋅ ";
             std::copy(t.operators.begin(), --t.operators.end(),
                       std::ostream_iterator<Operator>(strm, " "));
             strm << t.operators.back();
-- 
2.43.0


From 9a3584abf22d61b82a049c7b1df5fdb2b7286cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:27 +0000
Subject: [PATCH 27/38] fix: without OpenMP the team was reported to have no
 threads

---
 include/ieompp/openmp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/openmp.hpp b/include/ieompp/openmp.hpp
index fc1c895..0cebd1a 100644
--- a/include/ieompp/openmp.hpp
+++ b/include/ieompp/openmp.hpp
@@ -9,7 +9,7 @@
 
 #define omp_get_thread_num() 0
 #define omp_get_max_threads() 1
-#define omp_get_num_threads() 0
+#define omp_get_num_threads() 1
 
 #endif
 
-- 
2.43.0


From 07b0d40ebd01370eea8942c380bcb26e51fb8e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:09 +0000
Subject: [PATCH 28/38] fix: conjugate the second coefficient in the two-site
 occupation

---
 src/hubbard/hubbard_trivial.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hubbard/hubbard_trivial.cpp b/src/hubbard/hubbard_trivial.cpp
index 1f02f9c..cbadede 100644
--- a/src/hubbard/hubbard_trivial.cpp
+++ b/src/hubbard/hubbard_trivial.cpp
@@ -24,14 +24,14 @@ complex<double> particle_number(const blaze::DynamicVector<complex<double>>& h)
             }
 
             if((i < 3) && (j < 3)) {
-                ev += (h[i] * h[j]) * pi_inv;
+                ev += (h[i] * conj(h[j])) * pi_inv;
                 continue;
             }
 
             if((i == 0) || (j == 0)) {
-                ev += (h[i] * h[j]) * 0.25;
+                ev += (h[i] * conj(h[j])) * 0.25;
             } else {
-                ev += (h[i] * h[j]) * 0.5 * pi_inv;
+                ev += (h[i] * conj(h[j])) * 0.5 * pi_inv;
             }
         }
     }
-- 
2.43.0


From 6ec76660aa85a60a00a3df6e65b5cc6655f84a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:30 +0000
Subject: [PATCH 29/38] fix: reading an index of a temporary operator with
 three or more indices did not compile

---
 include/ieompp/algebra/operator/get_index.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/operator/get_index.hpp b/include/ieompp/algebra/operator/get_index.hpp
index 5aaefeb..c8f5a2e 100644
--- a/include/ieompp/algebra/operator/get_index.hpp
+++ b/include/ieompp/algebra/operator/get_index.hpp
@@ -4,6 +4,7 @@
 #include "ieompp/algebra/operator/operator.hpp"
 
 #include <type_traits>
+#include <utility>
 
 namespace ieompp
 {
@@ -65,7 +66,7 @@ namespace ieompp
         constexpr typename std::tuple_element<I, typename Operator<IndexTypes...>::Indices>::type&&
         get_index(Operator<IndexTypes...>&& op)
         {
-            return std::get<I>(op.indices);
+            return std::get<I>(std::move(op.indices));
         }
 
         template <std::size_t I, typename Index>
-- 
2.43.0


From a1ea3ace100f63d249bb9f840a1d4f52c6173898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:20 +0000
Subject: [PATCH 30/38] fix: half-filled expectation values in the theory for
 the kinetic term

---
 src/hubbard/hubbard_real_1d_kinetic_theory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hubbard/hubbard_real_1d_kinetic_theory.cpp b/src/hubbard/hubbard_real_1d_kinetic_theory.cpp
index f8e670f..61884c9 100644
--- a/src/hubbard/hubbard_real_1d_kinetic_theory.cpp
+++ b/src/hubbard/hubbard_real_1d_kinetic_theory.cpp
@@ -59,7 +59,7 @@ int main()
     }
 
     const hubbard::ExpectationValue1DHalfFilled<double, decltype(lattice)> expectation_value(
-        lattice, 1., 0.5);
+        lattice, 0.5, 0.5 * ieompp::Pi<double>::value);
 
     vector<vector<complex<double>>> results;
 #pragma omp parallel
-- 
2.43.0


From 14063aaf06474eef8dda209fa63f5a05b9979aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:20 +0000
Subject: [PATCH 31/38] hooks for verification: sizes of the reference programs
 under IEOMPP_VERIFY

---
 src/hubbard/hubbard_dispersion_1d.cpp          | 4 ++++
 src/hubbard/hubbard_real_1d_kinetic_theory.cpp | 8 ++++++++
 src/hubbard/hubbard_trivial.cpp                | 9 +++++++++
 3 files changed, 21 insertions(+)

diff --git a/src/hubbard/hubbard_dispersion_1d.cpp b/src/hubbard/hubbard_dispersion_1d.cpp
index 2472d2b..003d043 100644
--- a/src/hubbard/hubbard_dispersion_1d.cpp
+++ b/src/hubbard/hubbard_dispersion_1d.cpp
@@ -7,7 +7,11 @@ using namespace std;
 
 int main()
 {
+#ifndef IEOMPP_VERIFY
     const uint64_t N = 1024;
+#else
+    const uint64_t N = ieompp_verify::sites();
+#endif
     const lattices::PeriodicChain<double, uint64_t> brillouin_zone(N), lattice(N, 1.);
     const auto dispersion = models::hubbard::make_dispersion(brillouin_zone, lattice, 1.);
 
diff --git a/src/hubbard/hubbard_real_1d_kinetic_theory.cpp b/src/hubbard/hubbard_real_1d_kinetic_theory.cpp
index 61884c9..cb72c28 100644
--- a/src/hubbard/hubbard_real_1d_kinetic_theory.cpp
+++ b/src/hubbard/hubbard_real_1d_kinetic_theory.cpp
@@ -35,13 +35,21 @@ complex<double> minus_i_power(uint64_t power)
 
 int main()
 {
+#ifndef IEOMPP_VERIFY
     const uint64_t N = 128;
+#else
+    const uint64_t N = ieompp_verify::sites();
+#endif
     ieompp::lattices::PeriodicChain<double> lattice(N, 1.);
     hubbard::Basis1Operator<ieompp::algebra::Monomial<ieompp::algebra::Operator<uint64_t, bool>>>
         basis(lattice);
 
     const double dt      = 0.01;
+#ifndef IEOMPP_VERIFY
     const uint64_t steps = 10000;
+#else
+    const uint64_t steps = ieompp_verify::steps();
+#endif
 
     // precompute time dependent prefactors and their complex conjugates
     vector<vector<complex<double>>> h_vals(N), h_vals_conj(N);
diff --git a/src/hubbard/hubbard_trivial.cpp b/src/hubbard/hubbard_trivial.cpp
index cbadede..3a73401 100644
--- a/src/hubbard/hubbard_trivial.cpp
+++ b/src/hubbard/hubbard_trivial.cpp
@@ -52,10 +52,19 @@ void write_state(ostream& strm, const double& t, const blaze::DynamicVector<comp
 
 int main()
 {
+#ifndef IEOMPP_VERIFY
     const double J       = 1.;
     const double U       = 1.;
+#else
+    const double J       = ieompp_verify::hopping();
+    const double U       = ieompp_verify::interaction();
+#endif
     const double dt      = 0.01;
+#ifndef IEOMPP_VERIFY
     const uint64_t steps = 2000;
+#else
+    const uint64_t steps = ieompp_verify::steps();
+#endif
 
     blaze::DynamicMatrix<complex<double>> M{{U / 2., -J, -J, U / 2.},
                                             {-J, U / 2., 0., 0.},
-- 
2.43.0


From ee543b78b3f9a8b5cb03265aab0aa128938ce5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:40 +0000
Subject: [PATCH 32/38] fix: next_line never returned at the end of the input

---
 include/ieompp/io/line.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/io/line.hpp b/include/ieompp/io/line.hpp
index 5d630a5..79759e2 100644
--- a/include/ieompp/io/line.hpp
+++ b/include/ieompp/io/line.hpp
@@ -17,12 +17,12 @@ namespace ieompp
         std::string next_line(std::istream& strm)
         {
             std::string buf;
-            do {
-                std::getline(strm, buf);
+            while(std::getline(strm, buf)) {
                 if(!is_skippable_line(buf)) {
                     return buf;
                 }
-            } while(true);
+            }
+            return "";
         }
     } // namespace io
 } // namespace ieompp
-- 
2.43.0


From d6c4a05229094d205822c356876328323930cb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:40 +0000
Subject: [PATCH 33/38] fix: cleaning an output file joined all of its lines

---
 src/hubbard/include/checkpoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hubbard/include/checkpoint.hpp b/src/hubbard/include/checkpoint.hpp
index f24d4da..672097f 100644
--- a/src/hubbard/include/checkpoint.hpp
+++ b/src/hubbard/include/checkpoint.hpp
@@ -73,7 +73,7 @@ void clean_output_file(const std::string& path, uint64_t entries)
         if(!ieompp::io::is_skippable_line(buffer)) {
             ++counter;
         }
-        out_file << buffer;
+        out_file << buffer << '\n';
     }
     out_file.flush();
     get_loggers().io->info("Finished copying entries {}", entries);
-- 
2.43.0


From 80e51cc70cdd65be5f7a183d56ca3440331f55bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:40 +0000
Subject: [PATCH 34/38] fix: cleaning an output file with too few entries never
 ended

---
 src/hubbard/include/checkpoint.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hubbard/include/checkpoint.hpp b/src/hubbard/include/checkpoint.hpp
index 672097f..4769094 100644
--- a/src/hubbard/include/checkpoint.hpp
+++ b/src/hubbard/include/checkpoint.hpp
@@ -68,8 +68,7 @@ void clean_output_file(const std::string& path, uint64_t entries)
     get_loggers().io->info("Start copying \"{}\" entries", entries);
     uint64_t counter = 0;
     std::string buffer;
-    while(counter < entries) {
-        std::getline(in_file, buffer);
+    while(counter < entries && std::getline(in_file, buffer)) {
         if(!ieompp::io::is_skippable_line(buffer)) {
             ++counter;
         }
-- 
2.43.0


From 96dfff7e7d4452b942b55ddaeca5fb1a52c3371b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:32 +0000
Subject: [PATCH 35/38] fix: comments ending in a carriage return were taken
 for data

---
 include/ieompp/io/line.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/io/line.hpp b/include/ieompp/io/line.hpp
index 79759e2..08f635f 100644
--- a/include/ieompp/io/line.hpp
+++ b/include/ieompp/io/line.hpp
@@ -10,7 +10,7 @@ namespace ieompp
     {
         bool is_skippable_line(const std::string& str)
         {
-            static const std::regex reg(R"(^\s*(?:#.*)?$)");
+            static const std::regex reg(R"(^\s*(?:#[\s\S]*)?$)");
             return std::regex_match(str, reg);
         }
 
-- 
2.43.0


From 20e026a0a7cf5fde010b99274559b537fe6c5716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:00 +0000
Subject: [PATCH 36/38] fix: programs ended at once without LOGNAME in the
 environment

---
 include/ieompp/platform.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ieompp/platform.hpp b/include/ieompp/platform.hpp
index 8c543db..943c4c4 100644
--- a/include/ieompp/platform.hpp
+++ b/include/ieompp/platform.hpp
@@ -94,7 +94,8 @@ namespace ieompp
         {
 #if BOOST_OS_WINDOWS
 #else
-            return std::string(std::getenv("LOGNAME"));
+            const auto* name = std::getenv("LOGNAME");
+            return std::string((name != nullptr) ? name : "unknown");
 #endif
         }
 
-- 
2.43.0


From 25f2da318427e5eee44541566787c3ff1911a8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:00 +0000
Subject: [PATCH 37/38] fix: a response file that cannot be opened was read
 forever

---
 src/hubbard/include/cli.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hubbard/include/cli.hpp b/src/hubbard/include/cli.hpp
index 85ef551..042dd3f 100644
--- a/src/hubbard/include/cli.hpp
+++ b/src/hubbard/include/cli.hpp
@@ -30,14 +30,16 @@ void read_response_file(const std::string& path, VariablesMap& vm,
 {
     get_loggers().main->info("Reading response file \"{}\"", path);
     std::ifstream file(path.c_str());
+    if(!file) {
+        throw boost::program_options::reading_file(path.c_str());
+    }
     std::string buf;
     std::vector<std::string> args;
-    do {
-        getline(file, buf);
+    while(getline(file, buf)) {
         args.push_back(buf);
         boost::program_options::store(
             boost::program_options::command_line_parser(args).options(description).run(), vm);
-    } while(!file.eof());
+    }
     file.close();
     get_loggers().main->info("Finish reading response file \"{}\"", path);
 }
-- 
2.43.0


From b5faa188ba5a0a654dfd306dd934131b598a0fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:56 +0000
Subject: [PATCH 38/38] fix: options of a response file were neither recorded
 nor used for the names of files

---
 src/hubbard/include/application.hpp | 15 +++++++++------
 src/hubbard/include/cli.hpp         | 25 ++++++++++++++++++++-----
 2 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/hubbard/include/application.hpp b/src/hubbard/include/application.hpp
index 40a5c9c..78a08ec 100644
--- a/src/hubbard/include/application.hpp
+++ b/src/hubbard/include/application.hpp
@@ -27,7 +27,7 @@ struct Application {
 
     Application(int argc, char** argv)
     {
-        const auto all_options =
+        auto all_options =
             parse_command_line_options(argc, argv, options_description, variables);
 
         if(variables.count("help")) {
@@ -40,6 +40,13 @@ struct Application {
             std::exit(1);
         }
 
+        const bool use_response_file = variables.count("response_file") != 0u;
+        if(use_response_file) {
+            // read simulation parameters from response file
+            read_response_file(variables["response_file"].as<std::string>(), variables,
+                               Application::options_description, all_options);
+        }
+
         output_path   = variables["out"].as<std::string>();
         response_path = boost::filesystem::change_extension(output_path, ".rsp").string();
         log_path      = boost::filesystem::change_extension(output_path, ".log").string();
@@ -55,11 +62,7 @@ struct Application {
             get_loggers().main->info("\t{} = {}", option.first, option.second);
         }
 
-        if(variables.count("response_file") != 0u) {
-            // read simulation parameters from response file
-            read_response_file(variables["response_file"].as<std::string>(), variables,
-                               Application::options_description);
-        } else {
+        if(!use_response_file) {
             // write a response file with simulation parameters
             get_loggers().io->info("Write response file \"{}\"", response_path);
             std::ofstream file(response_path.c_str());
diff --git a/src/hubbard/include/cli.hpp b/src/hubbard/include/cli.hpp
index 042dd3f..79d311d 100644
--- a/src/hubbard/include/cli.hpp
+++ b/src/hubbard/include/cli.hpp
@@ -4,6 +4,7 @@
 #include <fstream>
 #include <regex>
 #include <string>
+#include <utility>
 #include <vector>
 
 #include <boost/program_options.hpp>
@@ -25,10 +26,11 @@ auto make_value(const T& default_value)
     return boost::program_options::value<T>()->default_value(default_value);
 }
 
+// options that were given on the command line take precedence over those in the response file
 void read_response_file(const std::string& path, VariablesMap& vm,
-                        const OptionsDescription& description)
+                        const OptionsDescription& description,
+                        std::vector<std::pair<std::string, std::string>>& all_options)
 {
-    get_loggers().main->info("Reading response file \"{}\"", path);
     std::ifstream file(path.c_str());
     if(!file) {
         throw boost::program_options::reading_file(path.c_str());
@@ -37,11 +39,24 @@ void read_response_file(const std::string& path, VariablesMap& vm,
     std::vector<std::string> args;
     while(getline(file, buf)) {
         args.push_back(buf);
-        boost::program_options::store(
-            boost::program_options::command_line_parser(args).options(description).run(), vm);
+        const auto parsed =
+            boost::program_options::command_line_parser(args).options(description).run();
+
+        for(const auto& option : parsed.options) {
+            const auto& key = option.string_key;
+            if(option.value.empty() || (vm.count(key) == 0u) || !vm[key].defaulted()) {
+                continue;
+            }
+            for(auto& pair : all_options) {
+                if(pair.first == key) {
+                    pair.second = option.value.front();
+                }
+            }
+        }
+
+        boost::program_options::store(parsed, vm);
     }
     file.close();
-    get_loggers().main->info("Finish reading response file \"{}\"", path);
 }
 
 std::vector<std::pair<std::string, std::string>>
-- 
2.43.0

