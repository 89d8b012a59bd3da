From ebfc7c18b7c6ac436916c826b7f4a12e81e8f15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:13 +0000
Subject: [PATCH 01/49] fix: simplify of a power of two arrays recursed without
 end

The element-wise array overload dispatched array^array back to the
PowerOp it came from, whose simplification dispatched it again.
---
 stator/symbolic/runtime.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/runtime.hpp b/stator/symbolic/runtime.hpp
index c2d9263..b63104c 100644
--- a/stator/symbolic/runtime.hpp
+++ b/stator/symbolic/runtime.hpp
@@ -634,7 +634,7 @@ namespace sym
         return Expr(store(Op::apply(l, r)));
       }
 
-      template <class Op, typename = typename std::enable_if<!std::is_same<Op, detail::ArrayAccess>::value>::type>
+      template <class Op, typename = typename std::enable_if<!std::is_same<Op, detail::ArrayAccess>::value && !std::is_same<Op, detail::Power>::value>::type>
       Expr dd_visit(const ArrayRT &l, const ArrayRT &r, Op)
       {
         //First carry out the operation, but preserve the type information
-- 
2.43.0


From fb3b05a405a8ba78c90e826de4db189adf3dac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 02/49] fix: printing an expression holding a Dict operand
 recursed without end

There was no binding power for Dict, so BP(DictRT) converted it back to an
Expr and visited itself.
---
 stator/symbolic/dict.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/stator/symbolic/dict.hpp b/stator/symbolic/dict.hpp
index aa79cb8..46bae69 100644
--- a/stator/symbolic/dict.hpp
+++ b/stator/symbolic/dict.hpp
@@ -102,6 +102,15 @@ namespace sym {
     
     return out.substr(0, out.size() - 2) + end;
   }
+
+  /*! \brief Returns the binding powers (precedence) of a Dict (it is
+    self-delimiting, so never needs parentheses).
+  */
+  template <typename Key, typename Value>
+  std::pair<int, int> BP(const Dict<Key, Value> &v)
+  {
+    return std::make_pair(std::numeric_limits<int>::max(), std::numeric_limits<int>::max());
+  }
 }
 
 
-- 
2.43.0


From f8a32525730a5b93b52ac79e2135fa94e5668dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 03/49] fix: derivative of units, uncertainty and Dict
 expressions recursed without end

Without an overload the generic derivative converted the node back to an
Expr and dispatched to itself.  Units are carried through; the others have
no derivative and now say so.
---
 stator/symbolic/runtime.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/stator/symbolic/runtime.hpp b/stator/symbolic/runtime.hpp
index b63104c..f52bc8f 100644
--- a/stator/symbolic/runtime.hpp
+++ b/stator/symbolic/runtime.hpp
@@ -968,6 +968,24 @@ namespace sym
         return Expr(derivative(v, _var));
       }
 
+      //The units are constant, so only the quantity is differentiated
+      Expr apply(const BinaryOp<Expr, detail::Units, Expr> &op)
+      {
+        return Expr(units(Expr(op._l->visit(*this)), op._r));
+      }
+
+      //These have no derivative implementation, and falling back to
+      //the Expr derivative would only return here.
+      Expr apply(const BinaryOp<Expr, detail::Uncertainty, Expr> &op)
+      {
+        stator_throw() << "No derivative available for " << repr(op);
+      }
+
+      Expr apply(const DictRT &d)
+      {
+        stator_throw() << "No derivative available for " << repr(d);
+      }
+
       const VarRT &_var;
     };
   }
-- 
2.43.0


From ca08bdff3b42d06797404b8642ced02c156588ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:23 +0000
Subject: [PATCH 04/49] fix: multiplying by a quantity on the right replaced
 its units by its value

---
 stator/symbolic/units.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/units.hpp b/stator/symbolic/units.hpp
index f13ea43..4ced645 100644
--- a/stator/symbolic/units.hpp
+++ b/stator/symbolic/units.hpp
@@ -100,7 +100,7 @@ namespace sym
   template <class RLHS, class RRHS, class LHS>
   auto multiply_impl(const LHS &l, const UnitsOp<RLHS, RRHS> &r, detail::choice<1>)
   {
-    return units(l * r._l, r._l);
+    return units(l * r._l, r._r);
   }
 
   template <class LLHS, class LRHS, class RLHS, class RRHS>
-- 
2.43.0


From c0429435a058b0541e376d069492cf3bbbbbbdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 05/49] fix: parenthesise an equal-precedence left operand of a
 right associative operator

(a^b)^c printed as a^b^c, and (a=b)=c as a=b=c, which read as a^(b^c) and
a=(b=c).
---
 stator/symbolic/binary_ops.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stator/symbolic/binary_ops.hpp b/stator/symbolic/binary_ops.hpp
index 753e2d9..4f153cc 100644
--- a/stator/symbolic/binary_ops.hpp
+++ b/stator/symbolic/binary_ops.hpp
@@ -452,7 +452,10 @@ namespace sym {
     const auto RHS_BP  = BP(op._r);
 
     std::string LHS_repr = repr<Config>(op._l);
-    if (LHS_BP.second < this_BP.first || Config::Force_parenthesis)
+    //A LHS with equal precedence only binds first for operators which are not right associative
+    if ((LHS_BP.second < this_BP.first)
+        || ((Op::associativity == detail::Associativity::RIGHT) && (LHS_BP.second == this_BP.first))
+        || Config::Force_parenthesis)
       LHS_repr = detail::paren_wrap<Config>(LHS_repr);
 
     std::string RHS_repr = repr<Config>(op._r);
-- 
2.43.0


From c2a7065f52229678c9fa95056297e5f934c09c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 06/49] fix: parenthesise negative constants where a prefix
 minus would regroup

(-2)^x printed as -2^x, x^(-2)*y as x^-2*y and sin (-2) as sin -2, which the
parser reads as -(2^x), x^(-(2*y)) and a syntax error.
---
 stator/symbolic/constants.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/stator/symbolic/constants.hpp b/stator/symbolic/constants.hpp
index ca8a954..39b6eca 100644
--- a/stator/symbolic/constants.hpp
+++ b/stator/symbolic/constants.hpp
@@ -232,9 +232,22 @@ namespace sym {
   /*! \brief Returns the binding powers for constants.
       
     Arguments that cannot be split, like constants have very high
-    binding powers internally as they cannot be split.
+    binding powers internally as they cannot be split. The exception
+    is negative numbers: their sign is written (and parsed) as the
+    prefix negation operator, so to the right they only resist addition
+    and subtraction, and they are only safe on the left of
+    multiplication and weaker operators.
   */
   template<class T, typename = typename std::enable_if<detail::IsConstant<T>::value>::type>
   std::pair<int, int> BP(const T& v)
-  { return std::make_pair(std::numeric_limits<int>::max(), std::numeric_limits<int>::max()); }
+  {
+    if constexpr (std::is_arithmetic<T>::value)
+      if (std::signbit(static_cast<double>(v)))
+        return std::make_pair(21, 30);
+    return std::make_pair(std::numeric_limits<int>::max(), std::numeric_limits<int>::max());
+  }
+
+  template<std::intmax_t Num>
+  std::pair<int, int> BP(const C<Num, 1>& v)
+  { return BP(double(Num)); }
 }
-- 
2.43.0


From 982c1d27422292ef3de0c0338f23e75b7957c144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:00 +0000
Subject: [PATCH 07/49] fix: element-wise operators with a scalar on the left
 of an array were never viable

Their enable_if had no default and so could not be deduced; 2-[y] stayed
symbolic and (2-[1])*[2] became [(2-[1])*2].
---
 stator/symbolic/array.hpp   | 6 +++---
 stator/symbolic/runtime.hpp | 5 +++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/stator/symbolic/array.hpp b/stator/symbolic/array.hpp
index d07595b..34c563d 100644
--- a/stator/symbolic/array.hpp
+++ b/stator/symbolic/array.hpp
@@ -488,7 +488,7 @@ namespace sym
                                     { return l + r; });
   }
 
-  template <typename... Args, typename L, typename std::enable_if<!std::is_base_of<detail::ArrayBase, L>::value>::type>
+  template <typename L, typename... Args, typename = typename std::enable_if<!std::is_base_of<detail::ArrayBase, L>::value && !std::is_same<Expr, L>::value>::type>
   auto operator+(const L &l, const Array<Args...> &r)
   {
     return detail::elementwiseopR(l, r, [](const L &l, const typename Array<Args...>::Value &r)
@@ -506,7 +506,7 @@ namespace sym
                                     { return l - r; });
   }
 
-  template <typename... Args, typename L, typename std::enable_if<!std::is_base_of<detail::ArrayBase, L>::value>::type>
+  template <typename L, typename... Args, typename = typename std::enable_if<!std::is_base_of<detail::ArrayBase, L>::value && !std::is_same<Expr, L>::value>::type>
   auto operator-(const L &l, const Array<Args...> &r)
   {
     return detail::elementwiseopR(l, r, [](const L &l, const typename Array<Args...>::Value &r)
@@ -545,7 +545,7 @@ namespace sym
                                     { return l / r; });
   }
 
-  template <typename... Args, typename L, typename std::enable_if<!std::is_base_of<detail::ArrayBase, L>::value>::type>
+  template <typename L, typename... Args, typename = typename std::enable_if<!std::is_base_of<detail::ArrayBase, L>::value && !std::is_same<Expr, L>::value>::type>
   auto operator/(const L &l, const Array<Args...> &r)
   {
     return detail::elementwiseopR(l, r, [](const L &l, const typename Array<Args...>::Value &r)
diff --git a/stator/symbolic/runtime.hpp b/stator/symbolic/runtime.hpp
index f52bc8f..950d1ce 100644
--- a/stator/symbolic/runtime.hpp
+++ b/stator/symbolic/runtime.hpp
@@ -669,6 +669,11 @@ namespace sym
         return Expr(store(detail::Subtract::apply(l, r)));
       }
 
+      Expr dd_visit(const double &l, const ArrayRT &r, detail::Subtract)
+      {
+        return Expr(store(detail::Subtract::apply(l, r)));
+      }
+
       Expr dd_visit(const double &l, const BinaryOp<Expr, detail::Multiply, Expr> &r, detail::Multiply)
       {
         if (dynamic_cast<const ConstantRT<double> *>(r.getLHS().get()))
-- 
2.43.0


From 29ce4c3ecebca62329673f949b06cacc5ee84cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 08/49] fix: a number too large for a double was read as the
 largest double

1e400 was accepted as 1.797...e308; it is now refused with an error.
---
 stator/symbolic/parser.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stator/symbolic/parser.hpp b/stator/symbolic/parser.hpp
index ac07540..76f66b9 100644
--- a/stator/symbolic/parser.hpp
+++ b/stator/symbolic/parser.hpp
@@ -495,6 +495,9 @@ namespace sym
 					ss << token;
 					double val;
 					ss >> val;
+					if (ss.fail())
+						stator_throw() << "The number \"" + token + "\" cannot be represented\n"
+									   << parserLoc();
 					return Expr(val);
 				}
 
-- 
2.43.0


From c709ae20449ee50962adefc876361ed59e699fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 09/49] fix: LaTeX form of ln closed a brace it never opened

---
 stator/symbolic/unary_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/unary_ops.hpp b/stator/symbolic/unary_ops.hpp
index a0ef12e..b02724e 100644
--- a/stator/symbolic/unary_ops.hpp
+++ b/stator/symbolic/unary_ops.hpp
@@ -77,7 +77,7 @@ namespace sym {
       static inline std::string l_repr()       { return "ln "; }
       static inline std::string r_repr()       { return ""; }
       static inline std::string l_latex_repr() { return "\\ln "; }
-      static inline std::string r_latex_repr() { return "}"; }
+      static inline std::string r_latex_repr() { return ""; }
       static constexpr int type_index = 4;
     };
 
-- 
2.43.0


From d695f2e49355364905d040a140c4f39a3585e41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 10/49] fix: LaTeX form of an uncertainty ran its command into
 the following name
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

x ± y was printed as x\pmy, an undefined command.
---
 stator/symbolic/uncertainty.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/uncertainty.hpp b/stator/symbolic/uncertainty.hpp
index f91a37d..bfa79e9 100644
--- a/stator/symbolic/uncertainty.hpp
+++ b/stator/symbolic/uncertainty.hpp
@@ -50,7 +50,7 @@ namespace sym
       static inline std::string repr() { return "±"; }
       static inline std::string r_repr() { return ""; }
       static inline std::string l_latex_repr() { return ""; }
-      static inline std::string latex_repr() { return "\\pm"; }
+      static inline std::string latex_repr() { return "\\pm "; }
       static inline std::string r_latex_repr() { return ""; }
       template <class L, class R>
       static auto apply(const L &l, const R &r)
-- 
2.43.0


From ef94dccea95a2876ddb0efc42be1c062705f3839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:38 +0000
Subject: [PATCH 11/49] fix: the hash of a Dict depended on the order its items
 were stored in

{x:1,y:2} and {y:2,x:1} compare equal but had different hashes.
---
 stator/symbolic/dict.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/stator/symbolic/dict.hpp b/stator/symbolic/dict.hpp
index 46bae69..ca95115 100644
--- a/stator/symbolic/dict.hpp
+++ b/stator/symbolic/dict.hpp
@@ -120,11 +120,18 @@ namespace std
   {
     std::size_t operator()(sym::Dict<Key, Value> const& v) const noexcept
     {
-      std::size_t seed = 16;
+      //Equal dictionaries may store their items in different orders
+      //(it depends on how they were filled), so the item hashes must be
+      //combined in a way independent of their order.
+      std::size_t items = 0;
       for (const auto& item : v) {
-	stator::hash_combine(seed, std::hash<typename std::decay<decltype(item.first)>::type>{}(item.first));
-	stator::hash_combine(seed, std::hash<typename std::decay<decltype(item.second)>::type>{}(item.second));
+	std::size_t item_hash = 0;
+	stator::hash_combine(item_hash, std::hash<typename std::decay<decltype(item.first)>::type>{}(item.first));
+	stator::hash_combine(item_hash, std::hash<typename std::decay<decltype(item.second)>::type>{}(item.second));
+	items += item_hash;
       }
+      std::size_t seed = 16;
+      stator::hash_combine(seed, items);
       return seed;
     }
   };
-- 
2.43.0


From d653f758c0eb5fdbe05083d443ddbfbf99a2328e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH 12/49] fix: limit of a polynomial at infinity used the
 template order, not the leading term's

---
 stator/symbolic/polynomial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index 837c3a6..739812d 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -242,7 +242,7 @@ namespace sym {
 	for(size_t i = Order; i > 0; --i)
 	  if (f[i] != empty_sum(f[0])) {
 	    //Determine if this is an odd or even function of x
-	    if (Order % 2)
+	    if (i % 2)
 	      //This is an odd function of x, the sign of x matters
 	      return f[i] * x;
 	    else
-- 
2.43.0


From 7177a0093f9d8a8f5c795eb3f3102a629893d24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:18 +0000
Subject: [PATCH 13/49] fix: symbolic substitution into a Polynomial did not
 compile

---
 stator/symbolic/polynomial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index 739812d..b4dae65 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -306,7 +306,7 @@ namespace sym {
                                               >::type,
 	     typename = typename enable_if_var_eq<PolyVar, SubVar>::type>
   auto sub(const Polynomial<Order, Coeff_t, PolyVar>& f, const EqualityOp<SubVar, Coeff_t2>& x_container) {
-    return detail::PolySubWorker<Order>::eval(f, x_container._val);
+    return detail::PolySubWorker<Order>::eval(f, x_container._r);
   }
 
   /*! \brief Fast evaluation of multiple derivatives of a
-- 
2.43.0


From 46f2bc0f9a7b36fd755b4018fae62abca2e1aa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:53 +0000
Subject: [PATCH 14/49] fix: deflate_polynomial ran out of bounds for orders
 below three

---
 stator/symbolic/polynomial.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index b4dae65..952c05c 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -711,6 +711,10 @@ namespace sym {
     b[Order-1] = a[Order];
     b[0] = - a[0] / root;
 
+    //The remaining coefficients lie between those two
+    if (Order < 3)
+	return b;
+
     size_t i_t = Order-2;
     size_t i_b = 1;
     while (i_t >= i_b) {
-- 
2.43.0


From 998bbb643bbae7176a367e71f50077bc7bd11961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:15 +0000
Subject: [PATCH 15/49] fix: precision ignored the sign of the constant term

---
 stator/symbolic/polynomial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index 952c05c..3a420e5 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -633,7 +633,7 @@ namespace sym {
     const int mantissa_digits = std::numeric_limits<Coeff_t>::digits;
     const Coeff_t eps = 1.06 / std::pow(2, mantissa_digits);
 
-    Coeff_t sum = f[0];
+    Coeff_t sum = std::abs(f[0]);
     Coeff_t2 xn = std::abs(x);
     for(size_t i = 1; i <= Order; ++i) {
 	sum += (2 * i + 1) * std::abs(f[i]) * xn;
-- 
2.43.0


From 8a8d8be4708e4bf94a447ed600ba55a93517358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:28 +0000
Subject: [PATCH 16/49] fix: solve_real_roots dropped the root at zero

---
 stator/symbolic/polynomial.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index 3a420e5..55c71ad 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -1873,8 +1873,14 @@ namespace sym {
   solve_real_roots(const Polynomial<Order, Coeff_t, PolyVar>& f) {
     //Handle special cases 
     //The constant coefficient is zero: deflate the polynomial
-    if (f[0] == Coeff_t())
-	return solve_real_roots(deflate_polynomial(f, Null()));
+    if (f[0] == Coeff_t()) {
+	StackVector<Coeff_t, Order> roots = solve_real_roots(deflate_polynomial(f, Null()));
+	//Zero itself is a root (unless it is a multiple root, and so is already present)
+	if (std::find(roots.begin(), roots.end(), Coeff_t()) == roots.end())
+	  roots.push_back(Coeff_t());
+	std::sort(roots.begin(), roots.end());
+	return roots;
+    }
     
     //The highest order coefficient is zero: drop to lower order
     //solvers
-- 
2.43.0


From cb7215c047a9b1409d235ed09aa1211eca0ca0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:41 +0000
Subject: [PATCH 17/49] fix: a step to NaN was not refused by the root
 polishers

---
 stator/symbolic/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/numeric.hpp b/stator/symbolic/numeric.hpp
index 3484956..59b5f81 100644
--- a/stator/symbolic/numeric.hpp
+++ b/stator/symbolic/numeric.hpp
@@ -37,7 +37,7 @@ namespace stator {
 	//std::cout << "new_x = " << new_x << std::endl;
 	//std::cout << "[" << low_bound << "," << high_bound << "]" << std::endl;
 
-	if ((new_x >= high_bound) || (new_x <= low_bound)) {
+	if (!((new_x < high_bound) && (new_x > low_bound))) {
 	  //std::cout << "Out of bounds" << std::endl;
 	  //Out of bounds step, failed!
 	  return 0;
-- 
2.43.0


From 3abca98211dd64721b6cbfe9c883cc69da7d43e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:08 +0000
Subject: [PATCH 18/49] fix: VCA lost, or failed on, roots lying exactly on a
 dividing point

---
 stator/symbolic/polynomial.hpp | 50 ++++++++++++++++------------------
 1 file changed, 23 insertions(+), 27 deletions(-)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index 55c71ad..8d38217 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -1369,43 +1369,39 @@ namespace sym {
 	//One root! the bound is (0,1)
 	return StackVector<std::pair<Coeff_t,Coeff_t>, Order>{std::make_pair(Coeff_t(0), Coeff_t(1))};
     default:
-	//Possibly multiple roots, so divide the range [0,1] in half
-	//and recursively explore it.
-
-	//We first scale the polynomial so that the original range
-	//x=[0,1] is scaled to the range x=[0,2]. To do this, we
-	//perform the subsitution x->x/2. Rather than use division
-	//(even though a division by 2 usually cheap), we actually
-	//generate this function \f$p1(x) = 2^{Order}\,f(x/2)\f$. This
-	//transforms this to a multiplication op which is always cheap.
-	Polynomial<Order, Coeff_t, PolyVar> p1(f);
-	for (size_t i(0); i <= Order; ++i)
-	  p1[i] *= (1 << (Order-i)); //This gives (2^Order) / (2^i)
-
-	//Perform a Taylor shift p2(x) = p1(x+1). This gives 
+	//Possibly multiple roots, so divide the range [0,1] in two and
+	//recursively explore it.
+
+	//Usually the range is divided in half, but a root on the
+	//dividing point lies inside neither of the parts. If there is
+	//probably a root near the dividing point (compared to the
+	//precision of the polynomial evaluation), divide the range
+	//somewhere else.
+	Coeff_t split = 0.5;
+	for (size_t i(0); (i < Order) && (std::abs(sub(f, PolyVar() = split)) <= (100 * precision(f, split))); ++i)
+	  split = (split + 1) / 2;
+
+	//We scale and shift the polynomial so that the original ranges
+	//x=[0,split] and x=[split,1] both become the range x=[0,1]:
 	//
-	//p2(x) = 2^Order f(x/2 + 0.5) 
-	//
-	//in terms of the original function, f(x).
-	const Polynomial<Order, Coeff_t, PolyVar> p2 = shift_function(p1, Unity());
-
-	//Now that we have two scaled and shifted polynomials where
-	//the roots in f in the range x=[0,0.5] are in p1 over the
-	//range \f$x=[0,1]\f$, and the roots of f in the range
-	//x=[0.5,1.0] are in p2 over the range \f$x=[0,1]\f$. Search
-	//them both and combine the results.
+	//p1(x) = f(split * x)
+	//p2(x) = f(split + (1 - split) * x)
+	const Coeff_t width = 1 - split;
+	const Polynomial<Order, Coeff_t, PolyVar> p1 = scale_poly(f, split);
+	const Polynomial<Order, Coeff_t, PolyVar> p2 = scale_poly(shift_function(f, split), width);
 
+	//Search them both and combine the results.
 	auto retval = VCA_real_root_bounds_worker(p1);
 	//Scale these roots back to the original mapping
 	for (auto& root_bound : retval) {
-	  root_bound.first /= 2;
-	  root_bound.second /= 2;
+	  root_bound.first *= split;
+	  root_bound.second *= split;
 	}
 
 	auto second_range = VCA_real_root_bounds_worker(p2);
 	//Scale these roots back to the original mapping
 	for (auto& root_bound : second_range)
-	  retval.push_back(std::make_pair(root_bound.first / 2 + 0.5, root_bound.second / 2 + 0.5));
+	  retval.push_back(std::make_pair(root_bound.first * width + split, root_bound.second * width + split));
 	
 	return retval;
     }
-- 
2.43.0


From df4d8306c5c28d24af98199958a1f36e976bbde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:27 +0000
Subject: [PATCH 19/49] fix: VAS and VCA split on a root when earlier rounding
 errors hid it

---
 stator/symbolic/polynomial.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index 8d38217..95869a0 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -1375,10 +1375,11 @@ namespace sym {
 	//Usually the range is divided in half, but a root on the
 	//dividing point lies inside neither of the parts. If there is
 	//probably a root near the dividing point (compared to the
-	//precision of the polynomial evaluation), divide the range
-	//somewhere else.
+	//precision of the polynomial evaluation, with a margin for the
+	//rounding errors which the changes of variable leave in the
+	//coefficients), divide the range somewhere else.
 	Coeff_t split = 0.5;
-	for (size_t i(0); (i < Order) && (std::abs(sub(f, PolyVar() = split)) <= (100 * precision(f, split))); ++i)
+	for (size_t i(0); (i < Order) && (std::abs(sub(f, PolyVar() = split)) <= (1e6 * precision(f, split))); ++i)
 	  split = (split + 1) / 2;
 
 	//We scale and shift the polynomial so that the original ranges
@@ -1564,10 +1565,11 @@ namespace sym {
 	  continue; //Start again
 	}
 
-	if (std::abs(sub(f, PolyVar() = 1.0)) <= (100 * precision(f, 1.0))) {
+	if (std::abs(sub(f, PolyVar() = 1.0)) <= (1e6 * precision(f, 1.0))) {
 	  //There is probably a root near x=1.0 as its approached zero
 	  //closely (compared to the precision of the polynomial
-	  //evaluation). Rather than trying to divide it out or do
+	  //evaluation, with a margin for the rounding errors which the
+	  //changes of variable leave in the coefficients). Rather than trying to divide it out or do
 	  //anything too smart, just scale the polynomial so that next
 	  //time it falls at x=0.5.
 	  //
-- 
2.43.0


From 15ecac5c7638df6857b99d8d283a6d8f6b02d4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:33 +0000
Subject: [PATCH 20/49] fix: cubics with very large or small roots were solved
 from an unrelated starting guess

---
 stator/symbolic/polynomial.hpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index 95869a0..69961e0 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -877,6 +877,32 @@ namespace sym {
 	//Special case where f(x) = x^3 + f[0]
 	return StackVector<double, 3>{std::cbrt(-f[0])};
 
+    //Very large or small roots over- or underflow the intermediate
+    //results below. If the variable can be scaled by a power of two so that
+    //the coefficients are of the order of one (without underflow of
+    //any of them), then solve the scaled polynomial instead.
+    if (std::isfinite(f[2]) && std::isfinite(f[1]) && std::isfinite(f[0])) {
+	int scale = std::numeric_limits<int>::min();
+	for (int i(0); i < 3; ++i)
+	  if (f[i] != 0)
+	    scale = std::max(scale, std::ilogb(f[i]) / (3 - i));
+
+	if ((scale > 100) || (scale < -100)) {
+	  bool underflow = false;
+	  auto f_scaled = f;
+	  for (int i(0); i < 3; ++i) {
+	    f_scaled[i] = std::ldexp(f[i], scale * (i - 3));
+	    underflow |= (f[i] != 0) && !std::isnormal(f_scaled[i]);
+	  }
+	  if (!underflow) {
+	    auto roots = solve_real_roots(f_scaled);
+	    for (auto& root : roots)
+	      root = std::ldexp(root, scale);
+	    return roots;
+	  }
+	}
+    }
+
     static const double maxSqrt = std::sqrt(std::numeric_limits<double>::max());
     
     if ((f[2] > maxSqrt) || (f[2] < -maxSqrt))
-- 
2.43.0


From dfabec0e0ceee88157d8f803f15228efd05be9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:14 +0000
Subject: [PATCH 21/49] fix: a bisection step from the middle of its interval
 counted as converged

---
 stator/symbolic/numeric.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stator/symbolic/numeric.hpp b/stator/symbolic/numeric.hpp
index 59b5f81..f31b028 100644
--- a/stator/symbolic/numeric.hpp
+++ b/stator/symbolic/numeric.hpp
@@ -167,7 +167,10 @@ namespace stator {
 
       //std::cout << "new_x = " << x_mid << std::endl;
 
-      Real delta = x_mid - x;
+      //The distance of the mid point from the root is bounded by the
+      //width of the interval (the distance from the previous x is not
+      //related to it)
+      Real delta = (high_bound - low_bound) / 2;
       
       if (//Check if the precision has been reached
 	  (std::abs(delta) < std::abs(x_precision * x_mid))
-- 
2.43.0


From 605a77d0ef5a4dc4bc2f331b6c8d87650cfa43f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:47 +0000
Subject: [PATCH 22/49] fix: Schroeder's step multiplied by the derivative it
 divides by

---
 stator/symbolic/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/numeric.hpp b/stator/symbolic/numeric.hpp
index f31b028..8d2cc0c 100644
--- a/stator/symbolic/numeric.hpp
+++ b/stator/symbolic/numeric.hpp
@@ -141,7 +141,7 @@ namespace stator {
 	//Cannot proceed with a zero first derivative
 	return 0;
 
-      return detail::process_iterative_step(f, curr_state, x, x - 2 * curr_state[0] * curr_state[1] - curr_state[2] * curr_state[0] * curr_state[0] / (2 * curr_state[1] * curr_state[1] * curr_state[1]), low_bound, high_bound, x_precision);
+      return detail::process_iterative_step(f, curr_state, x, x - curr_state[0] / curr_state[1] - curr_state[2] * curr_state[0] * curr_state[0] / (2 * curr_state[1] * curr_state[1] * curr_state[1]), low_bound, high_bound, x_precision);
     }
 
     /*! \brief A single bisection step.
-- 
2.43.0


From 3cb6ec553cae971fd667c0aeab49bb443888f23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:34 +0000
Subject: [PATCH 23/49] fix: Halley's method took a stationary point for a root

---
 stator/symbolic/numeric.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stator/symbolic/numeric.hpp b/stator/symbolic/numeric.hpp
index 8d2cc0c..122278d 100644
--- a/stator/symbolic/numeric.hpp
+++ b/stator/symbolic/numeric.hpp
@@ -105,6 +105,10 @@ namespace stator {
       static_assert(Derivatives >= 2, "Can only perform Halley iteration if at least 1 derivative is available");
 
       //std::cout << "Halley Method" << std::endl;
+      if (curr_state[1] == 0)
+	//A zero derivative makes the step zero, wherever the root is
+	return 0;
+
       Real numerator = 2 * curr_state[0] * curr_state[1];
       Real denominator = 2 * curr_state[1] * curr_state[1] - curr_state[0] * curr_state[2];
       
-- 
2.43.0


From 0697d2d7eaaa14322057e854c0afee1dd202ea8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:03 +0000
Subject: [PATCH 24/49] fix: Newton's method took a point of infinite slope for
 a root

---
 stator/symbolic/numeric.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stator/symbolic/numeric.hpp b/stator/symbolic/numeric.hpp
index 122278d..131da35 100644
--- a/stator/symbolic/numeric.hpp
+++ b/stator/symbolic/numeric.hpp
@@ -88,9 +88,10 @@ namespace stator {
       static_assert(Derivatives >= 1, "Can only perform newton raphson if at least 1 derivative is available");
 
       //std::cout << "NR Method" << std::endl;
-      if (curr_state[1] == 0) {
+      if ((curr_state[1] == 0) || std::isinf(curr_state[1])) {
 	//std::cout << "Zero derivative!" << std::endl;
-	//Zero derivatives cause x to diverge, so abort
+	//Zero derivatives cause x to diverge, and infinite derivatives
+	//make the step zero wherever the root is, so abort
 	return 0;
       }
 
-- 
2.43.0


From 7ed65ae75385836299b603fae593cfb3425885f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:54 +0000
Subject: [PATCH 25/49] fix: StackVector equality compares the stored elements
 only

The inherited std::array comparison also compared the unused storage,
so two empty containers could be unequal and {0} equal to {}.
---
 stator/orphan/stack_vector.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/stator/orphan/stack_vector.hpp b/stator/orphan/stack_vector.hpp
index 01b6fa5..d507cc2 100644
--- a/stator/orphan/stack_vector.hpp
+++ b/stator/orphan/stack_vector.hpp
@@ -20,6 +20,7 @@
 #pragma once
 
 // C++
+#include <algorithm>
 #include <array>
 #include <ostream>
 
@@ -137,6 +138,15 @@ namespace stator {
 	  push_back(a);
       }
       
+      /*! \brief Test if two containers hold the same elements (the
+          unused storage is ignored). */
+      bool operator==(const StackVector& ovec) const {
+	return (_size == ovec._size) && std::equal(Base::begin(), end(), ovec.begin());
+      }
+
+      /*! \brief Test if two containers hold different elements. */
+      bool operator!=(const StackVector& ovec) const { return !(*this == ovec); }
+
     private:
       /*! The number of elements stored in the StackVector. */
       size_t _size;
-- 
2.43.0


From bcd621b8a2c681d248c6087683ae31bc0e57033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:54 +0000
Subject: [PATCH 26/49] fix: arrays over fixed stores compare and iterate the
 elements in use

end() ran to the end of the store rather than the last element, so
fixed-store arrays iterated (and printed, compared) unused slots, and
arrays of different storage could not be compared. A refused resize also
left the dimensions changed, and a list of the wrong length silently
replaced the store.
---
 stator/symbolic/array.hpp    | 23 +++++++++++++++++------
 stator/symbolic/array_rt.hpp |  2 +-
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/stator/symbolic/array.hpp b/stator/symbolic/array.hpp
index 34c563d..1cf3647 100644
--- a/stator/symbolic/array.hpp
+++ b/stator/symbolic/array.hpp
@@ -20,6 +20,7 @@
 #pragma once
 
 #include <stator/symbolic/symbolic.hpp>
+#include <algorithm>
 #include <iterator> // For std::forward_iterator_tag
 #include <cstddef>  // For std::ptrdiff_t
 
@@ -90,6 +91,8 @@ namespace sym
     Addressing(const Coords &d, std::initializer_list<T> vals)
     {
       resize(d);
+      if (vals.size() != size())
+        stator_throw() << "The number of values does not match the dimensions";
       Base::_store = typename Base::Store(vals);
     }
 
@@ -108,13 +111,14 @@ namespace sym
     template <class... Args>
     bool operator==(const Addressing<Args...> &ad) const
     {
-      return (ad.getDimensions() == getDimensions()) && (ad._store == Base::_store);
+      return (ad.getDimensions() == getDimensions()) && std::equal(begin(), end(), ad.begin());
     }
 
     auto begin() const { return Base::_store.begin(); }
     auto begin() { return Base::_store.begin(); }
-    auto end() const { return Base::_store.end(); }
-    auto end() { return Base::_store.end(); }
+    //Fixed stores may hold more elements than are in use
+    auto end() const { return begin() + size(); }
+    auto end() { return begin() + size(); }
 
     void resize(const Coords &d)
     {
@@ -170,13 +174,16 @@ namespace sym
     Addressing(const Coords &d, std::initializer_list<T> vals)
     {
       resize(d);
+      if (vals.size() != size())
+        stator_throw() << "The number of values does not match the dimensions";
       Base::_store = typename Base::Store(vals);
     }
 
     auto begin() const { return Base::_store.begin(); }
     auto begin() { return Base::_store.begin(); }
-    auto end() const { return Base::_store.end(); }
-    auto end() { return Base::_store.end(); }
+    //Fixed stores may hold more elements than are in use
+    auto end() const { return begin() + size(); }
+    auto end() { return begin() + size(); }
 
     Coords getDimensions() const { return _dimensions; }
 
@@ -203,18 +210,22 @@ namespace sym
     template <class... Args>
     bool operator==(const Addressing<Args...> &ad) const
     {
-      return (ad.getDimensions() == getDimensions()) && (ad._store == Base::_store);
+      return (ad.getDimensions() == getDimensions()) && std::equal(begin(), end(), ad.begin());
     }
 
     void resize(const Coords &d)
     {
+      const Coords old = _dimensions;
       _dimensions = d;
       if constexpr (StoreSize == -1u)
       {
         Base::_store.resize(store_size());
       }
       else if (store_size() > StoreSize)
+      {
+        _dimensions = old;
         stator_throw() << "StoreSize is too small for this dimensionality";
+      }
     }
 
     size_t size() const
diff --git a/stator/symbolic/array_rt.hpp b/stator/symbolic/array_rt.hpp
index 20984a3..599424b 100644
--- a/stator/symbolic/array_rt.hpp
+++ b/stator/symbolic/array_rt.hpp
@@ -52,7 +52,7 @@ namespace sym {
 
     template<class...Args>
     bool operator==(const Array<Args...>& ad) const {
-      return (ad.getDimensions() == getDimensions()) && (ad._store == Base::_store);
+      return (ad.getDimensions() == getDimensions()) && std::equal(Base::begin(), Base::end(), ad.begin());
     }
   };
   
-- 
2.43.0


From 0305072571d4caf9bb02f12586a2f084faf6d51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:31 +0000
Subject: [PATCH 27/49] fix: one-dimensional row-major arrays did not compile

The accessor's return type was deduced while the class was incomplete,
and push_back resized a fixed coordinate.
---
 stator/symbolic/array.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/stator/symbolic/array.hpp b/stator/symbolic/array.hpp
index 1cf3647..b09ec18 100644
--- a/stator/symbolic/array.hpp
+++ b/stator/symbolic/array.hpp
@@ -245,8 +245,9 @@ namespace sym
 
     void push_back(const T &val)
     {
-      if (_dimensions.size() == 0)
-        _dimensions.resize(1);
+      if constexpr (D == -1u)
+        if (_dimensions.size() == 0)
+          _dimensions.resize(1);
 
       if (_dimensions.size() != 1)
         stator_throw() << "Cannot push_back to non-linear arrays yet";
@@ -349,15 +350,15 @@ namespace sym
       }
     };
 
-    //These accessors need to use the -> decltype form, as they return
+    //These accessors need to use decltype(auto), as they return
     //ArrayAccessors by value, unless D=1, then we return array
     //elements by (possibly const) reference.
-    auto operator[](const size_t &c) -> decltype(ArrayAccessor<D, Addressing>(*this)[c])
+    decltype(auto) operator[](const size_t &c)
     {
       return ArrayAccessor<D, Addressing>(*this)[c];
     }
 
-    auto operator[](const size_t &c) const -> decltype(ArrayAccessor<D, const Addressing>(*this)[c])
+    decltype(auto) operator[](const size_t &c) const
     {
       return ArrayAccessor<D, const Addressing>(*this)[c];
     }
-- 
2.43.0


From ff06de720bcd1274bad87798f6827fdf191c0fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:48 +0000
Subject: [PATCH 28/49] fix: reflected - and / of the Python package had their
 operands exchanged

---
 pysrc/stator/core.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pysrc/stator/core.cpp b/pysrc/stator/core.cpp
index c2a9a35..40276a0 100644
--- a/pysrc/stator/core.cpp
+++ b/pysrc/stator/core.cpp
@@ -77,13 +77,13 @@ PYBIND11_MODULE(core, m)
     .def("__add__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l+r); })
     .def("__radd__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l+r); })
     .def("__sub__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l-r); })
-    .def("__rsub__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l-r); })
+    .def("__rsub__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(r-l); })
     .def("__mul__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l*r); })
     .def("__rmul__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l*r); })
     .def("__div__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l/r); })
-    .def("__rdiv__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l/r); })
+    .def("__rdiv__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(r/l); })
     .def("__truediv__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l/r); })
-    .def("__rtruediv__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l/r); })
+    .def("__rtruediv__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(r/l); })
     .def("__eq__", +[](const sym::Expr& l, const sym::Expr& r) { return l == r; })
     .def(py::hash(py::self))
     .def("equal", +[](const sym::Expr& l, const sym::Expr& r) { return equality(l, r); })
-- 
2.43.0


From c9c67a268dcd860e19006bfa8de471ac089d9bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:40 +0000
Subject: [PATCH 29/49] fix: automatic differentiation of run-time expressions
 did not compile

---
 stator/symbolic/ad.hpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/stator/symbolic/ad.hpp b/stator/symbolic/ad.hpp
index 1c65049..b49b402 100644
--- a/stator/symbolic/ad.hpp
+++ b/stator/symbolic/ad.hpp
@@ -36,7 +36,7 @@ namespace sym {
   template<size_t Nd, conststr N1, typename Var_t, typename Arg_t>
   Eigen::Matrix<double, Nd+1,1> ad(const Var<N1>& v, const EqualityOp<Var_t, Arg_t>& r) {
     Eigen::Matrix<double, Nd+1,1> result = Eigen::Matrix<double, Nd+1,1>::Zero();
-    if ((v == r._l)) {
+    if (v.getName() == r._l.getName()) {
       result[0] = r._r;
       if (Nd > 0) result[1] = 1.0;
     } else
@@ -45,6 +45,11 @@ namespace sym {
     return result;
   }
 
+  template<size_t Nd, typename Arg, typename Var_t, typename Arg_t>
+  Eigen::Matrix<double, Nd+1,1> ad(const UnaryOp<Arg, detail::Negate>& op, const EqualityOp<Var_t, Arg_t>& sub) {
+    return -ad<Nd>(op._arg, sub);
+  }
+
   template<size_t Nd, typename LHS_t, typename RHS_t, typename Var_t, typename Arg_t>
   Eigen::Matrix<double, Nd+1,1> ad(const BinaryOp<LHS_t, detail::Add, RHS_t>& op, const EqualityOp<Var_t, Arg_t>& r) {
     return ad<Nd>(op._l, r) + ad<Nd>(op._r, r);
@@ -240,6 +245,23 @@ namespace sym {
       Eigen::Matrix<double, Nd+1,1> apply(const T& v) {
   	return ad<Nd>(v, _rel);
       }
+
+      //Without these, unsupported terms are converted back to an Expr
+      //and visited again without end.
+      Eigen::Matrix<double, Nd+1,1> apply(const UnaryOp<Expr, detail::Absolute>& v) { return unsupported(v); }
+      Eigen::Matrix<double, Nd+1,1> apply(const UnaryOp<Expr, detail::Arbsign>& v) { return unsupported(v); }
+      Eigen::Matrix<double, Nd+1,1> apply(const BinaryOp<Expr, detail::Equality, Expr>& v) { return unsupported(v); }
+      Eigen::Matrix<double, Nd+1,1> apply(const BinaryOp<Expr, detail::ArrayAccess, Expr>& v) { return unsupported(v); }
+      Eigen::Matrix<double, Nd+1,1> apply(const BinaryOp<Expr, detail::Units, Expr>& v) { return unsupported(v); }
+      Eigen::Matrix<double, Nd+1,1> apply(const BinaryOp<Expr, detail::Uncertainty, Expr>& v) { return unsupported(v); }
+      Eigen::Matrix<double, Nd+1,1> apply(const ArrayRT& v) { return unsupported(v); }
+      Eigen::Matrix<double, Nd+1,1> apply(const DictRT& v) { return unsupported(v); }
+
+    private:
+      template<class T>
+      Eigen::Matrix<double, Nd+1,1> unsupported(const T& v) {
+	stator_throw() << "Automatic differentiation is not available for " << repr(v);
+      }
     };
   }
     
-- 
2.43.0


From c3c7722a512ef26ba1bb8d9cf357749928f33b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:40 +0000
Subject: [PATCH 30/49] fix: automatic differentiation of natural powers at a
 zero of the base

---
 stator/symbolic/ad.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/stator/symbolic/ad.hpp b/stator/symbolic/ad.hpp
index b49b402..24af1b5 100644
--- a/stator/symbolic/ad.hpp
+++ b/stator/symbolic/ad.hpp
@@ -171,7 +171,22 @@ namespace sym {
       Eigen::Matrix<double, Nd+1,1> result = Eigen::Matrix<double, Nd+1,1>::Zero();
     
       result[0] = std::pow(g[0], a);
-    
+
+      //The recurrence divides by the value of the base, but natural
+      //powers are defined at its zeros too
+      if ((g[0] == 0) && (a >= 0) && (a == std::floor(a))) {
+	result[0] = 1;
+	//The terms up to order Nd are all zero above this power
+	for (size_t m(0); (m < a) && (m < Nd+1); ++m)
+	  for (size_t k(Nd+1); k-- > 0;) {
+	    double sum = 0;
+	    for (size_t i(0); i <= k; ++i)
+	      sum += result[i] * g[k-i];
+	    result[k] = sum;
+	  }
+	return result;
+      }
+
       for (size_t k(1); k < Nd+1; ++k) {
 	for (size_t i(1); i <= k; ++i)
 	  result[k] += ((a + 1) * i / k - 1) * g[i] * result[k - i];
-- 
2.43.0


From 8beacf28f21c69cd07a12af69ef5c4f4bc5f9241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:58 +0000
Subject: [PATCH 31/49] fix: sine of odd multiples of pi/2 has a sign; sin and
 cos of other constants did not compile

sin(C<3>() * pi() / C<2>()) was 1 instead of -1. Constants that are not
multiples of pi/2 now give the floating-point value, so that they can be
substituted into sines and cosines.
---
 stator/symbolic/constants.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/stator/symbolic/constants.hpp b/stator/symbolic/constants.hpp
index 39b6eca..e0344f3 100644
--- a/stator/symbolic/constants.hpp
+++ b/stator/symbolic/constants.hpp
@@ -182,9 +182,17 @@ namespace sym {
   constexpr Null sin_Cimpl(const C<num, den>& a, detail::choice<0>) { return {}; }
 
   template<std::intmax_t num, std::intmax_t den,
-	   typename = typename std::enable_if<is_whole_factor<std::ratio<num, den>, pi, decltype(pi() / C<2>())>::value>::type>
+	   typename = typename std::enable_if<is_whole_factor<std::ratio<num, den>, decltype(pi() * C<2>()), decltype(pi() / C<2>())>::value>::type>
   constexpr Unity sin_Cimpl(const C<num, den>& a, detail::choice<0>) { return {}; }
 
+  template<std::intmax_t num, std::intmax_t den,
+	   typename = typename std::enable_if<is_whole_factor<std::ratio<num, den>, decltype(pi() * C<2>()), decltype(pi() / C<-2>())>::value>::type>
+  constexpr C<-1> sin_Cimpl(const C<num, den>& a, detail::choice<0>) { return {}; }
+
+  //Any other constant has no exact result
+  template<std::intmax_t num, std::intmax_t den>
+  double sin_Cimpl(const C<num, den>& a, detail::choice<1>) { return std::sin(double(a)); }
+
   template<std::intmax_t num, std::intmax_t den,
 	   typename = typename std::enable_if<is_whole_factor<std::ratio<num, den>, pi>::value>::type>
   constexpr Unity cos_Cimpl(const C<num, den>& a, detail::choice<0>) { return {}; }
@@ -193,6 +201,9 @@ namespace sym {
 	   typename = typename std::enable_if<is_whole_factor<std::ratio<num, den>, pi, decltype(pi() / C<2>())>::value>::type>
   constexpr Null cos_Cimpl(const C<num, den>& a, detail::choice<0>) { return {}; }
 
+  template<std::intmax_t num, std::intmax_t den>
+  double cos_Cimpl(const C<num, den>& a, detail::choice<1>) { return std::cos(double(a)); }
+
   template<std::intmax_t num, std::intmax_t den>
   auto sin(const C<num, den>& a) { return sin_Cimpl(a, detail::select_overload{}); }
 
-- 
2.43.0


From 4205f847d0d2158c1c0d9a4555ead1500028acb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:58 +0000
Subject: [PATCH 32/49] fix: integer powers of compile-time constants did not
 compile

The implementation substituted an integer into the constant. Derivatives
of divisions by constants depend on it.
---
 stator/symbolic/binary_ops.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stator/symbolic/binary_ops.hpp b/stator/symbolic/binary_ops.hpp
index 4f153cc..7e795d7 100644
--- a/stator/symbolic/binary_ops.hpp
+++ b/stator/symbolic/binary_ops.hpp
@@ -335,9 +335,13 @@ namespace sym {
     };
   }
   
-  template<std::intmax_t num1, std::intmax_t den1, std::intmax_t num2>
+  template<std::intmax_t num1, std::intmax_t den1, std::intmax_t num2,
+	   typename = typename std::enable_if<num2 != 1>::type>
   auto pow(const C<num1, den1>& l, const C<num2,1>& r) {
-    return PowerOpSub<num2>::eval(sub(l, num2));
+    if constexpr (num2 < 0)
+      return Unity() / PowerOpSub<-num2>::eval(l);
+    else
+      return PowerOpSub<num2>::eval(l);
   }
   
   /*! \brief Symbolic equality operator. 
-- 
2.43.0


From 8d151317e489ffd063be916cb7647ade880078fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:58 +0000
Subject: [PATCH 33/49] fix: product of polynomials of different variables
 became a polynomial of one

expand(x*y) gave x^2.
---
 stator/symbolic/simplify.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stator/symbolic/simplify.hpp b/stator/symbolic/simplify.hpp
index 406269a..d1230ad 100644
--- a/stator/symbolic/simplify.hpp
+++ b/stator/symbolic/simplify.hpp
@@ -390,7 +390,8 @@ namespace sym {
    */
   template<class Config = DefaultSimplifyConfig, class Real1, class Real2, size_t M, size_t N,
 	   class PolyVar1, class PolyVar2, class Op,
-	   typename = typename std::enable_if<std::is_same<Op,detail::Multiply>::value>::type>
+	   typename = typename std::enable_if<std::is_same<Op,detail::Multiply>::value>::type,
+	   typename = typename enable_if_var_eq<PolyVar1, PolyVar2>::type>
     auto simplify(const BinaryOp<Polynomial<M, Real1, PolyVar1>, Op, Polynomial<N, Real2, PolyVar2>>& f)
     -> Polynomial<M + N, decltype(store(Op::apply(f._l[0], f._r[0]))), PolyVar1>
   {
-- 
2.43.0


From 5d6246d20c7c138abd589522a2e735ad8f532750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:58 +0000
Subject: [PATCH 34/49] fix: simplification and expansion of powers with no
 expansion did not compile

Natural powers of arguments that do not simplify, zero powers and negative
powers now are left as they are.
---
 stator/symbolic/simplify.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/stator/symbolic/simplify.hpp b/stator/symbolic/simplify.hpp
index d1230ad..9b6cd82 100644
--- a/stator/symbolic/simplify.hpp
+++ b/stator/symbolic/simplify.hpp
@@ -227,10 +227,9 @@ namespace sym {
     function defined for its argument.
    */
   template<class Config = DefaultSimplifyConfig, class Arg, std::intmax_t Power,
-	     typename = typename std::enable_if<PowerOpEnableExpansion<Arg>::value>::type>
-  auto simplify(const PowerOp<Arg, C<Power, 1> >& f) {
-    return simplify_powerop_impl<Config>(f, detail::select_overload{});
-  }
+	     typename = typename std::enable_if<PowerOpEnableExpansion<Arg>::value && (Power >= 0)>::type>
+  auto simplify(const PowerOp<Arg, C<Power, 1> >& f)
+    -> STATOR_AUTORETURN(simplify_powerop_impl<Config>(f, detail::select_overload{}));
 
   
   //Implement other simplifications at least at choice<5> or above, reordering should be a last case option!
@@ -316,7 +315,7 @@ namespace sym {
       expansion is enabled.
    */
   template<class Config = DefaultSimplifyConfig, conststr N1, class ...VarArgs, std::intmax_t Power,
-	     typename = typename std::enable_if<Config::expand_to_Polynomial>::type>
+	     typename = typename std::enable_if<Config::expand_to_Polynomial && (Power >= 0)>::type>
   Polynomial<Power, int, Var<N1, VarArgs...>> simplify(const PowerOp<Var<N1, VarArgs...>, C<Power,1> >&) {
     Polynomial<Power, int, Var<N1, VarArgs...> > retval;
     retval[Power] = 1;
-- 
2.43.0


From 0a69b7e8b3ed60ce05260ecddfc6a9bc9e5ffe11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:58 +0000
Subject: [PATCH 35/49] fix: expansion divided integer coefficients as integers

expand(x/3) gave zero.
---
 stator/symbolic/simplify.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/stator/symbolic/simplify.hpp b/stator/symbolic/simplify.hpp
index 9b6cd82..4b33a53 100644
--- a/stator/symbolic/simplify.hpp
+++ b/stator/symbolic/simplify.hpp
@@ -361,6 +361,14 @@ namespace sym {
   namespace detail {
     constexpr size_t max_order(size_t N, size_t M)
     { return N > M ? N : M; }
+
+    //Coefficients are numbers, thus dividing integers must not truncate
+    template<class N, class D> auto divide_coeff(const N& n, const D& d) {
+      if constexpr (std::is_integral<N>::value && std::is_integral<D>::value)
+        return double(n) / double(d);
+      else
+        return store(n / d);
+    }
   }// namespace detail
 
   /*!\brief Addition operator for two Polynomial types. 
@@ -405,11 +413,11 @@ namespace sym {
    */
   template<class Config = DefaultSimplifyConfig, class Real1, class Real2, size_t M, class PolyVar1, class PolyVar2>
   auto simplify(const BinaryOp<Polynomial<M, Real1, PolyVar1>, detail::Divide, Polynomial<0, Real2, PolyVar2>>& f)
-    -> Polynomial<M, decltype(store(f._l[0] / f._r[0])), PolyVar1>
+    -> Polynomial<M, decltype(detail::divide_coeff(f._l[0], f._r[0])), PolyVar1>
   {
-    Polynomial<M, decltype(store(f._l[0] / f._r[0])), PolyVar1> retval;
+    Polynomial<M, decltype(detail::divide_coeff(f._l[0], f._r[0])), PolyVar1> retval;
     for (size_t i(0); i <= M; ++i)
-  	  retval[i] += f._l[i] / f._r[0];
+  	  retval[i] += detail::divide_coeff(f._l[i], f._r[0]);
     return retval;
   }
   
-- 
2.43.0


From afb081beaa219ac84fd7a3ba269f210c488f031f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:38 +0000
Subject: [PATCH 36/49] fix: the integral of a variable by itself did not
 compile

---
 stator/symbolic/integrate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/integrate.hpp b/stator/symbolic/integrate.hpp
index f29e3e7..9c6f8e4 100644
--- a/stator/symbolic/integrate.hpp
+++ b/stator/symbolic/integrate.hpp
@@ -66,7 +66,7 @@ namespace sym {
   template<conststr N1, class ...VarArgs1, conststr N2, class ...VarArgs2,
 	   typename = typename enable_if_var_eq<Var<N1, VarArgs1...>, Var<N2, VarArgs2...> >::type>
   auto integrate(Var<N1, VarArgs1...>, Var<N2, VarArgs2...>)
-  { return C<1,2>() * pow<2>(Var<N1, VarArgs1...>()); }
+  { return C<1,2>() * pow(Var<N1, VarArgs1...>(), C<2>()); }
   
   /*! \brief Integration of \$x^n\$ by \$x\$.*/
   template<conststr N1, class ...VarArgs1, conststr N2, class ...VarArgs2, std::intmax_t Power,
-- 
2.43.0


From fc7566f66750b4d1b51106dc173b05f94e475378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:35 +0000
Subject: [PATCH 37/49] fix: the surface area of boxes was right in three
 dimensions only

---
 stator/geometry/box.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/stator/geometry/box.hpp b/stator/geometry/box.hpp
index eb8a627..cbb165e 100644
--- a/stator/geometry/box.hpp
+++ b/stator/geometry/box.hpp
@@ -64,9 +64,14 @@ namespace stator {
     Scalar area(const AABox<Scalar, D>& bb) {
       auto extent = bb.dimensions();
       Scalar measure = 0;
-      for (size_t i(0); i < D; ++i)
-        for (size_t j(i+1); j < D; ++j)
-          measure += extent[i] * extent[j];
+      //There are two faces normal to each axis
+      for (size_t i(0); i < D; ++i) {
+        Scalar face = 1;
+        for (size_t j(0); j < D; ++j)
+          if (j != i)
+            face *= extent[j];
+        measure += face;
+      }
       return 2 * measure;
     }
   } // namespace geometry
-- 
2.43.0


From b29326c46c982981115a938b493c6ea28fb18e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:35 +0000
Subject: [PATCH 38/49] fix: the surface area of a zero-dimensional ball was
 not a number

---
 stator/geometry/sphere.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/geometry/sphere.hpp b/stator/geometry/sphere.hpp
index 341f933..7c1d063 100644
--- a/stator/geometry/sphere.hpp
+++ b/stator/geometry/sphere.hpp
@@ -125,7 +125,7 @@ namespace stator {
     /*! \brief Calculate the surface area of a n-ball.*/
     template<typename Scalar, size_t D>
     Scalar area(const Ball<Scalar, D>& sphere) {
-      return area(detail::UnitBall<Scalar, D>()) * std::pow(sphere.radius(), D-1);
+      return (D == 0) ? Scalar(0) : area(detail::UnitBall<Scalar, D>()) * std::pow(sphere.radius(), D-1);
     }
   } // namespace geometry
 } // namespace stator
-- 
2.43.0


From bc73806c5ad0a93a828b56a45f686119e8b0d0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:35 +0000
Subject: [PATCH 39/49] fix: Plane::thickness did not compile

---
 stator/geometry/plane.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/geometry/plane.hpp b/stator/geometry/plane.hpp
index 9b46026..46d755c 100644
--- a/stator/geometry/plane.hpp
+++ b/stator/geometry/plane.hpp
@@ -68,7 +68,7 @@ namespace stator {
       
       const Vector<Scalar, D>& center() const { return center_; }
       const Vector<Scalar, D>& normal() const { return normal_; }
-      const Vector<Scalar, D>& thickness() const { return thickness_; }
+      const Scalar& thickness() const { return thickness_; }
 
       protected:
       Vector<Scalar, D> center_;
-- 
2.43.0


From 9098ca0e3ec9754b80f6b27c0c2f89441ee2f219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:35 +0000
Subject: [PATCH 40/49] fix: the default constructor of Point was ambiguous

---
 stator/geometry/point.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/geometry/point.hpp b/stator/geometry/point.hpp
index e11d3f8..989ae70 100644
--- a/stator/geometry/point.hpp
+++ b/stator/geometry/point.hpp
@@ -44,7 +44,7 @@ namespace stator {
       Point() {}
       
       /*! \brief RAII constructor. */
-      Point(const Vector<Scalar, D>& center = Vector<Scalar, D>::Zero().eval()): center_(center) {}
+      Point(const Vector<Scalar, D>& center): center_(center) {}
       
       /*! \brief Get function for the point's location. */
       const Vector<Scalar, D>& center() const { return center_; }
-- 
2.43.0


From ff120a25b7797f1aa7a57e8154f72062227d529e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:35 +0000
Subject: [PATCH 41/49] fix: the indicator functions did not compile

---
 stator/geometry/indicator.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stator/geometry/indicator.hpp b/stator/geometry/indicator.hpp
index b5d4af7..025a139 100644
--- a/stator/geometry/indicator.hpp
+++ b/stator/geometry/indicator.hpp
@@ -28,12 +28,12 @@
 
 namespace stator {
   namespace geometry {
-    using namespace stator::symbolic;
+    using namespace sym;
     
     /*! \brief Ball-Point indicator function.*/
     template<class Scalar, size_t D, class DeltaRijFunc>
     auto indicator(const Ball<Scalar, D>& bi,  const Point<Scalar, D>& bj, const DeltaRijFunc& deltarij) 
-    { return store(pow<2>(try_simplify(deltarij + bi.center() - bj.center())) - pow<2>(bi.radius())); }
+    { return store(pow(try_simplify(deltarij + bi.center() - bj.center()), C<2>()) - pow(bi.radius(), C<2>())); }
     
     /*! \brief Point-Ball indicator function.*/
     template<class Scalar, size_t D, class DeltaRijFunc>
@@ -43,13 +43,13 @@ namespace stator {
     /*! \brief Ball-Ball indicator function.*/
     template<class Scalar, size_t D, class DeltaRijFunc>
     auto indicator(const Ball<Scalar, D>& bi,  const Ball<Scalar, D>& bj, const DeltaRijFunc& deltarij)
-    { return store(pow<2>(try_simplify(deltarij + bi.center() - bj.center())) - pow<2>(bi.radius() + bj.radius())); }
+    { return store(pow(try_simplify(deltarij + bi.center() - bj.center()), C<2>()) - pow(bi.radius() + bj.radius(), C<2>())); }
       
 
     /*! \brief Ball-HalfSpace indicator function.*/
     template<class Scalar, size_t D, class DeltaRijFunc>
     auto indicator(const Ball<Scalar, D>& bi, const HalfSpace<Scalar, D>& bj, const DeltaRijFunc& deltarij)
-    { return store(try_simplify(dot(bj.normal(), deltarij + bi.center() - bj.center()) - bi.radius())); }
+    { return store(bj.normal().dot(try_simplify(deltarij + bi.center() - bj.center())) - bi.radius()); }
 
     /*! \brief HalfSpace-Ball indicator function.*/
     template<class Scalar, size_t D, class DeltaRijFunc>
-- 
2.43.0


From f9234e5606985f236ddd13e74a1a866d5daf3355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:29 +0000
Subject: [PATCH 42/49] fix: fractional powers of intervals were truncated to
 integer powers

---
 stator/symbolic/interval.hpp | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/stator/symbolic/interval.hpp b/stator/symbolic/interval.hpp
index addc9d2..edb152a 100644
--- a/stator/symbolic/interval.hpp
+++ b/stator/symbolic/interval.hpp
@@ -22,9 +22,45 @@
 #include <stator/symbolic/symbolic.hpp>
 #include <boost/numeric/interval.hpp>
 
+namespace boost { namespace numeric {
+  /*! \brief Interval raised to a floating point power.
+
+    Boost only has integer powers, so without this overload the
+    exponent is silently truncated to an integer.
+  */
+  template<class T, class Policies, class R,
+	   typename = typename std::enable_if<std::is_floating_point<T>::value && std::is_floating_point<R>::value>::type>
+  inline interval<T, Policies> pow(const interval<T, Policies>& x, R r)
+  {
+    if (std::trunc(r) == r && std::abs(r) <= std::numeric_limits<int>::max())
+      return pow(x, static_cast<int>(r));
+
+    //Other powers are only defined for x >= 0, where they are monotonic
+    if (!(x.upper() >= 0))
+      return interval<T, Policies>::empty();
+    T l = std::pow(std::max(x.lower(), T(0)), r), u = std::pow(x.upper(), r);
+    if (r < 0) std::swap(l, u);
+    const T inf = std::numeric_limits<T>::infinity();
+    return interval<T, Policies>(std::max(std::nextafter(l, -inf), T(0)), std::nextafter(u, inf));
+  }
+} }
+
 namespace sym {
   using boost::numeric::interval;
 
+  /*! \brief Interval raised to a compile-time rational power. */
+  template<class T, class Policies, std::intmax_t num, std::intmax_t den,
+	   typename = typename std::enable_if<(num != 1) || (den != 1)>::type>
+  inline auto pow(const interval<T, Policies>& x, const C<num, den>&)
+  {
+    if constexpr (den == 1)
+      return pow(x, static_cast<int>(num));
+    else if constexpr (den == 2)
+      return pow(boost::numeric::sqrt(x), static_cast<int>(num));
+    else
+      return pow(boost::numeric::nth_root(x, static_cast<int>(den)), static_cast<int>(num));
+  }
+
   template<class Config = DefaultReprConfig, class ...Args>
   inline std::string repr(const sym::interval<Args...>& f)
   {
-- 
2.43.0


From 1c6290949f03edf253509e97ae116b14a9df3995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:09 +0000
Subject: [PATCH 43/49] fix: intervals could not be combined with compile-time
 constants

---
 stator/symbolic/interval.hpp | 52 ++++++++++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/stator/symbolic/interval.hpp b/stator/symbolic/interval.hpp
index edb152a..1736236 100644
--- a/stator/symbolic/interval.hpp
+++ b/stator/symbolic/interval.hpp
@@ -61,6 +61,58 @@ namespace sym {
       return pow(boost::numeric::nth_root(x, static_cast<int>(den)), static_cast<int>(num));
   }
 
+  /*! \name Interval arithmetic with compile-time constants.
+
+    The constant is enclosed in an interval, as it may have no exact
+    floating point value (e.g. C<1,3>). Null and (for products) Unity
+    are handled by the general operators on constants.
+    \{
+  */
+  namespace detail {
+    template<class T, class Policies, std::intmax_t num, std::intmax_t den>
+    interval<T, Policies> as_interval(const C<num, den>&)
+    { return interval<T, Policies>(T(num)) / interval<T, Policies>(T(den)); }
+  }
+
+  template<class T, class Policies, std::intmax_t num, std::intmax_t den,
+	   typename = typename std::enable_if<(num != 0)>::type>
+  auto operator+(const C<num, den>& l, const interval<T, Policies>& r)
+  { return detail::as_interval<T, Policies>(l) + r; }
+
+  template<class T, class Policies, std::intmax_t num, std::intmax_t den,
+	   typename = typename std::enable_if<(num != 0)>::type>
+  auto operator+(const interval<T, Policies>& l, const C<num, den>& r)
+  { return l + detail::as_interval<T, Policies>(r); }
+
+  template<class T, class Policies, std::intmax_t num, std::intmax_t den,
+	   typename = typename std::enable_if<(num != 0)>::type>
+  auto operator-(const C<num, den>& l, const interval<T, Policies>& r)
+  { return detail::as_interval<T, Policies>(l) - r; }
+
+  template<class T, class Policies, std::intmax_t num, std::intmax_t den,
+	   typename = typename std::enable_if<(num != 0)>::type>
+  auto operator-(const interval<T, Policies>& l, const C<num, den>& r)
+  { return l - detail::as_interval<T, Policies>(r); }
+
+  template<class T, class Policies, std::intmax_t num, std::intmax_t den,
+	   typename = typename std::enable_if<(num != 0) && ((num != 1) || (den != 1))>::type>
+  auto operator*(const C<num, den>& l, const interval<T, Policies>& r)
+  { return detail::as_interval<T, Policies>(l) * r; }
+
+  template<class T, class Policies, std::intmax_t num, std::intmax_t den,
+	   typename = typename std::enable_if<(num != 0) && ((num != 1) || (den != 1))>::type>
+  auto operator*(const interval<T, Policies>& l, const C<num, den>& r)
+  { return l * detail::as_interval<T, Policies>(r); }
+
+  template<class T, class Policies, std::intmax_t num, std::intmax_t den>
+  auto operator/(const C<num, den>& l, const interval<T, Policies>& r)
+  { return detail::as_interval<T, Policies>(l) / r; }
+
+  template<class T, class Policies, std::intmax_t num, std::intmax_t den>
+  auto operator/(const interval<T, Policies>& l, const C<num, den>& r)
+  { return l / detail::as_interval<T, Policies>(r); }
+  /*! \} */
+
   template<class Config = DefaultReprConfig, class ...Args>
   inline std::string repr(const sym::interval<Args...>& f)
   {
-- 
2.43.0


From 21f9f6b179413510ac50e64e3c68956e3f4ef00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:13 +0000
Subject: [PATCH 44/49] fix: LinBairstowSolve ignored its starting point on a
 zero leading coefficient

---
 stator/symbolic/polynomial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index 69961e0..669d644 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -1698,7 +1698,7 @@ namespace sym {
   LinBairstowSolve(Polynomial<Order, Coeff_t, PolyVar1> f, Coeff_t tolerance, Polynomial<2, Coeff_t, PolyVar2> guess = {0,0,1}) {
     
     if (f[Order] == Coeff_t()) 
-	return LinBairstowSolve(change_order<Order-1>(f), tolerance);
+	return LinBairstowSolve(change_order<Order-1>(f), tolerance, guess);
 
     Eigen::Matrix<Coeff_t, 2, 1> dGuess{0, 0};
     //Now loop solving for the quadratic guess
-- 
2.43.0


From 51cc3e4f04e764d8a5b4c749faf0a5927fc1f69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:23 +0000
Subject: [PATCH 45/49] fix: paths of XML nodes counted siblings of other names

---
 stator/xml.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/xml.hpp b/stator/xml.hpp
index c321704..a05f4dc 100644
--- a/stator/xml.hpp
+++ b/stator/xml.hpp
@@ -44,7 +44,7 @@ namespace stator {
 	    if (_node->parent())
 	      {
 		rapidxml::xml_node<>* sibling = _node->previous_sibling(_node->name(), _node->name_size());
-		while (sibling) { sibling = sibling->previous_sibling(); ++index; }
+		while (sibling) { sibling = sibling->previous_sibling(_node->name(), _node->name_size()); ++index; }
 		//Set the index to -1 if this is the only node with its name (it has no siblings)
 		if ((index == 0) && !(_node->next_sibling(_node->name(), _node->name_size())))
 		  index = -1;
-- 
2.43.0


From 9391d22332f6c42d522b2a3424133a04b5c90bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:23 +0000
Subject: [PATCH 46/49] fix: appending to the value of a parsed XML node took
 the rest of the document along

---
 stator/xml.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/stator/xml.hpp b/stator/xml.hpp
index a05f4dc..92a115c 100644
--- a/stator/xml.hpp
+++ b/stator/xml.hpp
@@ -336,10 +336,8 @@ namespace stator {
 	if (_node->value_size() == 0)
 	  return *this = value;
 	
-	value = _node->value() + value;
-	char* value_str = _node->document()->allocate_string(value.c_str());
-	_node->value(value_str);
-	return *this;
+	//The value is not null terminated if it was parsed from a file
+	return *this = getValue() + value;
       }
       
       void print(std::ostream& os) const {
-- 
2.43.0


From e6bdbf8309cf6f0241e9f8ca67f0c901f626d883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:23 +0000
Subject: [PATCH 47/49] fix: XML errors at the end of a line were reported as a
 length_error

---
 stator/xml.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/stator/xml.hpp b/stator/xml.hpp
index 92a115c..0aa212e 100644
--- a/stator/xml.hpp
+++ b/stator/xml.hpp
@@ -441,11 +441,8 @@ namespace stator {
 
 	    //Determine the start of the error line
 	    const char* error_line_start = error_loc_ptr;
-	    while ((*error_line_start != '\n') && (error_line_start != _data.data()))
+	    while ((error_line_start != _data.data()) && (*(error_line_start - 1) != '\n'))
 	      --error_line_start;
-	    //Move past the newline
-	    if (error_line_start != _data.data())
-		++error_line_start;
 	    //Determine the end of the error line
 	    const char* error_line_end = error_loc_ptr;
 	    while ((*error_line_end != '\n') && (error_line_end != (_data.data()+_data.size())))
-- 
2.43.0


From 41c467c6b73679a1e42da9a6a02cda186ae5f3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:23 +0000
Subject: [PATCH 48/49] fix: a value assigned to a parsed XML node was not
 printed

---
 stator/xml.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stator/xml.hpp b/stator/xml.hpp
index 0aa212e..3bfdf5e 100644
--- a/stator/xml.hpp
+++ b/stator/xml.hpp
@@ -329,6 +329,13 @@ namespace stator {
       inline Node operator=(const std::string value) {
 	char* value_str = _node->document()->allocate_string(value.c_str());
 	_node->value(value_str);
+	//The text of a parsed node is also held in a data node, which is what is printed
+	for (rapidxml::xml_node<>* child = _node->first_node(); child; child = child->next_sibling())
+	  if (child->type() == rapidxml::node_data)
+	    {
+	      child->value(value_str);
+	      break;
+	    }
 	return *this;
       }
 
-- 
2.43.0


From 4ccf63c38a9fa512169f6036cb42df5510d46214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:23 +0000
Subject: [PATCH 49/49] fix: text streamed into a copied Exception overwrote
 its message

---
 stator/exception.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/exception.hpp b/stator/exception.hpp
index 0482918..f291319 100644
--- a/stator/exception.hpp
+++ b/stator/exception.hpp
@@ -83,7 +83,7 @@ namespace stator {
       Please catch exceptions by reference, they should not be copied
       except at the throw site.
     */
-    Exception(const Exception& e) : message_(e.message_.str()), messageStr_() {
+    Exception(const Exception& e) : message_(e.message_.str(), std::ios_base::out | std::ios_base::ate), messageStr_() {
     }
 
     inline ~Exception() throw() {}
-- 
2.43.0

