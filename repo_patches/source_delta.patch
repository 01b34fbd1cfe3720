From 7557621ebb6e0a58af490a3071fc8ccbb1107f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:48 +0000
Subject: [PATCH 01/50] fix: sign after an operator must not capture weaker
 operators when parsing

---
 stator/symbolic/parser.hpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/stator/symbolic/parser.hpp b/stator/symbolic/parser.hpp
index ac07540..843ae06 100644
--- a/stator/symbolic/parser.hpp
+++ b/stator/symbolic/parser.hpp
@@ -303,8 +303,12 @@ namespace sym
 				virtual ~LeftOperatorBase() {}
 
 				/*! \brief Takes one operand and returns the corresponding Expr.
+
+	    The minLBP argument is the minimum binding power of the
+	    expression this operator appears in, thus the operator
+	    must not collect operators which bind more weakly.
 	*/
-				virtual Expr apply(ExprTokenizer &) const = 0;
+				virtual Expr apply(ExprTokenizer &, int minLBP) const = 0;
 				/*! \brief Binding power to the right arguments of the Token*/
 				virtual int BP() const = 0;
 			};
@@ -338,7 +342,7 @@ namespace sym
 
 			struct ParenthesisToken : public LeftOperatorBase
 			{
-				Expr apply(ExprTokenizer &tk) const
+				Expr apply(ExprTokenizer &tk, int) const
 				{
 					Expr arg = tk.parseExpression(BP());
 					tk.expect(")");
@@ -354,7 +358,7 @@ namespace sym
 
 			struct ArrayToken : public LeftOperatorBase
 			{
-				Expr apply(ExprTokenizer &tk) const
+				Expr apply(ExprTokenizer &tk, int) const
 				{
 					auto a = ArrayRT::create();
 
@@ -386,7 +390,7 @@ namespace sym
 
 			struct DictToken : public LeftOperatorBase
 			{
-				Expr apply(ExprTokenizer &tk) const
+				Expr apply(ExprTokenizer &tk, int) const
 				{
 					auto a_ptr = DictRT::create();
 					auto &a = *a_ptr;
@@ -424,7 +428,7 @@ namespace sym
 			template <class Op>
 			struct UnaryOpToken : LeftOperatorBase
 			{
-				Expr apply(ExprTokenizer &tk) const
+				Expr apply(ExprTokenizer &tk, int) const
 				{
 					return Op::apply(tk.parseExpression(BP()));
 				}
@@ -438,9 +442,9 @@ namespace sym
 			template <int tBP>
 			struct SkipToken : public LeftOperatorBase
 			{
-				Expr apply(ExprTokenizer &tk) const
+				Expr apply(ExprTokenizer &tk, int minLBP) const
 				{
-					return tk.parseExpression(BP());
+					return tk.parseExpression(std::max(BP(), minLBP));
 				}
 
 				int BP() const
@@ -461,10 +465,10 @@ namespace sym
 					}
 				};
 
-				Expr apply(ExprTokenizer &tk) const
+				Expr apply(ExprTokenizer &tk, int minLBP) const
 				{
 					Visitor v;
-					return tk.parseExpression(BP())->visit(v);
+					return tk.parseExpression(std::max(BP(), minLBP))->visit(v);
 				}
 
 				int BP() const
@@ -479,7 +483,7 @@ namespace sym
 			/*!\brief Parses a single token (unary/prefix op, variable, or
          number), where precedence issues do not arise.
        */
-			Expr parseToken()
+			Expr parseToken(int minLBP = 0)
 			{
 				std::string token = next();
 				consume();
@@ -502,7 +506,7 @@ namespace sym
 				auto it = _left_operators.find(token);
 				if (it != _left_operators.end())
 				{
-					return it->second->apply(*this);
+					return it->second->apply(*this, minLBP);
 				}
 
 				//Its not a prefix operator or a number, if it is a single
@@ -566,7 +570,7 @@ namespace sym
 				//multi arg operator (which are handled in this
 				//function). Unary/prefix operators are handled directly by
 				//parseToken()
-				Expr t = parseToken();
+				Expr t = parseToken(minLBP);
 
 				//maxLBP is only allowed to decrease as it ensures the while
 				//loop climbs down the precedence tree (up the AST) to the
-- 
2.43.0


From db4f7810ba27cc52f22d6f71bca6041c1ac8e02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 02/50] fix: print the parentheses needed by chained
 powers/equalities and negative bases

---
 stator/symbolic/binary_ops.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stator/symbolic/binary_ops.hpp b/stator/symbolic/binary_ops.hpp
index 753e2d9..4a01d95 100644
--- a/stator/symbolic/binary_ops.hpp
+++ b/stator/symbolic/binary_ops.hpp
@@ -452,7 +452,11 @@ namespace sym {
     const auto RHS_BP  = BP(op._r);
 
     std::string LHS_repr = repr<Config>(op._l);
-    if (LHS_BP.second < this_BP.first || Config::Force_parenthesis)
+    //A right-associative operator cannot have an unwrapped LHS of the same precedence
+    const bool LHS_ambiguous = (Op::associativity == detail::Associativity::RIGHT) && (LHS_BP.second == this_BP.first);
+    //The sign of a negative constant is read as a negation, which these operators out-bind
+    const bool LHS_sign_lost = (Op::leftBindingPower > detail::Multiply::leftBindingPower) && (LHS_repr[0] == '-');
+    if (LHS_BP.second < this_BP.first || LHS_ambiguous || LHS_sign_lost || Config::Force_parenthesis)
       LHS_repr = detail::paren_wrap<Config>(LHS_repr);
 
     std::string RHS_repr = repr<Config>(op._r);
-- 
2.43.0


From 9d9ecb13651f340708abe26c6ff3b654dd8ed4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 03/50] fix: unbalanced brace in the LaTeX output of logarithms

---
 stator/symbolic/unary_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/unary_ops.hpp b/stator/symbolic/unary_ops.hpp
index a0ef12e..b02724e 100644
--- a/stator/symbolic/unary_ops.hpp
+++ b/stator/symbolic/unary_ops.hpp
@@ -77,7 +77,7 @@ namespace sym {
       static inline std::string l_repr()       { return "ln "; }
       static inline std::string r_repr()       { return ""; }
       static inline std::string l_latex_repr() { return "\\ln "; }
-      static inline std::string r_latex_repr() { return "}"; }
+      static inline std::string r_latex_repr() { return ""; }
       static constexpr int type_index = 4;
     };
 
-- 
2.43.0


From ea320c7051e9fdda5855ae5c8c318caa406a2998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:39 +0000
Subject: [PATCH 04/50] fix: infinite recursion simplifying an array raised to
 an array

---
 stator/symbolic/runtime.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/stator/symbolic/runtime.hpp b/stator/symbolic/runtime.hpp
index c2d9263..638d7c8 100644
--- a/stator/symbolic/runtime.hpp
+++ b/stator/symbolic/runtime.hpp
@@ -638,11 +638,13 @@ namespace sym
       Expr dd_visit(const ArrayRT &l, const ArrayRT &r, Op)
       {
         //First carry out the operation, but preserve the type information
-        auto res_ptr = Op::apply(l, r);
+        Expr res(store(Op::apply(l, r)));
+        //Operators without an element-wise implementation (e.g. Power)
+        //just create the operation again, so there is nothing further to do.
+        if (!dynamic_cast<const ArrayRT *>(res.get()))
+          return res;
         //Then apply the ArrayRT simplify to continue the simplification/computation of arguments
-        Expr res2 = simplify(*res_ptr);
-        //Then return the general expression
-        return res2;
+        return simplify(res);
       }
 
       template <class T1, class T2>
-- 
2.43.0


From ac291d4036aae10b4d3bfebc9739301c0d8488d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 05/50] fix: infinite recursion printing an operation on a
 dictionary

---
 stator/symbolic/dict.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stator/symbolic/dict.hpp b/stator/symbolic/dict.hpp
index aa79cb8..9782f2a 100644
--- a/stator/symbolic/dict.hpp
+++ b/stator/symbolic/dict.hpp
@@ -89,6 +89,11 @@ namespace sym {
     return out_ptr;
   }
 
+  /*! \brief Dictionaries are wrapped, so give infinite binding powers. */
+  template<typename Key, typename Value>
+  std::pair<int, int> BP(const Dict<Key, Value>&)
+  { return std::make_pair(std::numeric_limits<int>::max(), std::numeric_limits<int>::max()); }
+
   template<class Config = DefaultReprConfig, typename ...Args>
   inline std::string repr(const Dict<Args...>& f)
   {
-- 
2.43.0


From e6cf799e04d89df4ef841a613dedde0a90e83daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 06/50] fix: units lost when a quantity is multiplied from the
 left

---
 stator/symbolic/units.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/units.hpp b/stator/symbolic/units.hpp
index f13ea43..4ced645 100644
--- a/stator/symbolic/units.hpp
+++ b/stator/symbolic/units.hpp
@@ -100,7 +100,7 @@ namespace sym
   template <class RLHS, class RRHS, class LHS>
   auto multiply_impl(const LHS &l, const UnitsOp<RLHS, RRHS> &r, detail::choice<1>)
   {
-    return units(l * r._l, r._l);
+    return units(l * r._l, r._r);
   }
 
   template <class LLHS, class LRHS, class RLHS, class RRHS>
-- 
2.43.0


From ef3097eeab0bc735e4959eafd0ab2d1f4879e1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 07/50] fix: equal dictionaries could have different hashes

---
 stator/symbolic/dict.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stator/symbolic/dict.hpp b/stator/symbolic/dict.hpp
index 9782f2a..c9de756 100644
--- a/stator/symbolic/dict.hpp
+++ b/stator/symbolic/dict.hpp
@@ -117,9 +117,13 @@ namespace std
     std::size_t operator()(sym::Dict<Key, Value> const& v) const noexcept
     {
       std::size_t seed = 16;
+      //Equal dictionaries may iterate in different orders, so the
+      //items are combined in an order-independent way.
       for (const auto& item : v) {
-	stator::hash_combine(seed, std::hash<typename std::decay<decltype(item.first)>::type>{}(item.first));
-	stator::hash_combine(seed, std::hash<typename std::decay<decltype(item.second)>::type>{}(item.second));
+	std::size_t item_seed = 16;
+	stator::hash_combine(item_seed, std::hash<typename std::decay<decltype(item.first)>::type>{}(item.first));
+	stator::hash_combine(item_seed, std::hash<typename std::decay<decltype(item.second)>::type>{}(item.second));
+	seed += item_seed;
       }
       return seed;
     }
-- 
2.43.0


From aea1d42973791ae1cce0e3e6d7645dfa6eee1fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 08/50] fix: infinite recursion taking the derivative of units,
 uncertainties and dictionaries

---
 stator/symbolic/dict.hpp    | 11 +++++++++++
 stator/symbolic/runtime.hpp |  6 ++++++
 stator/symbolic/units.hpp   |  9 +++++++++
 3 files changed, 26 insertions(+)

diff --git a/stator/symbolic/dict.hpp b/stator/symbolic/dict.hpp
index c9de756..502318d 100644
--- a/stator/symbolic/dict.hpp
+++ b/stator/symbolic/dict.hpp
@@ -89,6 +89,17 @@ namespace sym {
     return out_ptr;
   }
 
+  /*! \brief Derivatives of dictionaries are taken value by value. */
+  template<typename Key, typename Value, typename Var>
+  auto derivative(const Dict<Key, Value>& in, const Var& x) {
+    auto out_ptr = Dict<Key, decltype(store(derivative(in.begin()->second, x)))>::create();
+    auto& out = sym::detail::unwrap(out_ptr);
+
+    for (const auto& p : in)
+      out[p.first] = derivative(p.second, x);
+    return out_ptr;
+  }
+
   /*! \brief Dictionaries are wrapped, so give infinite binding powers. */
   template<typename Key, typename Value>
   std::pair<int, int> BP(const Dict<Key, Value>&)
diff --git a/stator/symbolic/runtime.hpp b/stator/symbolic/runtime.hpp
index 638d7c8..ff8e857 100644
--- a/stator/symbolic/runtime.hpp
+++ b/stator/symbolic/runtime.hpp
@@ -970,6 +970,12 @@ namespace sym
         return Expr(derivative(v, _var));
       }
 
+      //The derivative of an uncertain value is not defined
+      Expr apply(const BinaryOp<Expr, detail::Uncertainty, Expr> &op)
+      {
+        stator_throw() << "derivative cannot operate on this (" << repr(op) << ") expression";
+      }
+
       const VarRT &_var;
     };
   }
diff --git a/stator/symbolic/units.hpp b/stator/symbolic/units.hpp
index 4ced645..5397c96 100644
--- a/stator/symbolic/units.hpp
+++ b/stator/symbolic/units.hpp
@@ -108,4 +108,13 @@ namespace sym
   {
     return units(l._l / r._l, l._r / r._r);
   }
+
+  /*! \brief Derivatives of a quantity with units, the units are
+    preserved.
+   */
+  template <class Var, class LHS, class RHS>
+  auto derivative(const UnitsOp<LHS, RHS> &f, const Var &v)
+  {
+    return units(derivative(f._l, v), f._r);
+  }
 }
\ No newline at end of file
-- 
2.43.0


From 2e15d6036eaa5ffa05ffeefbcbb1817f90cc767c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 09/50] fix: substitution skipped the values of dictionaries

---
 stator/symbolic/runtime.hpp | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/stator/symbolic/runtime.hpp b/stator/symbolic/runtime.hpp
index ff8e857..a78dee6 100644
--- a/stator/symbolic/runtime.hpp
+++ b/stator/symbolic/runtime.hpp
@@ -728,6 +728,27 @@ namespace sym
 
   namespace detail
   {
+    /*! \brief Apply a substitution visitor to the values of a
+      dictionary, returning an empty Expr if nothing was substituted.
+     */
+    template <class Visitor>
+    Expr substitute_dict_values(const DictRT &v, Visitor &visitor)
+    {
+      auto ret_ptr = DictRT::create();
+      auto &ret = *ret_ptr;
+      bool _replaced = false;
+
+      for (const auto &p : v)
+      {
+        Expr t = p.second->visit(visitor);
+        if (t)
+          _replaced = true;
+        ret[p.first] = (t) ? t : p.second;
+      }
+
+      return (_replaced) ? Expr(ret_ptr) : Expr();
+    }
+
     struct SubstituteRT : VisitorHelper<SubstituteRT>
     {
       SubstituteRT(const VarRT &var, Expr replacement) : _var(var), _replacement(replacement) {}
@@ -747,6 +768,12 @@ namespace sym
         return Expr();
       }
 
+      //Substitution in the values of a dictionary
+      Expr apply(const DictRT &v)
+      {
+        return substitute_dict_values(v, *this);
+      }
+
       //Variable matching
       Expr apply(const ArrayRT &v)
       {
@@ -839,6 +866,12 @@ namespace sym
         return Expr();
       }
 
+      //Substitution in the values of a dictionary
+      Expr apply(const DictRT &v)
+      {
+        return substitute_dict_values(v, *this);
+      }
+
       //Variable matching
       Expr apply(const ArrayRT &v)
       {
-- 
2.43.0


From c372e8b243bf87c1b1f335df0781216d3bf7df8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:47 +0000
Subject: [PATCH 10/50] fix: limit of a polynomial with vanishing leading
 coefficients at infinity

The sign of the limit was taken from the parity of the nominal order and
not from the parity of the highest non-zero term.
---
 stator/symbolic/polynomial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index 837c3a6..739812d 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -242,7 +242,7 @@ namespace sym {
 	for(size_t i = Order; i > 0; --i)
 	  if (f[i] != empty_sum(f[0])) {
 	    //Determine if this is an odd or even function of x
-	    if (Order % 2)
+	    if (i % 2)
 	      //This is an odd function of x, the sign of x matters
 	      return f[i] * x;
 	    else
-- 
2.43.0


From 301beda3a5b8f3b090c1a5777566d8c4beeb6f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:01 +0000
Subject: [PATCH 11/50] fix: root at zero lost by the generic polynomial solver

---
 stator/symbolic/polynomial.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index 739812d..3b3c10e 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -1869,8 +1869,16 @@ namespace sym {
   solve_real_roots(const Polynomial<Order, Coeff_t, PolyVar>& f) {
     //Handle special cases 
     //The constant coefficient is zero: deflate the polynomial
-    if (f[0] == Coeff_t())
-	return solve_real_roots(deflate_polynomial(f, Null()));
+    if (f[0] == Coeff_t()) {
+	StackVector<Coeff_t, Order> roots = solve_real_roots(deflate_polynomial(f, Null()));
+	//Zero is a root too, unless it is a multiple root and has
+	//already been found.
+	if (std::find(roots.begin(), roots.end(), Coeff_t()) == roots.end()) {
+	  roots.push_back(Coeff_t());
+	  std::sort(roots.begin(), roots.end());
+	}
+	return roots;
+    }
     
     //The highest order coefficient is zero: drop to lower order
     //solvers
-- 
2.43.0


From da4182985235f007cb348a4b27473c445d1f3d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:05 +0000
Subject: [PATCH 12/50] fix: out of bounds access deflating a linear polynomial

---
 stator/symbolic/polynomial.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index 3b3c10e..eab3037 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -711,6 +711,13 @@ namespace sym {
     b[Order-1] = a[Order];
     b[0] = - a[0] / root;
 
+    //With a single coefficient there is nothing left to determine
+    //(and Order-2 would wrap around)
+    if (Order < 2) {
+	b[0] = a[Order];
+	return b;
+    }
+
     size_t i_t = Order-2;
     size_t i_b = 1;
     while (i_t >= i_b) {
-- 
2.43.0


From 07eabdc60d11cf242e53fb65c60659043e6f103d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:28 +0000
Subject: [PATCH 13/50] fix: evaluation error estimate negative for negative
 constant terms

---
 stator/symbolic/polynomial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index eab3037..9f815c4 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -633,7 +633,7 @@ namespace sym {
     const int mantissa_digits = std::numeric_limits<Coeff_t>::digits;
     const Coeff_t eps = 1.06 / std::pow(2, mantissa_digits);
 
-    Coeff_t sum = f[0];
+    Coeff_t sum = std::abs(f[0]);
     Coeff_t2 xn = std::abs(x);
     for(size_t i = 1; i <= Order; ++i) {
 	sum += (2 * i + 1) * std::abs(f[i]) * xn;
-- 
2.43.0


From f06cd4fc1cc693d357d3267c51153e23550aa3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 14/50] fix: surface area of boxes which are not three
 dimensional

---
 stator/geometry/box.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/stator/geometry/box.hpp b/stator/geometry/box.hpp
index eb8a627..6b85051 100644
--- a/stator/geometry/box.hpp
+++ b/stator/geometry/box.hpp
@@ -64,9 +64,14 @@ namespace stator {
     Scalar area(const AABox<Scalar, D>& bb) {
       auto extent = bb.dimensions();
       Scalar measure = 0;
-      for (size_t i(0); i < D; ++i)
-        for (size_t j(i+1); j < D; ++j)
-          measure += extent[i] * extent[j];
+      //Each pair of opposite faces spans all dimensions but one
+      for (size_t i(0); i < D; ++i) {
+        Scalar face = 1;
+        for (size_t j(0); j < D; ++j)
+          if (j != i)
+            face *= extent[j];
+        measure += face;
+      }
       return 2 * measure;
     }
   } // namespace geometry
-- 
2.43.0


From fdfe0867366dc3b42df6d1eb37c860fdb2e1aac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:41 +0000
Subject: [PATCH 15/50] fix: NaN derivatives of integer powers where the base
 vanishes

---
 stator/symbolic/ad.hpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/stator/symbolic/ad.hpp b/stator/symbolic/ad.hpp
index 1c65049..3514dd5 100644
--- a/stator/symbolic/ad.hpp
+++ b/stator/symbolic/ad.hpp
@@ -166,7 +166,27 @@ namespace sym {
       Eigen::Matrix<double, Nd+1,1> result = Eigen::Matrix<double, Nd+1,1>::Zero();
     
       result[0] = std::pow(g[0], a);
-    
+
+      if ((g[0] == 0) && (a >= 0) && (a == std::floor(a))) {
+	//The recurrence below divides by g[0], but non-negative
+	//integer powers of a vanishing series are just products. As
+	//g[0]=0, all coefficients are zero once the power exceeds Nd.
+	if (a > Nd)
+	  return result;
+	for (size_t n(0); n < size_t(a); ++n) {
+	  //Multiply the series by g, starting from unity
+	  Eigen::Matrix<double, Nd+1,1> product = Eigen::Matrix<double, Nd+1,1>::Zero();
+	  if (n == 0)
+	    product = g;
+	  else
+	    for (size_t k(0); k < Nd+1; ++k)
+	      for (size_t i(0); i <= k; ++i)
+		product[k] += g[i] * result[k - i];
+	  result = product;
+	}
+	return result;
+      }
+
       for (size_t k(1); k < Nd+1; ++k) {
 	for (size_t i(1); i <= k; ++i)
 	  result[k] += ((a + 1) * i / k - 1) * g[i] * result[k - i];
-- 
2.43.0


From 7e2023459837126d9d13c462f8ec8d09f42e886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 16/50] fix: sign of the sine of odd multiples of half pi

---
 stator/symbolic/constants.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stator/symbolic/constants.hpp b/stator/symbolic/constants.hpp
index ca8a954..80a68da 100644
--- a/stator/symbolic/constants.hpp
+++ b/stator/symbolic/constants.hpp
@@ -183,7 +183,12 @@ namespace sym {
 
   template<std::intmax_t num, std::intmax_t den,
 	   typename = typename std::enable_if<is_whole_factor<std::ratio<num, den>, pi, decltype(pi() / C<2>())>::value>::type>
-  constexpr Unity sin_Cimpl(const C<num, den>& a, detail::choice<0>) { return {}; }
+  constexpr auto sin_Cimpl(const C<num, den>& a, detail::choice<0>) {
+    //The sign alternates: sin((n + 1/2) * pi) = (-1)^n
+    typedef decltype(pi() / C<2>()) half_pi;
+    typedef std::ratio_divide<std::ratio_subtract<std::ratio<num, den>, std::ratio<half_pi::num, half_pi::den> >, std::ratio<pi::num, pi::den> > n;
+    return C<(n::num % 2) ? -1 : 1, 1>();
+  }
 
   template<std::intmax_t num, std::intmax_t den,
 	   typename = typename std::enable_if<is_whole_factor<std::ratio<num, den>, pi>::value>::type>
-- 
2.43.0


From 93ff6b33b41048f565522efcebb6e6edd1c0c621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 17/50] fix: operands of reflected subtraction and division
 swapped in Python

---
 pysrc/stator/core.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pysrc/stator/core.cpp b/pysrc/stator/core.cpp
index c2a9a35..40276a0 100644
--- a/pysrc/stator/core.cpp
+++ b/pysrc/stator/core.cpp
@@ -77,13 +77,13 @@ PYBIND11_MODULE(core, m)
     .def("__add__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l+r); })
     .def("__radd__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l+r); })
     .def("__sub__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l-r); })
-    .def("__rsub__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l-r); })
+    .def("__rsub__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(r-l); })
     .def("__mul__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l*r); })
     .def("__rmul__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l*r); })
     .def("__div__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l/r); })
-    .def("__rdiv__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l/r); })
+    .def("__rdiv__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(r/l); })
     .def("__truediv__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l/r); })
-    .def("__rtruediv__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l/r); })
+    .def("__rtruediv__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(r/l); })
     .def("__eq__", +[](const sym::Expr& l, const sym::Expr& r) { return l == r; })
     .def(py::hash(py::self))
     .def("equal", +[](const sym::Expr& l, const sym::Expr& r) { return equality(l, r); })
-- 
2.43.0


From b2653a6b618f5cd4499041f87cb2a0d335a0399f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:39 +0000
Subject: [PATCH 18/50] fix: endless root search once an iterate or the
 function is NaN

---
 stator/symbolic/numeric.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stator/symbolic/numeric.hpp b/stator/symbolic/numeric.hpp
index 3484956..4a7b6f9 100644
--- a/stator/symbolic/numeric.hpp
+++ b/stator/symbolic/numeric.hpp
@@ -37,9 +37,9 @@ namespace stator {
 	//std::cout << "new_x = " << new_x << std::endl;
 	//std::cout << "[" << low_bound << "," << high_bound << "]" << std::endl;
 
-	if ((new_x >= high_bound) || (new_x <= low_bound)) {
+	if (!((new_x < high_bound) && (new_x > low_bound))) {
 	  //std::cout << "Out of bounds" << std::endl;
-	  //Out of bounds step, failed!
+	  //Out of bounds (or NaN) step, failed!
 	  return 0;
 	}
 	
@@ -49,7 +49,7 @@ namespace stator {
 	//Check for convergence
 	Real delta = new_x - x;
 
-	if ((std::abs(delta) < std::abs(x_precision * new_x)) || (new_state[0] == Real(0))) {
+	if (((std::abs(delta) < std::abs(x_precision * new_x)) && !std::isnan(new_state[0])) || (new_state[0] == Real(0))) {
 	  //std::cout << "Converged" << std::endl;
 	  //We've converged
 	  x = new_x;
@@ -58,9 +58,9 @@ namespace stator {
 	}
 	
 	//Check if the function has increased
-	if (std::abs(new_state[0]) > std::abs(curr_state[0])) {
+	if (!(std::abs(new_state[0]) <= std::abs(curr_state[0]))) {
 	  //std::cout << "Function increased!" << std::endl;
-	  //The function increased! method has failed
+	  //The function increased (or is NaN)! method has failed
 	  return 0;
 	}
 
-- 
2.43.0


From fb9b92eb7eee9a967f2de2c6af39825f52f7d44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 19/50] fix: bisection steps claiming convergence far from any
 root

---
 stator/symbolic/numeric.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stator/symbolic/numeric.hpp b/stator/symbolic/numeric.hpp
index 4a7b6f9..3b9ebc6 100644
--- a/stator/symbolic/numeric.hpp
+++ b/stator/symbolic/numeric.hpp
@@ -167,7 +167,10 @@ namespace stator {
 
       //std::cout << "new_x = " << x_mid << std::endl;
 
-      Real delta = x_mid - x;
+      //The root is within this distance of x_mid. The distance to x
+      //is no measure of convergence, x may come from another method
+      //and just happen to lie near the mid point.
+      Real delta = x_mid - low_bound;
       
       if (//Check if the precision has been reached
 	  (std::abs(delta) < std::abs(x_precision * x_mid))
-- 
2.43.0


From c513da3f44dd68d1c3bd9b5fde24f71397c8ff75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:24 +0000
Subject: [PATCH 20/50] fix: roots lying on the dividing points of the VCA and
 VAS methods

VCA lost such roots, and both methods threw an exception if another root
was on (or within rounding of) a bound of the bisected interval.
---
 stator/symbolic/polynomial.hpp | 38 +++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index 9f815c4..025ae10 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -1390,7 +1390,17 @@ namespace sym {
 	//p2(x) = 2^Order f(x/2 + 0.5) 
 	//
 	//in terms of the original function, f(x).
-	const Polynomial<Order, Coeff_t, PolyVar> p2 = shift_function(p1, Unity());
+	Polynomial<Order, Coeff_t, PolyVar> p2 = shift_function(p1, Unity());
+
+	//A root on the dividing point (to within the precision of the
+	//evaluation) lies in neither of the open halves. It is a bound
+	//by itself, and is divided out to not confuse the search of
+	//the halves.
+	const bool root_at_division = std::abs(p2[0]) <= 100 * precision(p1, Coeff_t(1));
+	if (root_at_division) {
+	  p1 = deflate_polynomial(p1, 1.0);
+	  p2 = shift_function(p1, Unity());
+	}
 
 	//Now that we have two scaled and shifted polynomials where
 	//the roots in f in the range x=[0,0.5] are in p1 over the
@@ -1405,6 +1415,9 @@ namespace sym {
 	  root_bound.second /= 2;
 	}
 
+	if (root_at_division)
+	  retval.push_back(std::make_pair(Coeff_t(0.5), Coeff_t(0.5)));
+
 	auto second_range = VCA_real_root_bounds_worker(p2);
 	//Scale these roots back to the original mapping
 	for (auto& root_bound : second_range)
@@ -1847,8 +1860,27 @@ namespace sym {
 	switch(BisectionMode) {
 	case PolyRootBisector::BISECTION: 
 	  {
-	    Coeff_t root;
-	    bool result = stator::numeric::bisection(f_bisection, root, a, b);
+	    Coeff_t root = a;
+	    //Roots on a dividing point have identical bounds
+	    bool result = (a == b);
+	    if (!result && (f_bisection(a) != 0) && (f_bisection(b) != 0))
+	      result = stator::numeric::bisection(f_bisection, root, a, b);
+
+	    auto is_root = [&](Coeff_t x) { return std::abs(f_bisection(x)) <= 100 * precision(f, x); };
+	    if (!result) {
+	      //There is no sign change if another root lies on one of
+	      //the bounds, unless it is divided out.
+	      Polynomial<Order, Coeff_t, PolyVar> g(f);
+	      if (is_root(a)) g = deflate_polynomial(g, a);
+	      if (is_root(b)) g = deflate_polynomial(g, b);
+	      result = stator::numeric::bisection([&](Coeff_t x) { return sub(g, PolyVar() = x); }, root, a, b);
+	    }
+	    if (!result) {
+	      //Otherwise, rounding has placed the root on the wrong
+	      //side of its bound.
+	      root = (std::abs(f_bisection(a)) < std::abs(f_bisection(b))) ? a : b;
+	      result = is_root(root);
+	    }
 	    if (!result)
 	      stator_throw() << "Bisection failed! Impossibru!";
 	    retval.push_back(root);
-- 
2.43.0


From 0413a1b6c7e28ca3087a6c8a74f3470a1899a291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:57 +0000
Subject: [PATCH 21/50] fix: cubic solver loses small roots next to a large one

---
 stator/symbolic/polynomial.hpp | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index 025ae10..0064ad2 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -990,25 +990,17 @@ namespace sym {
     const double k = std::acos(t) / 3.0;
     const double cosk = std::cos(k);
     
-    StackVector<double, 3> roots{ (s + s) * cosk - f[2] / 3.0 };
-    
-    const double sinsqk = 1.0 - cosk * cosk;
-    if (sinsqk < 0)
-	return roots;
-
-    double rt3sink = std::sqrt(3.0) * std::sqrt(sinsqk);
-    roots.push_back(s * (-cosk + rt3sink) - f[2] / 3.0);
-    roots.push_back(s * (-cosk - rt3sink) - f[2] / 3.0);
+    //The sign of s is chosen so that this root has no cancellation. The
+    //other two roots do suffer from it, particularly if they are much
+    //smaller, so they are obtained via deflation.
+    double root = (s + s) * cosk - f[2] / 3.0;
 
     //We don't test if the polishing fails. Without established
     //bounds polishing is "hard" with multiple real roots, so we
     //just accept a polished root if it is available
-    stator::numeric::halleys_method([&](double x){ return eval_derivatives<2>(f, x); }, roots[0]);
-    stator::numeric::halleys_method([&](double x){ return eval_derivatives<2>(f, x); }, roots[1]);
-    stator::numeric::halleys_method([&](double x){ return eval_derivatives<2>(f, x); }, roots[2]);
-    
-    std::sort(roots.begin(), roots.end());
-    return roots;
+    stator::numeric::halleys_method([&](double x){ return eval_derivatives<2>(f, x); }, root);
+
+    return deflate_and_solve_polynomial(f, root);
   }
 
   namespace detail {
-- 
2.43.0


From 7068ec1d191bce67a7b1f581ca4b5182067d17c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:51 +0000
Subject: [PATCH 22/50] fix: Schroeder step uses the Newton step as its first
 term

---
 stator/symbolic/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/numeric.hpp b/stator/symbolic/numeric.hpp
index 3b9ebc6..2db20a9 100644
--- a/stator/symbolic/numeric.hpp
+++ b/stator/symbolic/numeric.hpp
@@ -141,7 +141,7 @@ namespace stator {
 	//Cannot proceed with a zero first derivative
 	return 0;
 
-      return detail::process_iterative_step(f, curr_state, x, x - 2 * curr_state[0] * curr_state[1] - curr_state[2] * curr_state[0] * curr_state[0] / (2 * curr_state[1] * curr_state[1] * curr_state[1]), low_bound, high_bound, x_precision);
+      return detail::process_iterative_step(f, curr_state, x, x - curr_state[0] / curr_state[1] - curr_state[2] * curr_state[0] * curr_state[0] / (2 * curr_state[1] * curr_state[1] * curr_state[1]), low_bound, high_bound, x_precision);
     }
 
     /*! \brief A single bisection step.
-- 
2.43.0


From f8d38a8b6fae0ea1ebd82a3e36c01b08dc45e975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 23/50] fix: Halley's method claimed convergence near
 stationary points

---
 stator/symbolic/numeric.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stator/symbolic/numeric.hpp b/stator/symbolic/numeric.hpp
index 2db20a9..91a3a4b 100644
--- a/stator/symbolic/numeric.hpp
+++ b/stator/symbolic/numeric.hpp
@@ -128,6 +128,11 @@ namespace stator {
 	return 0;
       }
 
+      //A small step only indicates convergence if the Newton-Raphson step is
+      //small too. Near a stationary point, Halley's step also vanishes.
+      if (!(std::abs(delta) >= std::abs(deltaNR) / 2))
+	x_precision = 0;
+
       return detail::process_iterative_step(f, curr_state, x, x + delta, low_bound, high_bound, x_precision);
     }
 
-- 
2.43.0


From f04cb7d3fdca19ce240477bbfdfcbed7e4451b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:05 +0000
Subject: [PATCH 24/50] fix: bisection took the sign of NaN for a sign change

---
 stator/symbolic/numeric.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/stator/symbolic/numeric.hpp b/stator/symbolic/numeric.hpp
index 91a3a4b..0cf2d8f 100644
--- a/stator/symbolic/numeric.hpp
+++ b/stator/symbolic/numeric.hpp
@@ -161,7 +161,7 @@ namespace stator {
       auto f_low = f(low_bound);
       auto f_high = f(high_bound);
       
-      if (std::signbit(f_low[0]) == std::signbit(f_high[0])) {
+      if (std::isnan(f_low[0]) || std::isnan(f_high[0]) || (std::signbit(f_low[0]) == std::signbit(f_high[0]))) {
 	//std::cout << "No sign change!" << std::endl;
 	//No sign change in the interval
 	return 0;
@@ -172,6 +172,10 @@ namespace stator {
 
       //std::cout << "new_x = " << x_mid << std::endl;
 
+      if (std::isnan(new_state[0]))
+	//The sign of the function is unknown
+	return 0;
+
       //The root is within this distance of x_mid. The distance to x
       //is no measure of convergence, x may come from another method
       //and just happen to lie near the mid point.
@@ -293,7 +297,7 @@ namespace stator {
       auto f_low = f(low_bound);
       auto f_high = f(high_bound);
       
-      if (std::signbit(f_low) == std::signbit(f_high)) {
+      if (std::isnan(f_low) || std::isnan(f_high) || (std::signbit(f_low) == std::signbit(f_high))) {
 	//No sign change in the interval, no root found!
 	return false;
       }
@@ -306,6 +310,11 @@ namespace stator {
       while (--iterations) {
 	Real x_mid = (low_bound + high_bound) / 2;
 	auto new_state = f(x_mid);
+
+	if (std::isnan(new_state))
+	  //The sign of the function is unknown
+	  return false;
+
 	Real delta = x_mid - x;
 	if (
 	    //Check if the precision has been reached
-- 
2.43.0


From c53ddaf5aa9fbc404bb5ebc78eeb077c8e0e0023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:04 +0000
Subject: [PATCH 25/50] fix: rounding noise taken for leading terms of Sturm
 chain remainders

---
 stator/symbolic/polynomial.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index 0064ad2..ffea343 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -1011,8 +1011,22 @@ namespace sym {
     Polynomial<Order-2, Coeff_t, PolyVar> 
 	mrem(const Polynomial<Order, Coeff_t, PolyVar>& f, const Polynomial<Order-1, Coeff_t, PolyVar>&g)
     {
+	Polynomial<Order, Coeff_t, PolyVar> quot;
 	Polynomial<Order-2, Coeff_t, PolyVar> rem;
-	std::tie(std::ignore, rem) = gcd(f, g);
+	std::tie(quot, rem) = gcd(f, g);
+
+	//Where the leading coefficients of the remainder vanish, rounding
+	//leaves noise which must not be taken for the leading term of
+	//the next polynomial in the chain.
+	for (size_t i(Order-2); i > 0; --i) {
+	  Coeff_t scale = std::abs(f[i]);
+	  for (size_t j(0); j <= i; ++j)
+	    scale += std::abs(quot[i - j] * g[j]);
+	  if (std::abs(rem[i]) > 4 * std::numeric_limits<Coeff_t>::epsilon() * scale)
+	    break;
+	  rem[i] = empty_sum(Coeff_t());
+	}
+
 	return -rem;
     }
 
-- 
2.43.0


From 2fcdb606119124348ad5be06349b4583e2b0b21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:50 +0000
Subject: [PATCH 26/50] fix: fixed-size arrays exposed the unused part of their
 storage

---
 stator/symbolic/array.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/stator/symbolic/array.hpp b/stator/symbolic/array.hpp
index d07595b..110745b 100644
--- a/stator/symbolic/array.hpp
+++ b/stator/symbolic/array.hpp
@@ -20,6 +20,7 @@
 #pragma once
 
 #include <stator/symbolic/symbolic.hpp>
+#include <algorithm> // For std::equal
 #include <iterator> // For std::forward_iterator_tag
 #include <cstddef>  // For std::ptrdiff_t
 
@@ -108,13 +109,14 @@ namespace sym
     template <class... Args>
     bool operator==(const Addressing<Args...> &ad) const
     {
-      return (ad.getDimensions() == getDimensions()) && (ad._store == Base::_store);
+      return (ad.getDimensions() == getDimensions()) && std::equal(begin(), end(), ad.begin());
     }
 
     auto begin() const { return Base::_store.begin(); }
     auto begin() { return Base::_store.begin(); }
-    auto end() const { return Base::_store.end(); }
-    auto end() { return Base::_store.end(); }
+    //Fixed-size storage may be larger than the array held in it
+    auto end() const { return Base::_store.begin() + size(); }
+    auto end() { return Base::_store.begin() + size(); }
 
     void resize(const Coords &d)
     {
@@ -175,8 +177,9 @@ namespace sym
 
     auto begin() const { return Base::_store.begin(); }
     auto begin() { return Base::_store.begin(); }
-    auto end() const { return Base::_store.end(); }
-    auto end() { return Base::_store.end(); }
+    //Fixed-size storage may be larger than the array held in it
+    auto end() const { return Base::_store.begin() + store_size(); }
+    auto end() { return Base::_store.begin() + store_size(); }
 
     Coords getDimensions() const { return _dimensions; }
 
@@ -203,7 +206,7 @@ namespace sym
     template <class... Args>
     bool operator==(const Addressing<Args...> &ad) const
     {
-      return (ad.getDimensions() == getDimensions()) && (ad._store == Base::_store);
+      return (ad.getDimensions() == getDimensions()) && std::equal(begin(), end(), ad.begin());
     }
 
     void resize(const Coords &d)
-- 
2.43.0


From 58aa5998fa937d81b3f5ef8d0885ef98f4a78dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:58 +0000
Subject: [PATCH 27/50] fix: elements of scaled arrays were left unsimplified

---
 stator/symbolic/runtime.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stator/symbolic/runtime.hpp b/stator/symbolic/runtime.hpp
index a78dee6..205d8ce 100644
--- a/stator/symbolic/runtime.hpp
+++ b/stator/symbolic/runtime.hpp
@@ -631,7 +631,11 @@ namespace sym
       Expr dd_visit(const T1 &l, const T2 &r, Op)
       {
         //We try applying the operator, there are specialised overloads of the operators that might do something
-        return Expr(store(Op::apply(l, r)));
+        Expr res(store(Op::apply(l, r)));
+        //Operations applied to each element of an array still need simplifying
+        if ((std::is_same<T1, ArrayRT>::value || std::is_same<T2, ArrayRT>::value) && dynamic_cast<const ArrayRT *>(res.get()))
+          return simplify(res);
+        return res;
       }
 
       template <class Op, typename = typename std::enable_if<!std::is_same<Op, detail::ArrayAccess>::value>::type>
-- 
2.43.0


From 9ade7e6a3a0eff0c327e86680213f28f73d2edb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:24 +0000
Subject: [PATCH 28/50] fix: sums, differences and quotients with an array on
 the right, and negated arrays, were not taken element by element

---
 stator/symbolic/array.hpp   | 27 +++++++++++++++++++--------
 stator/symbolic/runtime.hpp | 15 +++++++++++++++
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/stator/symbolic/array.hpp b/stator/symbolic/array.hpp
index 110745b..eb4c532 100644
--- a/stator/symbolic/array.hpp
+++ b/stator/symbolic/array.hpp
@@ -416,6 +416,17 @@ namespace sym
 
   namespace detail
   {
+    /*! \brief If an operand of an array is applied to each of its
+      elements. An Expr might turn out to be an array itself, so
+      operations between it and an ArrayRT must stay symbolic. Null has
+      operators of its own.
+     */
+    template <class T, class ArrayType>
+    struct AppliesToElements
+    {
+      static constexpr bool value = !std::is_base_of<ArrayBase, T>::value && !std::is_same<T, Null>::value && !(std::is_same<T, Expr>::value && std::is_same<ArrayType, ArrayRT>::value);
+    };
+
     template <typename T1, typename... Args1, typename... Args2, typename F>
     auto elementwiseopLR(const Array<T1, Args1...> &l, const Array<Args2...> &r, F operation)
     {
@@ -480,7 +491,7 @@ namespace sym
 
   }
 
-  template <typename... Args, typename R>
+  template <typename... Args, typename R, typename = typename std::enable_if<std::is_base_of<detail::ArrayBase, R>::value || detail::AppliesToElements<R, Array<Args...>>::value>::type>
   auto operator+(const Array<Args...> &l, const R &r)
   {
     if constexpr (std::is_base_of<detail::ArrayBase, R>())
@@ -491,14 +502,14 @@ namespace sym
                                     { return l + r; });
   }
 
-  template <typename... Args, typename L, typename std::enable_if<!std::is_base_of<detail::ArrayBase, L>::value>::type>
+  template <typename... Args, typename L, typename = typename std::enable_if<detail::AppliesToElements<L, Array<Args...>>::value>::type>
   auto operator+(const L &l, const Array<Args...> &r)
   {
     return detail::elementwiseopR(l, r, [](const L &l, const typename Array<Args...>::Value &r)
                                   { return l + r; });
   }
 
-  template <typename... Args, typename R>
+  template <typename... Args, typename R, typename = typename std::enable_if<std::is_base_of<detail::ArrayBase, R>::value || detail::AppliesToElements<R, Array<Args...>>::value>::type>
   auto operator-(const Array<Args...> &l, const R &r)
   {
     if constexpr (std::is_base_of<detail::ArrayBase, R>())
@@ -509,7 +520,7 @@ namespace sym
                                     { return l - r; });
   }
 
-  template <typename... Args, typename L, typename std::enable_if<!std::is_base_of<detail::ArrayBase, L>::value>::type>
+  template <typename... Args, typename L, typename = typename std::enable_if<detail::AppliesToElements<L, Array<Args...>>::value>::type>
   auto operator-(const L &l, const Array<Args...> &r)
   {
     return detail::elementwiseopR(l, r, [](const L &l, const typename Array<Args...>::Value &r)
@@ -523,21 +534,21 @@ namespace sym
                                    { return l * r; });
   }
 
-  template <typename... LArgs, typename RHS>
+  template <typename... LArgs, typename RHS, typename = typename std::enable_if<detail::AppliesToElements<RHS, Array<LArgs...>>::value>::type>
   auto multiply_impl(const Array<LArgs...> &l, const RHS &r, detail::choice<2>)
   {
     return detail::elementwiseopL(l, r, [](const typename Array<LArgs...>::Value &l, const RHS &r)
                                   { return l * r; });
   }
 
-  template <typename... RArgs, typename LHS>
+  template <typename... RArgs, typename LHS, typename = typename std::enable_if<detail::AppliesToElements<LHS, Array<RArgs...>>::value>::type>
   auto multiply_impl(const LHS &l, const Array<RArgs...> &r, detail::choice<3>)
   {
     return detail::elementwiseopR(l, r, [](const LHS &l, const typename Array<RArgs...>::Value &r)
                                   { return l * r; });
   }
 
-  template <typename... Args, typename R>
+  template <typename... Args, typename R, typename = typename std::enable_if<std::is_base_of<detail::ArrayBase, R>::value || detail::AppliesToElements<R, Array<Args...>>::value>::type>
   auto operator/(const Array<Args...> &l, const R &r)
   {
     if constexpr (std::is_base_of<detail::ArrayBase, R>())
@@ -548,7 +559,7 @@ namespace sym
                                     { return l / r; });
   }
 
-  template <typename... Args, typename L, typename std::enable_if<!std::is_base_of<detail::ArrayBase, L>::value>::type>
+  template <typename... Args, typename L, typename = typename std::enable_if<detail::AppliesToElements<L, Array<Args...>>::value>::type>
   auto operator/(const L &l, const Array<Args...> &r)
   {
     return detail::elementwiseopR(l, r, [](const L &l, const typename Array<Args...>::Value &r)
diff --git a/stator/symbolic/runtime.hpp b/stator/symbolic/runtime.hpp
index 205d8ce..9a5d1a1 100644
--- a/stator/symbolic/runtime.hpp
+++ b/stator/symbolic/runtime.hpp
@@ -675,6 +675,11 @@ namespace sym
         return Expr(store(detail::Subtract::apply(l, r)));
       }
 
+      Expr dd_visit(const double &l, const ArrayRT &r, detail::Subtract)
+      {
+        return simplify(Expr(store(detail::Subtract::apply(l, r))));
+      }
+
       Expr dd_visit(const double &l, const BinaryOp<Expr, detail::Multiply, Expr> &r, detail::Multiply)
       {
         if (dynamic_cast<const ConstantRT<double> *>(r.getLHS().get()))
@@ -702,6 +707,16 @@ namespace sym
       struct UnaryEval : VisitorHelper<UnaryEval<Op>>
       {
         Expr apply(const double &arg) { return Expr(Op::apply(arg)); }
+        //Arrays are negated element by element
+        Expr apply(const ArrayRT &arg)
+        {
+          if (!std::is_same<Op, detail::Negate>::value)
+            return Expr();
+          auto ret_ptr = ArrayRT::create();
+          for (const auto &elem : arg)
+            ret_ptr->push_back(simplify(Expr(-elem)));
+          return Expr(ret_ptr);
+        }
         template <class T>
         Expr apply(const T &arg) { return Expr(); }
       };
-- 
2.43.0


From bbcef39283145d85043ff15113153ac1a6015e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:19 +0000
Subject: [PATCH 29/50] fix: comparing, swapping and range checking stack
 vectors ignored their size

---
 stator/orphan/stack_vector.hpp | 48 ++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/stator/orphan/stack_vector.hpp b/stator/orphan/stack_vector.hpp
index 01b6fa5..05dd4e8 100644
--- a/stator/orphan/stack_vector.hpp
+++ b/stator/orphan/stack_vector.hpp
@@ -20,8 +20,10 @@
 #pragma once
 
 // C++
+#include <algorithm>
 #include <array>
 #include <ostream>
+#include <stdexcept>
 
 namespace stator {
   namespace orphan {
@@ -137,11 +139,57 @@ namespace stator {
 	  push_back(a);
       }
       
+      /*! \brief Access a stored element with bounds checking. */
+      typename Base::reference at(typename Base::size_type n) {
+	if (n >= _size) throw std::out_of_range("StackVector::at");
+	return Base::operator[](n);
+      }
+
+      /*! \brief Access a stored element with bounds checking. */
+      typename Base::const_reference at(typename Base::size_type n) const {
+	if (n >= _size) throw std::out_of_range("StackVector::at");
+	return Base::operator[](n);
+      }
+
+      /*! \brief Exchange the contents with another StackVector. */
+      void swap(StackVector& ovec) {
+	Base::swap(ovec);
+	std::swap(_size, ovec._size);
+      }
+
     private:
       /*! The number of elements stored in the StackVector. */
       size_t _size;
     };
 
+    /*! \name Comparison operators, which compare only the stored
+        elements (and not the unused storage). */
+    /*! \{ */
+    template<class T, size_t Nmax>
+    bool operator==(const StackVector<T,Nmax>& l, const StackVector<T,Nmax>& r)
+    { return (l.size() == r.size()) && std::equal(l.begin(), l.end(), r.begin()); }
+
+    template<class T, size_t Nmax>
+    bool operator!=(const StackVector<T,Nmax>& l, const StackVector<T,Nmax>& r)
+    { return !(l == r); }
+
+    template<class T, size_t Nmax>
+    bool operator<(const StackVector<T,Nmax>& l, const StackVector<T,Nmax>& r)
+    { return std::lexicographical_compare(l.begin(), l.end(), r.begin(), r.end()); }
+
+    template<class T, size_t Nmax>
+    bool operator>(const StackVector<T,Nmax>& l, const StackVector<T,Nmax>& r)
+    { return r < l; }
+
+    template<class T, size_t Nmax>
+    bool operator<=(const StackVector<T,Nmax>& l, const StackVector<T,Nmax>& r)
+    { return !(r < l); }
+
+    template<class T, size_t Nmax>
+    bool operator>=(const StackVector<T,Nmax>& l, const StackVector<T,Nmax>& r)
+    { return !(l < r); }
+    /*! \} */
+
     /*! Output operator for pretty printing StackVector classes. */
     template<class T, size_t Nmax>
     std::ostream& operator<<(std::ostream& os, const StackVector<T,Nmax>&s) {
-- 
2.43.0


From ea316ef7008abddc3ee7bad99c5070263e628dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:12 +0000
Subject: [PATCH 30/50] fix: measures of balls lost in high dimensions and
 beyond double precision

---
 stator/geometry/sphere.hpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/stator/geometry/sphere.hpp b/stator/geometry/sphere.hpp
index 341f933..64d30b4 100644
--- a/stator/geometry/sphere.hpp
+++ b/stator/geometry/sphere.hpp
@@ -97,17 +97,12 @@ namespace stator {
     constexpr Scalar volume(const detail::UnitBall<Scalar, 1>& ball) { return Scalar(2); }
         
     template<typename Scalar, size_t D>
-    constexpr typename std::enable_if<(D%2) && (D>1), Scalar>::type
+    constexpr typename std::enable_if<(D>1), Scalar>::type
       volume(const detail::UnitBall<Scalar, D>& ball) {
-      return 2 * std::tgamma((D-1)/2+1)
-        * std::pow(4 * stator::constant<Scalar>::pi(), (D-1)/2)
-        / std::tgamma(D+1);
-    }
-
-    template<typename Scalar, size_t D>
-    constexpr typename std::enable_if<(!(D%2)) && (D>1), Scalar>::type 
-      volume(const detail::UnitBall<Scalar, D>& ball) {
-      return std::pow(stator::constant<Scalar>::pi(), D/2) / std::tgamma(D/2+1);
+      //At least double precision, as the gamma function quickly
+      //exceeds the range of a float
+      typedef typename std::common_type<Scalar, double>::type Real;
+      return std::pow(stator::constant<Real>::pi(), Real(D) / 2) / std::tgamma(Real(D) / 2 + 1);
     }
     
     template<typename Scalar, size_t D>
-- 
2.43.0


From 246a4f384357db6a2f381677445169a5685211b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:50 +0000
Subject: [PATCH 31/50] fix: double superscripts in the LaTeX output of powers

---
 stator/symbolic/binary_ops.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stator/symbolic/binary_ops.hpp b/stator/symbolic/binary_ops.hpp
index 4a01d95..4bb8ffa 100644
--- a/stator/symbolic/binary_ops.hpp
+++ b/stator/symbolic/binary_ops.hpp
@@ -456,7 +456,10 @@ namespace sym {
     const bool LHS_ambiguous = (Op::associativity == detail::Associativity::RIGHT) && (LHS_BP.second == this_BP.first);
     //The sign of a negative constant is read as a negation, which these operators out-bind
     const bool LHS_sign_lost = (Op::leftBindingPower > detail::Multiply::leftBindingPower) && (LHS_repr[0] == '-');
-    if (LHS_BP.second < this_BP.first || LHS_ambiguous || LHS_sign_lost || Config::Force_parenthesis)
+    //In LaTeX, functions and anything already carrying a superscript cannot take an exponent
+    const bool LHS_superscript = Config::Latex_output && std::is_same<Op, detail::Power>::value
+      && ((LHS_repr.find("^{") != std::string::npos) || ((LHS_repr[0] == '\\') && LHS_repr.compare(0, 5, "\\left")));
+    if (LHS_BP.second < this_BP.first || LHS_ambiguous || LHS_sign_lost || LHS_superscript || Config::Force_parenthesis)
       LHS_repr = detail::paren_wrap<Config>(LHS_repr);
 
     std::string RHS_repr = repr<Config>(op._r);
-- 
2.43.0


From c0dcd7a583e117ca454e610d0e3f347a91ab2213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:03 +0000
Subject: [PATCH 32/50] fix: exponents of several digits in the LaTeX output of
 polynomials

---
 stator/symbolic/polynomial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index ffea343..dbd7cef 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -1968,7 +1968,7 @@ namespace sym {
 	++terms;
 	oss << repr<Config>(poly[i]) << "*" << PolyVar::getName();
 	if (i > 1)
-	  oss << "^" << i;
+	  oss << (Config::Latex_output ? "^{" : "^") << i << (Config::Latex_output ? "}" : "");
     }
     if ((poly[0] != sym::empty_sum(poly[0])) || (terms == 0)) {
 	if (terms != 0)
-- 
2.43.0


From d02579710332f688e074deb9edd9fb41603d8622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:15 +0000
Subject: [PATCH 33/50] fix: out of bounds access printing matrices which are
 not square

---
 stator/symbolic/runtime.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stator/symbolic/runtime.hpp b/stator/symbolic/runtime.hpp
index 9a5d1a1..07b53b9 100644
--- a/stator/symbolic/runtime.hpp
+++ b/stator/symbolic/runtime.hpp
@@ -1209,10 +1209,10 @@ namespace sym
     else
     {
       os << "{ ";
-      for (int i(0); i < val.cols(); ++i)
+      for (int i(0); i < val.rows(); ++i)
       {
         os << "{ ";
-        for (int j(0); j < val.rows(); ++j)
+        for (int j(0); j < val.cols(); ++j)
           os << repr<Config>(val(i, j)) << " ";
         os << "} ";
       }
-- 
2.43.0


From 640567f7e35b0e526e6a2a5f986478bac1a64864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:35 +0000
Subject: [PATCH 34/50] fix: undefined behaviour printing long doubles

---
 stator/repr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/repr.hpp b/stator/repr.hpp
index 343e4e8..9e6a447 100644
--- a/stator/repr.hpp
+++ b/stator/repr.hpp
@@ -57,7 +57,7 @@ namespace stator {
   inline
   typename std::enable_if<std::is_floating_point<Float>::value, std::string>::type
   repr(Float a) {
-    std::string basic_output = stator::string_format("%.*g", std::numeric_limits<Float>::max_digits10 - Config::Rounding_digits, a);
+    std::string basic_output = stator::string_format("%.*Lg", std::numeric_limits<Float>::max_digits10 - Config::Rounding_digits, static_cast<long double>(a));
     if (Config::Latex_output) {
       //Strip the unneeded exponent leading plus sign if present
       auto fin = search_replace(basic_output, "e+", "\\times10^{");
-- 
2.43.0


From 5e64e3c7a80a3c4c437533d9cd0f9a5898f1e952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:56 +0000
Subject: [PATCH 35/50] fix: endless loop replacing an empty string

---
 stator/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/string.hpp b/stator/string.hpp
index 5b8c089..e70a3de 100644
--- a/stator/string.hpp
+++ b/stator/string.hpp
@@ -69,7 +69,7 @@ namespace stator {
   inline std::pair<std::string, size_t> search_replace(std::string in, const std::string& from, const std::string& to)
   {
     size_t replacements = 0;
-    if (!in.empty())
+    if (!in.empty() && !from.empty())
       {
 	std::string::size_type toLen = to.length();
 	std::string::size_type frLen = from.length();
-- 
2.43.0


From 330a1a6fe3ad0e24545c342bcd3fa4d14beb7c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:52 +0000
Subject: [PATCH 36/50] fix: powers of compile-time constants did not compile

---
 stator/symbolic/binary_ops.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stator/symbolic/binary_ops.hpp b/stator/symbolic/binary_ops.hpp
index 4bb8ffa..b0d56af 100644
--- a/stator/symbolic/binary_ops.hpp
+++ b/stator/symbolic/binary_ops.hpp
@@ -337,8 +337,12 @@ namespace sym {
   
   template<std::intmax_t num1, std::intmax_t den1, std::intmax_t num2>
   auto pow(const C<num1, den1>& l, const C<num2,1>& r) {
-    return PowerOpSub<num2>::eval(sub(l, num2));
+    return PowerOpSub<num2>::eval(l);
   }
+
+  //Resolves the ambiguity between the general first power and powers of constants
+  template<std::intmax_t num1, std::intmax_t den1>
+  auto pow(const C<num1, den1>& l, const C<1,1>& r) { return l; }
   
   /*! \brief Symbolic equality operator. 
 
-- 
2.43.0


From 86e2de85a1c1af0539084ea582cb52f3509be01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:49 +0000
Subject: [PATCH 37/50] fix: most fractions could not be converted to
 arithmetic types

---
 stator/symbolic/simplify.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/simplify.hpp b/stator/symbolic/simplify.hpp
index 406269a..97b050d 100644
--- a/stator/symbolic/simplify.hpp
+++ b/stator/symbolic/simplify.hpp
@@ -338,7 +338,7 @@ namespace sym {
   std::intmax_t toArithmetic(C<n1,d1> val) { return n1 / d1; }
   
   template<std::intmax_t n1, std::intmax_t d1, 
-  	     typename = typename std::enable_if<n1 % d1>::type>
+  	     typename = typename std::enable_if<(n1 % d1) != 0>::type>
   double toArithmetic(C<n1,d1> val) { return double(n1) / double(d1); }
 
   template<class Config, std::intmax_t num, std::intmax_t den,
-- 
2.43.0


From 94f9124d1aff89e98b5c0c44db7f4e1b67935fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:18 +0000
Subject: [PATCH 38/50] fix: symbolic substitution into polynomials did not
 compile

---
 stator/symbolic/polynomial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index dbd7cef..71afd4a 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -306,7 +306,7 @@ namespace sym {
                                               >::type,
 	     typename = typename enable_if_var_eq<PolyVar, SubVar>::type>
   auto sub(const Polynomial<Order, Coeff_t, PolyVar>& f, const EqualityOp<SubVar, Coeff_t2>& x_container) {
-    return detail::PolySubWorker<Order>::eval(f, x_container._val);
+    return detail::PolySubWorker<Order>::eval(f, x_container._r);
   }
 
   /*! \brief Fast evaluation of multiple derivatives of a
-- 
2.43.0


From f1365718897c517a4fc28c1350f3b346a7c572d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:18 +0000
Subject: [PATCH 39/50] fix: fast numeric substitution did not compile

---
 stator/symbolic/runtime.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stator/symbolic/runtime.hpp b/stator/symbolic/runtime.hpp
index 07b53b9..4947649 100644
--- a/stator/symbolic/runtime.hpp
+++ b/stator/symbolic/runtime.hpp
@@ -1130,7 +1130,8 @@ namespace sym
   template <class Var>
   double fast_sub(const Expr &f, const EqualityOp<Var, double> &rel)
   {
-    detail::FastSubRT visitor(rel._var, rel._val);
+    auto v_ptr = VarRT::create(rel._l);
+    detail::FastSubRT visitor(*v_ptr, rel._r);
     f->visit(visitor);
     return visitor._intermediate;
   }
-- 
2.43.0


From c420e0a7a2571bfc62700885dc85723d7e9e3151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:45 +0000
Subject: [PATCH 40/50] fix: simplifying some integer powers of expressions did
 not compile

---
 stator/symbolic/simplify.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/stator/symbolic/simplify.hpp b/stator/symbolic/simplify.hpp
index 97b050d..abb2438 100644
--- a/stator/symbolic/simplify.hpp
+++ b/stator/symbolic/simplify.hpp
@@ -227,10 +227,9 @@ namespace sym {
     function defined for its argument.
    */
   template<class Config = DefaultSimplifyConfig, class Arg, std::intmax_t Power,
-	     typename = typename std::enable_if<PowerOpEnableExpansion<Arg>::value>::type>
-  auto simplify(const PowerOp<Arg, C<Power, 1> >& f) {
-    return simplify_powerop_impl<Config>(f, detail::select_overload{});
-  }
+	     typename = typename std::enable_if<PowerOpEnableExpansion<Arg>::value && (Power >= 0)>::type>
+  auto simplify(const PowerOp<Arg, C<Power, 1> >& f)
+    -> STATOR_AUTORETURN(simplify_powerop_impl<Config>(f, detail::select_overload{}));
 
   
   //Implement other simplifications at least at choice<5> or above, reordering should be a last case option!
-- 
2.43.0


From 5f29bddfafaec64c86ce0c646eb1a4a5f351bb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:00 +0000
Subject: [PATCH 41/50] fix: hashing an expression with a long variable name
 could terminate the program

---
 stator/symbolic/variable.hpp    | 3 ++-
 stator/symbolic/variable_rt.hpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/stator/symbolic/variable.hpp b/stator/symbolic/variable.hpp
index 8994906..2e495bd 100644
--- a/stator/symbolic/variable.hpp
+++ b/stator/symbolic/variable.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <string_view>
 #include <type_traits>
 #include <stator/hash.hpp>
 
@@ -98,7 +99,7 @@ namespace std
     std::size_t operator()(sym::Var<N, Args...> const& v) const noexcept
     {
       std::size_t seed = sym::detail::Type_index<sym::Var<N, Args...>>::value;
-      stator::hash_combine(seed, std::hash<std::string>{}(v.getName()));
+      stator::hash_combine(seed, std::hash<std::string_view>{}(v.getName()));
       return seed;
     }
   };
diff --git a/stator/symbolic/variable_rt.hpp b/stator/symbolic/variable_rt.hpp
index 43c2888..c754a57 100644
--- a/stator/symbolic/variable_rt.hpp
+++ b/stator/symbolic/variable_rt.hpp
@@ -59,7 +59,7 @@ namespace sym {
       return equality(lhs, rhs);
     }
     
-    inline std::string getName() const { return _name; }
+    inline const std::string& getName() const { return _name; }
     
     std::string _name;
   };
-- 
2.43.0


From 2de85ec767982b403131b5e646f333eca9f1d260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:12 +0000
Subject: [PATCH 42/50] fix: expanding a product of polynomials in different
 variables merged the variables

---
 stator/symbolic/simplify.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stator/symbolic/simplify.hpp b/stator/symbolic/simplify.hpp
index abb2438..6cbe925 100644
--- a/stator/symbolic/simplify.hpp
+++ b/stator/symbolic/simplify.hpp
@@ -389,7 +389,8 @@ namespace sym {
    */
   template<class Config = DefaultSimplifyConfig, class Real1, class Real2, size_t M, size_t N,
 	   class PolyVar1, class PolyVar2, class Op,
-	   typename = typename std::enable_if<std::is_same<Op,detail::Multiply>::value>::type>
+	   typename = typename std::enable_if<std::is_same<Op,detail::Multiply>::value>::type,
+	   typename = typename enable_if_var_eq<PolyVar1, PolyVar2>::type>
     auto simplify(const BinaryOp<Polynomial<M, Real1, PolyVar1>, Op, Polynomial<N, Real2, PolyVar2>>& f)
     -> Polynomial<M + N, decltype(store(Op::apply(f._l[0], f._r[0]))), PolyVar1>
   {
-- 
2.43.0


From af156abbe6e858aa9d32abded4459d5cf16acb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:05 +0000
Subject: [PATCH 43/50] fix: expanding an integer polynomial divided by an
 integer truncated the coefficients

---
 stator/symbolic/simplify.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/stator/symbolic/simplify.hpp b/stator/symbolic/simplify.hpp
index 6cbe925..3a7168a 100644
--- a/stator/symbolic/simplify.hpp
+++ b/stator/symbolic/simplify.hpp
@@ -403,7 +403,8 @@ namespace sym {
 
   /*! \brief Division between two Polynomial types.
    */
-  template<class Config = DefaultSimplifyConfig, class Real1, class Real2, size_t M, class PolyVar1, class PolyVar2>
+  template<class Config = DefaultSimplifyConfig, class Real1, class Real2, size_t M, class PolyVar1, class PolyVar2,
+	   typename = typename std::enable_if<!(std::is_integral<Real1>::value && std::is_integral<Real2>::value)>::type>
   auto simplify(const BinaryOp<Polynomial<M, Real1, PolyVar1>, detail::Divide, Polynomial<0, Real2, PolyVar2>>& f)
     -> Polynomial<M, decltype(store(f._l[0] / f._r[0])), PolyVar1>
   {
@@ -412,6 +413,19 @@ namespace sym {
   	  retval[i] += f._l[i] / f._r[0];
     return retval;
   }
+
+  /*! \brief Division between two Polynomial types with integer
+      coefficients, which is promoted to avoid integer division.
+   */
+  template<class Config = DefaultSimplifyConfig, class Real1, class Real2, size_t M, class PolyVar1, class PolyVar2,
+	   typename = typename std::enable_if<std::is_integral<Real1>::value && std::is_integral<Real2>::value>::type>
+  Polynomial<M, double, PolyVar1> simplify(const BinaryOp<Polynomial<M, Real1, PolyVar1>, detail::Divide, Polynomial<0, Real2, PolyVar2>>& f, int = 0)
+  {
+    Polynomial<M, double, PolyVar1> retval;
+    for (size_t i(0); i <= M; ++i)
+  	  retval[i] = double(f._l[i]) / f._r[0];
+    return retval;
+  }
   
   ///*! \brief Specialisation for squares of matrix expressions. */
   //template<class Config = DefaultSimplifyConfig, size_t Power, class Matrix, size_t N, char Letter,
-- 
2.43.0


From ed267833ee0b02525baf7b1ee233ed5fdeaa77bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:26 +0000
Subject: [PATCH 44/50] fix: expanding x*x (or x*x^n) left a power instead of a
 polynomial

---
 stator/symbolic/simplify.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stator/symbolic/simplify.hpp b/stator/symbolic/simplify.hpp
index 3a7168a..e08be05 100644
--- a/stator/symbolic/simplify.hpp
+++ b/stator/symbolic/simplify.hpp
@@ -174,19 +174,19 @@ namespace sym {
   template<class Config, conststr N1, conststr N2, class ...VarArgs1, class ...VarArgs2,
 	   typename = typename enable_if_var_eq<Var<N1, VarArgs1...>, Var<N2, VarArgs2...> >::type>
   auto simplify_BinaryOp(const MultiplyOp<Var<N1, VarArgs1...>, Var<N2, VarArgs2...> >&, detail::choice<0>)
-    -> decltype(sym::pow(Var<N1, VarArgs1...>(), C<2>())) { return sym::pow(Var<N1, VarArgs1...>(), C<2>()); }
+    -> decltype(try_simplify<Config>(sym::pow(Var<N1, VarArgs1...>(), C<2>()))) { return try_simplify<Config>(sym::pow(Var<N1, VarArgs1...>(), C<2>())); }
   
   template<class Config, conststr N1, conststr N2, class ...VarArgs1, class ...VarArgs2, class Order,
 	   typename = typename enable_if_var_eq<Var<N1, VarArgs1...>, Var<N2, VarArgs2...> >::type>
   auto simplify_BinaryOp(const MultiplyOp<PowerOp<Var<N1, VarArgs1...>, Order>, Var<N2, VarArgs2...> >& f, detail::choice<0>)
-    -> decltype(sym::pow(Var<N1, VarArgs1...>{}, f._l._r + C<1>()))
-  { return sym::pow(Var<N1, VarArgs1...>{}, f._l._r + C<1>()); }
+    -> decltype(try_simplify<Config>(sym::pow(Var<N1, VarArgs1...>{}, f._l._r + C<1>())))
+  { return try_simplify<Config>(sym::pow(Var<N1, VarArgs1...>{}, f._l._r + C<1>())); }
   
   template<class Config, conststr N1, conststr N2, class ...VarArgs1, class ...VarArgs2,  class Order,
 	   typename = typename enable_if_var_eq<Var<N1, VarArgs1...>, Var<N2, VarArgs2...> >::type>
   auto simplify_BinaryOp(const MultiplyOp<Var<N1, VarArgs1...>, PowerOp<Var<N2, VarArgs2...>, Order> >& f, detail::choice<0>)
-    -> decltype(sym::pow(Var<N1,VarArgs1...>{}, f._r._r + C<1>()))
-  { return sym::pow(Var<N1,VarArgs1...>{}, f._r._r + C<1>()); }
+    -> decltype(try_simplify<Config>(sym::pow(Var<N1,VarArgs1...>{}, f._r._r + C<1>())))
+  { return try_simplify<Config>(sym::pow(Var<N1,VarArgs1...>{}, f._r._r + C<1>())); }
       
   // Simplification of both arguments available
   template<class Config, class LHS, class RHS, class Op>
-- 
2.43.0


From f969fd7e655be55a0b408e0581cac599d5d9c20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:07 +0000
Subject: [PATCH 45/50] fix: deflation compared an unset coefficient and lost
 precision

---
 stator/symbolic/polynomial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index 71afd4a..be1312d 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -722,7 +722,7 @@ namespace sym {
     size_t i_b = 1;
     while (i_t >= i_b) {
 	const Coeff_t d = root * b[i_t + 1];	
-	if (subtraction_precision(b[i_b], a[i_b]) > addition_precision(a[i_t+1], d)) {
+	if (subtraction_precision(b[i_b-1], a[i_b]) > addition_precision(a[i_t+1], d)) {
 	  b[i_b] = (b[i_b-1] - a[i_b]) / root;
 	  ++i_b;
 	} else {
-- 
2.43.0


From 6e985278b7dcf1bacfbe6bafe8eeeace320375e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:04 +0000
Subject: [PATCH 46/50] fix: polynomial division by a constant multiplied by
 its reciprocal, which may overflow

---
 stator/symbolic/polynomial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index be1312d..90f91e6 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -404,7 +404,7 @@ namespace sym {
     if (g[0] == 0)
 	return RetType(FType{std::numeric_limits<Coeff_t>::infinity()}, RType{empty_sum(Coeff_t())});
 
-    return RetType(expand(f * (1.0 / g[0])), RType{empty_sum(Coeff_t())});
+    return RetType(expand(f / g[0]), RType{empty_sum(Coeff_t())});
   }
 
   /*! \} */
-- 
2.43.0


From 7d2c80b7efa755bdfd7b9fa2d6e1591733dca768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:02 +0000
Subject: [PATCH 47/50] fix: real roots of cubics whose radicals overflow

---
 stator/symbolic/polynomial.hpp | 93 ++++++++--------------------------
 1 file changed, 21 insertions(+), 72 deletions(-)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index 90f91e6..eda5623 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -880,70 +880,19 @@ namespace sym {
 	//Special case where f(x) = x^3 + f[0]
 	return StackVector<double, 3>{std::cbrt(-f[0])};
 
-    static const double maxSqrt = std::sqrt(std::numeric_limits<double>::max());
-    
-    if ((f[2] > maxSqrt) || (f[2] < -maxSqrt))
-	//The equation is limiting to x^3 + f[2] * x^2 == 0. Use
-	//this to estimate the location of one root, polish it up,
-	//then deflate the polynomial and solve the quadratic.
-	return deflate_and_solve_polynomial(f, -f[2]);
-
-    //NOT SURE THESE RANGE TESTS ARE BENEFICIAL
-    if (f[1] > maxSqrt)
-	//Special case, if f[1] is large (and f[2] is not) the root is
-	//near -f[0] / f[1], the x^3 term is negligble, and all other terms
-	//cancel.
-	return deflate_and_solve_polynomial(f, -f[0] / f[1]);
-
-    if (f[1] < -maxSqrt)
-	//Special case, equation is approximated as x^3 + q x == 0
-	return deflate_and_solve_polynomial(f, -std::sqrt(-f[1]));
-
-    if ((f[0] > maxSqrt) || (f[0] < -maxSqrt))
-	//Another special case where equation is approximated as f(x)= x^3 +f[0]
-	return deflate_and_solve_polynomial(f, -std::cbrt(f[0]));
-
-    const double v = f[0] + (2.0 * f[2] * f[2] / 9.0 - f[1]) * (f[2] / 3.0);
-
-    if ((v > maxSqrt) || (v < -maxSqrt))
-	return deflate_and_solve_polynomial(f, -f[2]);
-    
-    const double uo3 = f[1] / 3.0 - f[2] * f[2] / 9.0;
+    //Intermediate values of the radicals overflow (or underflow) if the
+    //coefficients are large (or small), so rescale x by a power of two
+    //such that the coefficients are of order one.
+    int scale = std::numeric_limits<int>::min();
+    for (int i(0); i < 3; ++i)
+	if (f[i] != 0)
+	  scale = std::max(scale, int(std::ceil((std::ilogb(f[i]) + 1.0) / (3 - i))));
+    const Polynomial<3, double, PolyVar> g{std::ldexp(f[0], -3 * scale), std::ldexp(f[1], -2 * scale), std::ldexp(f[2], -scale), 1.0};
+
+    const double v = g[0] + (2.0 * g[2] * g[2] / 9.0 - g[1]) * (g[2] / 3.0);
+    const double uo3 = g[1] / 3.0 - g[2] * g[2] / 9.0;
     const double u2o3 = uo3 + uo3;
-    
-    if ((u2o3 > maxSqrt) || (u2o3 < -maxSqrt))
-	{
-	  if (f[2]==0)
-	    {
-	      if (f[1] > 0)
-		return deflate_and_solve_polynomial(f, -f[0] / f[1]);
-	      
-	      if (f[1] < 0)
-		return deflate_and_solve_polynomial(f, -std::sqrt(-f[1]));
-		
-	      return deflate_and_solve_polynomial(f, 0.0);
-	    }
-
-	  return deflate_and_solve_polynomial(f, -f[1] / f[2]);
-	}
-
     const double uo3sq4 = u2o3 * u2o3;
-    if (uo3sq4 > maxSqrt)
-	{
-	  if (f[2] == 0)
-	    {
-	      if (f[1] > 0)
-		return deflate_and_solve_polynomial(f, -f[0] / f[1]);
-
-	      if (f[1] < 0)
-		return deflate_and_solve_polynomial(f, -std::sqrt(-f[1]));
-
-	      return deflate_and_solve_polynomial(f, 0.0);
-	    }
-
-	  return deflate_and_solve_polynomial(f, -f[1] / f[2]);
-	}
-
     const double j = (uo3sq4 * uo3) + v * v;
 
     if (j > 0) 
@@ -955,33 +904,33 @@ namespace sym {
 	  const double w = std::sqrt(j);
 	  double root;
 	  if (v < 0)
-	    root = std::cbrt(0.5*(w-v)) - (uo3) * std::cbrt(2.0 / (w-v)) - f[2] / 3.0;
+	    root = std::cbrt(0.5*(w-v)) - (uo3) * std::cbrt(2.0 / (w-v)) - g[2] / 3.0;
 	  else
-	    root = uo3 * std::cbrt(2.0 / (w+v)) - std::cbrt(0.5*(w+v)) - f[2] / 3.0;
+	    root = uo3 * std::cbrt(2.0 / (w+v)) - std::cbrt(0.5*(w+v)) - g[2] / 3.0;
 	  
 	  //We don't test if the polishing fails. Without established
 	  //bounds polishing is hard to do for multiple roots, so we
 	  //just accept a polished root if it is available
-	  stator::numeric::halleys_method([&](double x){ return eval_derivatives<2>(f, x); }, root);
+	  stator::numeric::halleys_method([&](double x){ return eval_derivatives<2>(g, x); }, root);
 
-	  return deflate_and_solve_polynomial(f, root);
+	  return deflate_and_solve_polynomial(f, std::ldexp(root, scale));
 	}
 
     if (uo3 >= 0)
 	//Triple root detected
-	return StackVector<double, 3>{std::cbrt(v) - f[2] / 3.0};
+	return StackVector<double, 3>{std::ldexp(std::cbrt(v) - g[2] / 3.0, scale)};
 
     const double muo3 = - uo3;
     double s = 0;
     if (muo3 > 0)
 	{
 	  s = std::sqrt(muo3);
-	  if (f[2] > 0) s = -s;
+	  if (g[2] > 0) s = -s;
 	}
     
     const double scube = s * muo3;
     if (scube == 0)
-	return StackVector<double, 3>{ -f[2] / 3.0 };
+	return StackVector<double, 3>{ std::ldexp(-g[2] / 3.0, scale) };
     
     double t = - v / (scube + scube);
     //Clamp t, as in certain edge cases it might numerically fall
@@ -993,14 +942,14 @@ namespace sym {
     //The sign of s is chosen so that this root has no cancellation. The
     //other two roots do suffer from it, particularly if they are much
     //smaller, so they are obtained via deflation.
-    double root = (s + s) * cosk - f[2] / 3.0;
+    double root = (s + s) * cosk - g[2] / 3.0;
 
     //We don't test if the polishing fails. Without established
     //bounds polishing is "hard" with multiple real roots, so we
     //just accept a polished root if it is available
-    stator::numeric::halleys_method([&](double x){ return eval_derivatives<2>(f, x); }, root);
+    stator::numeric::halleys_method([&](double x){ return eval_derivatives<2>(g, x); }, root);
 
-    return deflate_and_solve_polynomial(f, root);
+    return deflate_and_solve_polynomial(f, std::ldexp(root, scale));
   }
 
   namespace detail {
-- 
2.43.0


From 16877ec900af3ed4d735e52788d12af8604d6302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:12 +0000
Subject: [PATCH 48/50] fix: bisection of intervals near the largest numbers

---
 stator/symbolic/numeric.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stator/symbolic/numeric.hpp b/stator/symbolic/numeric.hpp
index 0cf2d8f..85da836 100644
--- a/stator/symbolic/numeric.hpp
+++ b/stator/symbolic/numeric.hpp
@@ -167,7 +167,8 @@ namespace stator {
 	return 0;
       }
 
-      Real x_mid = (low_bound + high_bound) / 2;
+      //Halved first, the sum of the bounds may overflow
+      Real x_mid = low_bound / 2 + high_bound / 2;
       auto new_state = f(x_mid);
 
       //std::cout << "new_x = " << x_mid << std::endl;
@@ -308,7 +309,8 @@ namespace stator {
 	x = low_bound;
       
       while (--iterations) {
-	Real x_mid = (low_bound + high_bound) / 2;
+	//Halved first, the sum of the bounds may overflow
+	Real x_mid = low_bound / 2 + high_bound / 2;
 	auto new_state = f(x_mid);
 
 	if (std::isnan(new_state))
-- 
2.43.0


From a97f2cee410ac95907c8b8376b22679d56079fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:26 +0000
Subject: [PATCH 49/50] fix: root bounds of polynomials of order above 30

The scale factors 1 << k overflowed int for large k.
---
 stator/symbolic/polynomial.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index eda5623..384753a 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -1257,7 +1257,7 @@ namespace sym {
 	  for (int k(real_order); k > m; --k)
 	    if ((f[k] != 0) && (std::signbit(f[k]) != std::signbit(f[m])))
 	      {
-		Coeff_t temp = std::pow(-(1 << times_used[k]) * f[m] / f[k], 1.0 / (k - m));
+		Coeff_t temp = std::pow(-std::ldexp(f[m], int(times_used[k])) / f[k], 1.0 / (k - m));
 		++times_used[k];
 		tempub = std::min(temp, tempub);
 	      }
@@ -1338,7 +1338,7 @@ namespace sym {
 	//transforms this to a multiplication op which is always cheap.
 	Polynomial<Order, Coeff_t, PolyVar> p1(f);
 	for (size_t i(0); i <= Order; ++i)
-	  p1[i] *= (1 << (Order-i)); //This gives (2^Order) / (2^i)
+	  p1[i] = std::ldexp(p1[i], int(Order-i)); //This gives (2^Order) / (2^i)
 
 	//Perform a Taylor shift p2(x) = p1(x+1). This gives 
 	//
-- 
2.43.0


From 8869f767982498f10e7a504ce998088d0c04a8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:55 +0000
Subject: [PATCH 50/50] fix: deflation of a root known to limited precision

The direction was chosen term by term from the cancellation, which may carry
the residual of the root into much smaller coefficients.
---
 stator/symbolic/polynomial.hpp | 41 +++++++++++++++-------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index 384753a..0d427bf 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -683,19 +683,9 @@ namespace sym {
     absolute root is always divided out". Unfortunately we do not
     know a priori the magnitude of the root being divided out.
     
-    As both approaches may suffer from catastrophic cancellation, we
-    decide to switch between them. If we catch the special
-    root-is-zero case, we only must avoid catastrophic
-    cancellation. This arises if two non-zero terms are subtracted
-    from each other (i.e., for the first approach this happens if
-    \f$a_{i+1}\f$ and \f$r_1\,b_{i+1}\f$ are non-zero and have
-    opposite sign). We could use this to monitor the bits of
-    precision "lost" as we calculate from each end and select a
-    point between the two methods where accuracy is highest, but
-    this would require a more detailed analysis of the error. A
-    simple approach is to solve from both ends of the polynomial at
-    the same time and only actually accept whichever has the lowest 
-    catastrophic cancellation accuracy in terms of bits.
+    Instead, both are used. The second approach is stable for the
+    coefficients from the largest term of the polynomial at the root
+    upwards, the first approach is stable for those below it.
 
     \param a The Polynomial to factor a root out of.
     \param root The root to remove.
@@ -718,18 +708,23 @@ namespace sym {
 	return b;
     }
 
-    size_t i_t = Order-2;
-    size_t i_b = 1;
-    while (i_t >= i_b) {
-	const Coeff_t d = root * b[i_t + 1];	
-	if (subtraction_precision(b[i_b-1], a[i_b]) > addition_precision(a[i_t+1], d)) {
-	  b[i_b] = (b[i_b-1] - a[i_b]) / root;
-	  ++i_b;
-	} else {
-	  b[i_t] = a[i_t+1] + d;
-	  --i_t;
+    //The recurrences are stable up to (from below) and down to (from
+    //above) the largest term of the polynomial at the root, so they
+    //are joined there (Peters and Wilkinson, 1971).
+    size_t join = 0;
+    double largest = -std::numeric_limits<double>::infinity();
+    for (size_t i(0); i <= Order; ++i) {
+	const double term = std::log2(std::abs(a[i])) + i * std::log2(std::abs(root));
+	if (term > largest) {
+	  largest = term;
+	  join = i;
 	}
     }
+
+    for (size_t i(1); (i < join) && (i < Order-1); ++i)
+	b[i] = (b[i-1] - a[i]) / root;
+    for (size_t i(Order-1); (i > join) && (i > 1); --i)
+	b[i-1] = a[i] + root * b[i];
     return b;
   }
 
-- 
2.43.0

