From f75201f23957857552b6432a0a238bf9f649c340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:02 +0000
Subject: [PATCH 01/33] fix: tokenize '>>' as right shift

The operator table mapped '>>' to the left shift token, so 'a >> b' was
evaluated as 'a << b'.
---
 src/token.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.cpp b/src/token.cpp
index 58a87b6..ceaf7f6 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -394,7 +394,7 @@ std::optional<Token> scanSyntax(Scanner& s)
         {"/", Token::OP_DIV},
         {"%", Token::OP_MOD},
         {"<<",Token::OP_LSHIFT},
-        {">>",Token::OP_LSHIFT},
+        {">>",Token::OP_RSHIFT},
         {"~", Token::OP_BITINV},
         {"|", Token::OP_BITOR},
         {"&", Token::OP_BITAND},
-- 
2.43.0


From b534980f0c1e631535609c19943ca793c9513bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:02 +0000
Subject: [PATCH 02/33] fix: require a digit after the binary base specifier

'0ba' passed the digit check (which accepted hexadecimal digits), the '0b'
was dropped and the rest was read as a word.
---
 src/token.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.cpp b/src/token.cpp
index ceaf7f6..7ff46cd 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -336,7 +336,7 @@ std::optional<Token> scanNumber(Scanner& s)
     else if (s.match("0b", Scanner::Skip))
         base = 2;
 
-    if (base != 10 && !isxdigit(s.at(0)))
+    if (base != 10 && !(base == 16 ? isxdigit(s.at(0)) : isdigit(s.at(0))))
         s.fail("Expected at least one digit after base specifier");
 
     if (isdigit(s.at(0)) || (s.at(0) == '.' && isdigit(s.at(1))) || base > 10) {
-- 
2.43.0


From 73186e19dbb8894c30e7350f71bc9be7eb36fdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:21 +0000
Subject: [PATCH 03/33] fix: detect integer literal overflow, read large float
 literals correctly

Literals of 2^63 and above overflowed a signed integer (undefined behaviour)
and produced arbitrary values, also for the integer part of floats such as
10000000000000000000.5. Zero with a huge exponent became NaN (0 * inf).
---
 src/token.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/token.cpp b/src/token.cpp
index 7ff46cd..fcd9879 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -7,6 +7,7 @@
 #include <cmath>
 #include <cstddef>
 #include <cstdint>
+#include <limits>
 #include <cassert>
 #include <ostream>
 #include <stdexcept>
@@ -341,21 +342,28 @@ std::optional<Token> scanNumber(Scanner& s)
 
     if (isdigit(s.at(0)) || (s.at(0) == '.' && isdigit(s.at(1))) || base > 10) {
         int64_t n = 0;
+        double d = 0;
+        auto overflow = false;
         while (isdigit(s.at(0)) || (base > 10 && isxdigit(s.at(0)))) {
-            n *= base;
-            n += chr2digit(s, base, s.pop());
+            const int64_t digit = chr2digit(s, base, s.pop());
+            d = d * base + static_cast<double>(digit);
+            if (overflow || n > (std::numeric_limits<int64_t>::max() - digit) / base)
+                overflow = true;
+            else
+                n = n * base + digit;
         }
 
         if (s.match(".", Scanner::Skip)) {
             if (base != 10)
                 s.fail("Decimal point is allowed for base 10 numbers only");
 
-            double f = n;
+            double f = overflow ? d : static_cast<double>(n);
             for (auto i = 1; isdigit(s.at(0)); ++i) {
                 f += (s.pop() - '0') / std::pow(10, i);
             }
 
-            f *= parseSciSuffix(s);
+            if (const auto sci = parseSciSuffix(s); f != 0.)
+                f *= sci;
             if (isalpha(s.at(0)) || s.at(0) == '.')
                 s.fail("Unexpected non-digit character");
 
@@ -364,9 +372,11 @@ std::optional<Token> scanNumber(Scanner& s)
 
         /* SCI notation results in float if exponent != 0 (=1) */
         if (auto sci = parseSciSuffix(s); sci != 1)
-            return Token(Token::FLOAT, n * sci, begin, s.pos());
+            return Token(Token::FLOAT, d == 0. ? 0. : d * sci, begin, s.pos());
         if (isalpha(s.at(0)) || s.at(0) == '.')
             s.fail("Unexpected non-digit character");
+        if (overflow)
+            s.fail("Integer literal out of range");
 
         return Token(Token::INT, n, begin, s.pos());
     }
-- 
2.43.0


From ebc48eb62b077a3601c4699c6a2c41d1c2f14aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:21 +0000
Subject: [PATCH 04/33] fix: reject NUL bytes instead of ignoring the rest of
 the expression

---
 src/token.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.cpp b/src/token.cpp
index fcd9879..e388eaa 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -444,7 +444,7 @@ std::vector<Token> tokenize(std::string_view expr)
         else if (auto t = scanSyntax(s))
             tokens.push_back(std::move(*t));
         else {
-            if (s.at(0) != '\0')
+            if (s)
                 s.fail("Invalid input");
             break;
         }
-- 
2.43.0


From 677508d0e570e5502d44fe2b8a2c511e3ddca21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:53 +0000
Subject: [PATCH 05/33] fix: relational operators bind tighter than equality

As documented. '1 == 2 < 3' was parsed as '(1 == 2) < 3'.
---
 src/simfil.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index a987a40..009713a 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -1359,10 +1359,10 @@ auto compile(Environment& env, std::string_view sv, bool any, bool autoWildcard)
     /* Comparison/Test */
     p.infixParsers[Token::OP_EQ]     = std::make_unique<BinaryOpParser<OperatorEq,   Precedence::EQUALITY>>();
     p.infixParsers[Token::OP_NOT_EQ] = std::make_unique<BinaryOpParser<OperatorNeq,  Precedence::EQUALITY>>();
-    p.infixParsers[Token::OP_LT]     = std::make_unique<BinaryOpParser<OperatorLt,   Precedence::EQUALITY>>();
-    p.infixParsers[Token::OP_LTEQ]   = std::make_unique<BinaryOpParser<OperatorLtEq, Precedence::EQUALITY>>();
-    p.infixParsers[Token::OP_GT]     = std::make_unique<BinaryOpParser<OperatorGt,   Precedence::EQUALITY>>();
-    p.infixParsers[Token::OP_GTEQ]   = std::make_unique<BinaryOpParser<OperatorGtEq, Precedence::EQUALITY>>();
+    p.infixParsers[Token::OP_LT]     = std::make_unique<BinaryOpParser<OperatorLt,   Precedence::COMPARISON>>();
+    p.infixParsers[Token::OP_LTEQ]   = std::make_unique<BinaryOpParser<OperatorLtEq, Precedence::COMPARISON>>();
+    p.infixParsers[Token::OP_GT]     = std::make_unique<BinaryOpParser<OperatorGt,   Precedence::COMPARISON>>();
+    p.infixParsers[Token::OP_GTEQ]   = std::make_unique<BinaryOpParser<OperatorGtEq, Precedence::COMPARISON>>();
     p.infixParsers[Token::OP_AND]    = std::make_unique<AndOrParser>();
     p.infixParsers[Token::OP_OR]     = std::make_unique<AndOrParser>();
 
-- 
2.43.0


From 313fe6f8397ab45e9125f73fe184405c10692ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:53 +0000
Subject: [PATCH 06/33] fix: postfix operators no longer swallow operators of
 lower precedence

After '?', '...' and unary word operators the rest of the expression was
parsed with precedence 0, so '2 * a? == b' became '2 * ((a?) == b)'. The
caller's infix loop already continues with the right precedence.
---
 src/simfil.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index 009713a..c7e09b7 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -1065,7 +1065,7 @@ class UnaryPostOpParser : public InfixParselet
 {
     auto parse(Parser& p, ExprPtr left, Token t) const -> ExprPtr override
     {
-        return p.parseInfix(simplifyOrForward(p.env, std::make_unique<UnaryExpr<Operator>>(std::move(left))), 0);
+        return simplifyOrForward(p.env, std::make_unique<UnaryExpr<Operator>>(std::move(left)));
     }
 
     auto precedence() const -> int override
@@ -1081,7 +1081,7 @@ class UnpackOpParser : public InfixParselet
 {
     auto parse(Parser& p, ExprPtr left, Token t) const -> ExprPtr override
     {
-        return p.parseInfix(simplifyOrForward(p.env, std::make_unique<UnpackExpr>(std::move(left))), 0);
+        return simplifyOrForward(p.env, std::make_unique<UnpackExpr>(std::move(left)));
     }
 
     auto precedence() const -> int override
@@ -1104,8 +1104,8 @@ class WordOpParser : public InfixParselet
                                                                                std::move(left),
                                                                                std::move(right)));
         /* Parse as unary operator */
-        return p.parseInfix(simplifyOrForward(p.env, std::make_unique<UnaryWordOpExpr>(std::move(t),
-                                                                                       std::move(left))), 0);
+        return simplifyOrForward(p.env, std::make_unique<UnaryWordOpExpr>(std::move(t),
+                                                                          std::move(left)));
     }
 
     auto precedence() const -> int override
-- 
2.43.0


From 41571e69270ff3bb71e0f562e888bd5c4d140d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:34 +0000
Subject: [PATCH 07/33] fix: do not fold expressions that are only partially
 constant

An expression yielding several values of which one is not known at compile
time, such as 'arr(a.b, 5)', was folded to the values following the unknown
one: some expressions keep on going after Result::Stop. The limit on the
number of folded values was checked for unknown values only, so unpacking a
large range was expanded at compile time without bound.
---
 src/simfil.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index c7e09b7..69ee851 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -920,20 +920,20 @@ static auto simplifyOrForward(Environment* env, ExprPtr expr) -> ExprPtr
         return nullptr;
 
     std::deque<Value> values;
+    auto undefined = false;
     auto stub = Context(env, Context::Phase::Compilation);
-    (void)expr->eval(stub, Value::undef(), LambdaResultFn([&, n = 0](Context ctx, Value vv) mutable {
-        if (!vv.isa(ValueType::Undef) || vv.node) {
-            values.push_back(std::move(vv));
-            return Result::Continue;
-        }
+    (void)expr->eval(stub, Value::undef(), LambdaResultFn([&](Context ctx, Value vv) {
+        if (undefined)
+            return Result::Stop;
 
-        if (++n > MultiConstExpr::Limit) {
+        if ((vv.isa(ValueType::Undef) && !vv.node) || values.size() >= MultiConstExpr::Limit) {
+            undefined = true;
             values.clear();
             return Result::Stop;
         }
 
-        values.clear();
-        return Result::Stop;
+        values.push_back(std::move(vv));
+        return Result::Continue;
     }));
 
     /* Warn about constant results */
-- 
2.43.0


From 5db0ed85306dc8e30b83e6b7db2d70259038f376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:59 +0000
Subject: [PATCH 08/33] fix: propagate Result::Stop to the caller

'*', '...', split and expressions supplying a missing value as null dropped
the request to stop, so a stopped consumer was called again.
---
 src/function.cpp |  2 +-
 src/simfil.cpp   | 26 ++++++++++++--------------
 2 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/function.cpp b/src/function.cpp
index 716947a..4524394 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -508,7 +508,7 @@ auto SplitFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, con
     auto items = split(str.as<ValueType::String>(), sep.as<ValueType::String>(), !keepEmpty.as<ValueType::Bool>());
     for (auto&& item : items) {
         if (res(subctx, Value::make(std::move(item))) == Result::Stop)
-            break;
+            return Result::Stop;
     }
 
     return Result::Continue;
diff --git a/src/simfil.cpp b/src/simfil.cpp
index 69ee851..f9aea94 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -169,16 +169,17 @@ struct CountedResultFn : ResultFn
     }
 
     /* NOTE: You _must_ call finish before destruction! */
-    auto ensureCall()
+    auto ensureCall(Result result) -> Result
     {
         assert(!finished);
         if (calls == 0 && !finished) {
             finished = true;
             if (nonctx.phase == Context::Phase::Compilation)
-                fn(nonctx, Value::undef());
+                return fn(nonctx, Value::undef());
             else
-                fn(nonctx, Value::null());
+                return fn(nonctx, Value::null());
         }
+        return result;
     }
 };
 
@@ -227,8 +228,7 @@ public:
         };
 
         auto r = Iterate{ctx, res}.iterate(*val.node, 0);
-        res.ensureCall();
-        return r;
+        return res.ensureCall(r);
     }
 
     auto toString() const -> std::string override
@@ -268,7 +268,7 @@ public:
             return true;
         }));
 
-        return Result::Continue;
+        return result;
     }
 
     auto toString() const -> std::string override
@@ -457,8 +457,7 @@ public:
                 return Result::Continue;
             }));
         }));
-        res.ensureCall();
-        return r;
+        return res.ensureCall(r);
     }
 
     auto toString() const -> std::string override
@@ -505,8 +504,7 @@ public:
                 return Result::Continue;
             }));
         }));
-        res.ensureCall();
-        return r;
+        return res.ensureCall(r);
     }
 
     auto toString() const -> std::string override
@@ -608,8 +606,7 @@ public:
                 return res(ctx, std::move(vv));
             }));
         }));
-        res.ensureCall();
-        return r;
+        return res.ensureCall(r);
     };
 
     auto toString() const -> std::string override
@@ -646,7 +643,8 @@ public:
                 auto r = Result::Continue;
                 obj.meta->unpack(obj, [&](Value vv) {
                     anyval = true;
-                    return res(ctx, std::move(vv)) == Result::Continue;
+                    r = res(ctx, std::move(vv));
+                    return r == Result::Continue;
                 });
 
                 if (r == Result::Stop)
@@ -660,7 +658,7 @@ public:
         }));
 
         if (!anyval)
-            r = res(ctx, Value::null());
+            return res(ctx, Value::null());
         return r;
     }
 
-- 
2.43.0


From a0c13650c3e226d0193ffb61a2bf43fab408d9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:59 +0000
Subject: [PATCH 09/33] fix: '**' on a value that is no model node yields null

'(1).**' dereferenced a null model_ptr.
---
 src/simfil.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index f9aea94..c302dc7 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -227,7 +227,9 @@ public:
             };
         };
 
-        auto r = Iterate{ctx, res}.iterate(*val.node, 0);
+        auto r = Result::Continue;
+        if (val.node)
+            r = Iterate{ctx, res}.iterate(*val.node, 0);
         return res.ensureCall(r);
     }
 
-- 
2.43.0


From 3fecf18e9f04f1fdf8c46b700abb8177a452e4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:59 +0000
Subject: [PATCH 10/33] fix: select() no longer ends the evaluation of its
 caller, index + count overflow

After its last value select() returned Result::Stop to its caller, so
'arr(select(arr(1, 2, 3), 0), 9)' lost the 9. A large count overflowed.
---
 src/function.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/function.cpp b/src/function.cpp
index 4524394..a1c0eff 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -543,18 +543,21 @@ auto SelectFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, co
 
     auto iidx = idx.as<ValueType::Int>();
     auto icnt = cnt.as<ValueType::Int>();
-    if (icnt <= 0)
-        icnt = std::numeric_limits<int>::max();
+    auto iend = std::numeric_limits<int64_t>::max();
+    if (icnt > 0 && (iidx < 0 || icnt < iend - iidx))
+        iend = iidx + icnt;
 
-    auto result = args[0]->eval(ctx, val, LambdaResultFn([&, n = -1](Context ctx, Value vv) mutable {
+    /* Being done with the input must not stop the caller. */
+    auto result = Result::Continue;
+    (void)args[0]->eval(ctx, val, LambdaResultFn([&, n = int64_t(-1)](Context ctx, Value vv) mutable {
         ++n;
         if (ctx.phase == Context::Phase::Compilation)
             if (vv.isa(ValueType::Undef))
-                return res(ctx, std::move(vv));
-        if (n >= iidx + icnt)
+                return result = res(ctx, std::move(vv));
+        if (n >= iend)
             return Result::Stop;
         if (n >= iidx)
-            return res(ctx, std::move(vv));
+            return result = res(ctx, std::move(vv));
         return Result::Continue;
     }));
 
-- 
2.43.0


From b4c136858dffbc90b084ccecea3483cfeac3e093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:56 +0000
Subject: [PATCH 11/33] fix: sum() over values unknown at compile time is not
 folded

'sum(a.*, $sum + $val)' was evaluated at compile time with an undefined
input standing for null, and folded to the constant null.
---
 src/function.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/function.cpp b/src/function.cpp
index a1c0eff..5e00dea 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -586,13 +586,23 @@ auto SumFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, const
 
     const Expr* subexpr = args.size() >= 2 ? args[1].get() : nullptr;
     const Expr* initval = args.size() == 3 ? args[2].get() : nullptr;
+    auto undef = false; /* At least one value is not known yet */
     if (initval)
         (void)initval->eval(ctx, val, LambdaResultFn([&](Context ctx, Value vv) {
+            if (vv.isa(ValueType::Undef)) {
+                undef = true;
+                return Result::Stop;
+            }
             sum = std::move(vv);
             return Result::Continue;
         }));
 
-    (void)args[0]->eval(ctx, val, LambdaResultFn([&, n = 0](Context ctx, Value vv) mutable {
+    if (!undef) (void)args[0]->eval(ctx, val, LambdaResultFn([&, n = 0](Context ctx, Value vv) mutable {
+        if (vv.isa(ValueType::Undef)) {
+            undef = true;
+            return Result::Stop;
+        }
+
         if (subexpr) {
             auto ov = model_ptr<OverlayNode>::make(vv);
             ov->set(StringPool::OverlaySum, sum);
@@ -615,6 +625,8 @@ auto SumFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, const
         return Result::Continue;
     }));
 
+    if (undef)
+        return res(std::move(ctx), Value::undef());
     return res(std::move(ctx), sum);
 }
 
-- 
2.43.0


From 7cdf7f6e624ee69c1e7befa54497c4717ffbfe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:56 +0000
Subject: [PATCH 12/33] fix: OverlayNode::set replaces a value set before

In sum(), $sum kept its first value while the expression yielded further
values for the same element.
---
 src/overlay.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/overlay.cpp b/src/overlay.cpp
index 612ea8e..7b04ec1 100644
--- a/src/overlay.cpp
+++ b/src/overlay.cpp
@@ -20,7 +20,7 @@ OverlayNode::OverlayNode(ModelNode const& n)
 
 auto OverlayNode::set(StringId const& key, Value const& child) -> void
 {
-    model().overlayChildren_.insert({key, child});
+    model().overlayChildren_.insert_or_assign(key, child);
 }
 
 [[nodiscard]] ScalarValueType OverlayNode::value() const
-- 
2.43.0


From 956046582ceeca19611ca307da30de6a23a6e9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 13/33] fix: fields of an overlay over a plain value are null
 instead of an error

OverlayNode forwarded every access to the node of the value it overlays;
'sum(arr(1, 2), $sum + a)' dereferenced a null model_ptr, as constants have
no node.
---
 src/overlay.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/overlay.cpp b/src/overlay.cpp
index 7b04ec1..7100b6c 100644
--- a/src/overlay.cpp
+++ b/src/overlay.cpp
@@ -41,26 +41,36 @@ auto OverlayNode::set(StringId const& key, Value const& child) -> void
             return iter->second.node;
         return ValueNode(iter->second.getScalar());
     }
-    return model().value_.node->get(key);
+    if (auto const& node = model().value_.node)
+        return node->get(key);
+    return {};
 }
 
 [[nodiscard]] ModelNode::Ptr OverlayNode::at(int64_t i) const
 {
-    return model().value_.node->at(i);
+    if (auto const& node = model().value_.node)
+        return node->at(i);
+    return {};
 }
 
 [[nodiscard]] StringId OverlayNode::keyAt(int64_t i) const
 {
-    return model().value_.node->keyAt(i);
+    if (auto const& node = model().value_.node)
+        return node->keyAt(i);
+    return {};
 }
 
 [[nodiscard]] uint32_t OverlayNode::size() const
 {
-    return model().value_.node->size();
+    if (auto const& node = model().value_.node)
+        return node->size();
+    return 0;
 }
 
 [[nodiscard]] bool OverlayNode::iterate(IterCallback const& cb) const {
-    return model().value_.node->iterate(cb);
+    if (auto const& node = model().value_.node)
+        return node->iterate(cb);
+    return true;
 }
 
 }
-- 
2.43.0


From 5191bd68979e4c954085f2ecc6862f162feee1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 14/33] fix: dividing the smallest integer by -1 crashed

The quotient overflows, which raises SIGFPE for '/' and '%' on x86. Wrap
around as the other integer operators do.
---
 include/simfil/operator.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/simfil/operator.h b/include/simfil/operator.h
index 884eff0..b8b0252 100644
--- a/include/simfil/operator.h
+++ b/include/simfil/operator.h
@@ -435,6 +435,8 @@ struct OperatorDiv
     {
         if (r == 0)
             raise<std::runtime_error>("Division by zero");
+        if (r == -1) /* min / -1 overflows, which traps on some platforms */
+            return static_cast<int64_t>(0ull - static_cast<uint64_t>(l));
         return static_cast<int64_t>(l / r);
     }
 
@@ -470,6 +472,8 @@ struct OperatorMod
     {
         if (r == 0)
             raise<std::runtime_error>("Division by zero");
+        if (r == -1) /* min % -1 overflows, which traps on some platforms */
+            return 0;
         return static_cast<int64_t>(l % r);
     }
 };
-- 
2.43.0


From b4498a00591cd9230929c868f17eb2cf4a72bc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 15/33] fix: casting a float outside of the integer range to
 int returns 0

As documented for failing casts. The conversion was undefined behaviour.
---
 include/simfil/operator.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/simfil/operator.h b/include/simfil/operator.h
index b8b0252..e736cb4 100644
--- a/include/simfil/operator.h
+++ b/include/simfil/operator.h
@@ -209,6 +209,9 @@ struct OperatorAsInt
 
     auto operator()(double v) const
     {
+        /* Not representable (also NaN); casting would be undefined. */
+        if (!(v >= -0x1p63 && v < 0x1p63))
+            return (int64_t)0;
         return static_cast<int64_t>(v);
     }
 
-- 
2.43.0


From bbb92c6f41cd7641221add1307ad5af69d9dc322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 16/33] fix: type names of casts are case-insensitive

As documented for all of the syntax; '1 AS STRING' was rejected.
---
 src/simfil.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index c302dc7..acd1057 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -997,6 +997,9 @@ public:
             raise<std::runtime_error>("'as' expected typename got "s + type.toString());
 
         auto name = std::get<std::string>(type.value);
+        std::transform(name.begin(), name.end(), name.begin(), [](unsigned char c) {
+            return static_cast<char>(std::tolower(c));
+        });
         return simplifyOrForward(p.env, [&]() -> ExprPtr {
             if (name == strings::TypenameNull)
                 return std::make_unique<ConstExpr>(Value::null());
-- 
2.43.0


From dffb0ccac9fbff8ae1ca69b7ec6e7a770421dac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 17/33] fix: self-assignment of transient objects, copying and
 assigning moved-from ones

Self-assignment deleted the object before copying it, and a moved-from object
(without meta type) could not be copied or assigned to. The assignment
operators also returned a copy instead of a reference.
---
 include/simfil/transient.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/simfil/transient.h b/include/simfil/transient.h
index 03f27de..5f08c25 100644
--- a/include/simfil/transient.h
+++ b/include/simfil/transient.h
@@ -50,14 +50,19 @@ struct TransientObject
     void* data = nullptr;
 
     TransientObject(const TransientObject& other)
-        : meta(other.meta), data(meta->copy(other.data))
+        : meta(other.meta), data(other.meta ? other.meta->copy(other.data) : nullptr)
     {}
 
-    auto operator=(const TransientObject& other)
+    auto operator=(const TransientObject& other) -> TransientObject&
     {
-        meta->deinit(data);
+        if (this == &other)
+            return *this;
+
+        auto copy = other.meta ? other.meta->copy(other.data) : nullptr;
+        if (meta)
+            meta->deinit(data);
         meta = other.meta;
-        data = meta->copy(other.data);
+        data = copy;
         return *this;
     }
 
@@ -69,9 +74,13 @@ struct TransientObject
         other.data = nullptr;
     }
 
-    auto operator=(TransientObject&& other)
+    auto operator=(TransientObject&& other) -> TransientObject&
     {
-        meta->deinit(data);
+        if (this == &other)
+            return *this;
+
+        if (meta)
+            meta->deinit(data);
         meta = std::move(other.meta);
         data = std::move(other.data);
         other.meta = nullptr;
-- 
2.43.0


From d09dbe4087dd0b424efff4d1354cd90b4f1c411b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:33 +0000
Subject: [PATCH 18/33] fix: JSON documents containing null can be read

---
 src/model/json.cpp  | 3 ++-
 src/model/model.cpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/model/json.cpp b/src/model/json.cpp
index 06728b4..e2f1b00 100644
--- a/src/model/json.cpp
+++ b/src/model/json.cpp
@@ -13,7 +13,8 @@ static ModelNode::Ptr build(const json& j, ModelPool & model)
 {
     switch (j.type()) {
     case json::value_t::null:
-        return {};
+        // The index is ignored, but an all-zero address is no valid reference.
+        return ModelNode::Ptr::make(model.shared_from_this(), ModelNodeAddress{ModelPool::Null, 1});
     case json::value_t::boolean:
         return model.newSmallValue(j.get<bool>());
     case json::value_t::number_float:
diff --git a/src/model/model.cpp b/src/model/model.cpp
index 85af8dc..02736ff 100644
--- a/src/model/model.cpp
+++ b/src/model/model.cpp
@@ -22,7 +22,7 @@ void Model::resolve(const ModelNode& n, const ResolveFn& cb) const
 {
     switch (n.addr_.column()) {
         case Null:
-            cb(ModelNodeBase(shared_from_this()));
+            cb(ModelNodeBase(shared_from_this(), n.addr_));
             break;
         case UInt16:
             cb(SmallValueNode<uint16_t>(shared_from_this(), n.addr_));
-- 
2.43.0


From fb8b81dfd14a6b95841de7cef3fdc891f41a1247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:16 +0000
Subject: [PATCH 19/33] fix: evaluating one expression from several threads is
 no data race

---
 src/simfil.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index acd1057..5ad69aa 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -12,6 +12,7 @@
 #include "fmt/core.h"
 
 #include <algorithm>
+#include <atomic>
 #include <cctype>
 #include <cstdint>
 #include <iterator>
@@ -303,16 +304,19 @@ public:
         if (!val.node)
             return res(ctx, Value::null());
 
-        if (!nameId_)
-            nameId_ = ctx.env->strings()->get(name_);
+        auto nameId = nameId_.load(std::memory_order_relaxed);
+        if (!nameId) {
+            nameId = ctx.env->strings()->get(name_);
+            nameId_.store(nameId, std::memory_order_relaxed);
+        }
 
-        if (!nameId_)
+        if (!nameId)
             /* If the field name is not in the string cache, then there
                is no field with that name. */
             return res(ctx, Value::null());
 
         /* Enter sub-node */
-        if (auto sub = val.node->get(nameId_)) {
+        if (auto sub = val.node->get(nameId)) {
             return res(ctx, Value::field(*sub));
         }
 
@@ -327,7 +331,7 @@ public:
     }
 
     std::string name_;
-    mutable StringId nameId_ = {};
+    mutable std::atomic<StringId> nameId_ = {}; /* Cache; expressions are evaluated concurrently */
 };
 
 class MultiConstExpr : public Expr
@@ -533,13 +537,16 @@ public:
 
     auto ieval(Context ctx, Value val, const ResultFn& res) const -> Result override
     {
-        if (!fn_)
-            fn_ = ctx.env->findFunction(name_);
-        if (!fn_)
+        auto fn = fn_.load(std::memory_order_relaxed);
+        if (!fn) {
+            fn = ctx.env->findFunction(name_);
+            fn_.store(fn, std::memory_order_relaxed);
+        }
+        if (!fn)
             raise<std::runtime_error>("Unknown function "s + name_);
 
         auto anyval = false;
-        auto result = fn_->eval(ctx, val, args_, LambdaResultFn([&res, &anyval](Context ctx, Value vv) {
+        auto result = fn->eval(ctx, val, args_, LambdaResultFn([&res, &anyval](Context ctx, Value vv) {
             anyval = true;
             return res(ctx, std::move(vv));
         }));
@@ -563,7 +570,7 @@ public:
 
     std::string name_;
     std::vector<ExprPtr> args_;
-    mutable const Function* fn_;
+    mutable std::atomic<const Function*> fn_; /* Cache; expressions are evaluated concurrently */
 };
 
 class PathExpr : public Expr
-- 
2.43.0


From e4a027e723fb5d112687b0a74eb2224b71f14a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:16 +0000
Subject: [PATCH 20/33] fix: a copied string pool no longer refers to strings
 of the original

---
 src/model/string-pool.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index dcc7bfc..df0a57a 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -81,8 +81,10 @@ StringPool::StringPool(const StringPool& other)
         }
     }
 
-    // Copy stringForId_.
-    stringForId_ = other.stringForId_;
+    // Rebuild stringForId_ with new string_views pointing into this->storedStrings_.
+    for (const auto& [id, oldStrView] : other.stringForId_) {
+        stringForId_.emplace(id, strDataToNewStrView.at(oldStrView.data()));
+    }
 
     // Copy other member variables.
     nextId_ = other.nextId_;
-- 
2.43.0


From 41f7d844df314969a331ead04499b34134c9baf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 21/33] fix: a full string pool stays intact when another
 string is refused

---
 src/model/string-pool.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index df0a57a..c9ac39c 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -7,6 +7,7 @@
 #include <fmt/core.h>
 #include <algorithm>
 #include <cmath>
+#include <limits>
 #include <mutex>
 #include <stdexcept>
 #include <locale>
@@ -112,12 +113,13 @@ StringId StringPool::emplace(std::string_view const& str)
             return it->second;
         }
 
+        if (nextId_ == std::numeric_limits<StringId>::max()) {
+            raise<std::overflow_error>("StringPool id overflow!");
+        }
+
         // Store the string to maintain ownership.
         auto& storedString = storedStrings_.emplace_back(str);
         StringId id = nextId_++;
-        if (nextId_ < id) {
-            raise<std::overflow_error>("StringPool id overflow!");
-        }
         idForString_.emplace(storedString, id);
         stringForId_.emplace(id, storedString);
         byteSize_ += static_cast<int64_t>(storedString.size());
-- 
2.43.0


From cd5b0640391b4eda70cd2175ff068ab416747310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 22/33] fix: StringPool::highest() reads the id counter under
 the lock

---
 src/model/string-pool.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index c9ac39c..08bfe3d 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -151,6 +151,7 @@ std::optional<std::string_view> StringPool::resolve(const StringId& id) const
 
 StringId StringPool::highest() const
 {
+    std::shared_lock stringStoreReadAccess_(stringStoreMutex_);
     return nextId_ - 1;
 }
 
@@ -190,7 +191,7 @@ void StringPool::write(std::ostream& outputStream, const StringId offset) const
 
     // Calculate how many strings will be sent
     StringId sendStrCount = 0;
-    const auto high = highest();
+    const StringId high = nextId_ - 1;
     for (auto strId = offset; strId <= high; ++strId) {
         auto it = stringForId_.find(strId);
         if (it != stringForId_.end())
-- 
2.43.0


From fb9ca1765a3fd121d628b66ea8dfed65b22d90e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 23/33] fix: reading a truncated string pool does not insert
 partial strings

---
 src/model/string-pool.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index 08bfe3d..56c2fcd 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -228,6 +228,11 @@ void StringPool::read(std::istream& inputStream)
         // Don't support strings longer than 64kB.
         auto& stringValue = storedStrings_.emplace_back();
         s.text1b(stringValue, std::numeric_limits<uint16_t>::max());
+        if (s.adapter().error() != bitsery::ReaderError::NoError) {
+            // Do not insert a string that was only partially received.
+            storedStrings_.pop_back();
+            break;
+        }
 
         // Insert string into the pool
         auto [it, insertionTookPlace] = idForString_.try_emplace(stringValue, stringId);
-- 
2.43.0


From 3ff5653dd0e04a81489b9b8a7cf056e8b8030385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 24/33] fix: reading a truncated model stops at the end of the
 input

---
 include/simfil/model/bitsery-traits.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/simfil/model/bitsery-traits.h b/include/simfil/model/bitsery-traits.h
index a2318c4..956bd42 100644
--- a/include/simfil/model/bitsery-traits.h
+++ b/include/simfil/model/bitsery-traits.h
@@ -61,11 +61,13 @@ struct ArrayArenaExt
     template <typename S, typename ElementType, size_t PageSize, size_t ChunkPageSize, typename Fnc>
     void deserialize(S& s, simfil::ArrayArena<ElementType, PageSize, ChunkPageSize>& arena, Fnc&& fnc) const
     {
-        simfil::ArrayIndex numArrays;
+        simfil::ArrayIndex numArrays = 0;
         s.value4b(numArrays);
         for (simfil::ArrayIndex i = 0; i < numArrays; ++i) {
-            typename std::decay_t<decltype(arena)>::SizeType size;
+            typename std::decay_t<decltype(arena)>::SizeType size = 0;
             s.value4b(size);
+            if (s.adapter().error() != ReaderError::NoError)
+                return;
             auto arrayIndex = arena.new_array(size);
             for (size_t j = 0; j < size; ++j)
                 fnc(s, arena.emplace_back(arrayIndex));
-- 
2.43.0


From 7c9a2d0ce25ea4b17e493e24f86058336aa6f606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:32 +0000
Subject: [PATCH 25/33] fix: iterating an array of a thread-safe arena while
 others grow is no data race

---
 include/simfil/model/arena.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/simfil/model/arena.h b/include/simfil/model/arena.h
index a9994fb..d850613 100644
--- a/include/simfil/model/arena.h
+++ b/include/simfil/model/arena.h
@@ -291,9 +291,9 @@ public:
     const_iterator end(ArrayIndex const& a) const { return const_iterator(*this, a, size(a)); }
 
     ArrayArenaIterator begin() { return ArrayArenaIterator(*this, 0); }
-    ArrayArenaIterator end() { return ArrayArenaIterator(*this, static_cast<ArrayIndex>(heads_.size())); }
+    ArrayArenaIterator end() { return ArrayArenaIterator(*this, static_cast<ArrayIndex>(size())); }
     ArrayArenaIterator begin() const { return ArrayArenaIterator(*this, 0); }
-    ArrayArenaIterator end() const { return ArrayArenaIterator(*this, static_cast<ArrayIndex>(heads_.size())); }
+    ArrayArenaIterator end() const { return ArrayArenaIterator(*this, static_cast<ArrayIndex>(size())); }
 
     ArrayRange range(ArrayIndex const& array) {return ArrayRange(begin(array), end(array));}
 
@@ -302,23 +302,34 @@ public:
     template <typename Func>
     void iterate(ArrayIndex const& a, Func&& lambda)
     {
+        #ifdef ARRAY_ARENA_THREAD_SAFE
+        // The lock must not be held while the lambda runs, as it may use the arena.
+        std::shared_lock guard(lock_);
+        #endif
         Chunk const* current = &heads_[a];
         size_t globalIndex = 0;
         while (current != nullptr)
         {
             for (size_t i = 0; i < current->size && i < current->capacity; ++i)
             {
+                auto& element = data_[current->offset + i];
+                #ifdef ARRAY_ARENA_THREAD_SAFE
+                guard.unlock();
+                #endif
                 if constexpr (std::is_invocable_r_v<bool, Func, ElementType_&>) {
                     // If lambda returns bool, break if it returns false
-                    if (!lambda(data_[current->offset + i]))
+                    if (!lambda(element))
                         return;
                 }
                 else if constexpr (std::is_invocable_v<Func, ElementType_&, size_t>) {
                     // If lambda takes two arguments, pass the current index
-                    lambda(data_[current->offset + i], globalIndex);
+                    lambda(element, globalIndex);
                 }
                 else
-                    lambda(data_[current->offset + i]);
+                    lambda(element);
+                #ifdef ARRAY_ARENA_THREAD_SAFE
+                guard.lock();
+                #endif
                 ++globalIndex;
             }
             current = (current->next != InvalidArrayIndex) ? &continuations_[current->next] : nullptr;
-- 
2.43.0


From e2c6ffa866cd81a3ca5df069ff99725df56abf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:32 +0000
Subject: [PATCH 26/33] fix: JSON integers of 2^63 and more no longer turn
 negative

---
 src/model/json.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/model/json.cpp b/src/model/json.cpp
index e2f1b00..0234dff 100644
--- a/src/model/json.cpp
+++ b/src/model/json.cpp
@@ -3,6 +3,7 @@
 #include "simfil/model/json.h"
 #include "simfil/model/model.h"
 
+#include <limits>
 #include <nlohmann/json.hpp>
 
 namespace simfil::json
@@ -20,6 +21,9 @@ static ModelNode::Ptr build(const json& j, ModelPool & model)
     case json::value_t::number_float:
         return model.newValue(j.get<double>());
     case json::value_t::number_unsigned:
+        // Like any other number out of the integer range, this is a float.
+        if (j.get<uint64_t>() > (uint64_t)std::numeric_limits<int64_t>::max())
+            return model.newValue(j.get<double>());
         return model.newValue((int64_t)j.get<uint64_t>());
     case json::value_t::number_integer:
         return model.newValue(j.get<int64_t>());
-- 
2.43.0


From 533c0d7a784c487bb5423f8754ad435baff346e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:15 +0000
Subject: [PATCH 27/33] fix: casting a model node to float yields a float

---
 include/simfil/operator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/simfil/operator.h b/include/simfil/operator.h
index e736cb4..3b76e42 100644
--- a/include/simfil/operator.h
+++ b/include/simfil/operator.h
@@ -261,7 +261,7 @@ struct OperatorAsFloat
 
     auto operator()(const ModelNode&) const
     {
-        return (int64_t)0.0;
+        return 0.0;
     }
 
     NULL_AS((double)0)
-- 
2.43.0


From c4d111901af0f1e96ce9438d90e5b7cb6a85f4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:59 +0000
Subject: [PATCH 28/33] fix: an upper case word on the left of '.' is a field
 name

---
 src/simfil.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index 5ad69aa..39c6494 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -1288,8 +1288,8 @@ class WordParser : public PrefixParselet
             auto arguments = p.parseList(Token::RPAREN);
             return simplifyOrForward(p.env, std::make_unique<CallExpression>(word, std::move(arguments)));
         } else if (!p.ctx.inPath) {
-            /* Parse Symbols (words in upper-case) */
-            if (isSymbolWord(word)) {
+            /* Parse Symbols (words in upper-case), but not at the start of a path */
+            if (!p.match(Token::DOT) && isSymbolWord(word)) {
                 return std::make_unique<ConstExpr>(Value::make<std::string>(std::move(word)));
             }
             /* Constant */
-- 
2.43.0


From 46171320035cc52c2aeb6df38aea4eca27f4cc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:45 +0000
Subject: [PATCH 29/33] fix: a float literal denotes the nearest double

---
 src/token.cpp | 58 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 23 deletions(-)

diff --git a/src/token.cpp b/src/token.cpp
index e388eaa..408ebb1 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -4,12 +4,13 @@
 #include "simfil/exception-handler.h"
 
 #include <cctype>
-#include <cmath>
 #include <cstddef>
 #include <cstdint>
 #include <limits>
+#include <locale>
 #include <cassert>
 #include <ostream>
+#include <sstream>
 #include <stdexcept>
 #include <string_view>
 #include <optional>
@@ -310,24 +311,33 @@ std::optional<Token> scanNumber(Scanner& s)
         return 0;
     };
 
-    const auto parseSciSuffix = [](Scanner& s)
+    /* Appends the SCI suffix to `text`; returns if the exponent is != 0 */
+    const auto parseSciSuffix = [](Scanner& s, std::string& text)
     {
+        auto nonZero = false;
         if (tolower(s.at(0)) == 'e') {
             s.pop();
 
-            const auto neg = s.match("-", Scanner::Skip);
-            double exp = 0;
+            text += s.match("-", Scanner::Skip) ? "e-0" : "e0";
             while (isdigit(s.at(0))) {
-                exp *= 10.;
-                exp += s.pop() - '0';
+                nonZero = nonZero || s.at(0) != '0';
+                text += s.pop();
             }
-
-            if (neg)
-                return 1.0 / std::pow(10.0, exp);
-            return std::pow(10.0, exp);
         }
 
-        return 1.0;
+        return nonZero;
+    };
+
+    /* Nearest double to the decimal number `text` */
+    const auto toDouble = [](const std::string& text)
+    {
+        std::istringstream stream(text);
+        stream.imbue(std::locale::classic());
+
+        double value = 0.;
+        if (!(stream >> value) && value != 0.)
+            return std::numeric_limits<double>::infinity();
+        return value;
     };
 
     const auto begin = s.pos();
@@ -342,11 +352,11 @@ std::optional<Token> scanNumber(Scanner& s)
 
     if (isdigit(s.at(0)) || (s.at(0) == '.' && isdigit(s.at(1))) || base > 10) {
         int64_t n = 0;
-        double d = 0;
         auto overflow = false;
+        std::string text;
         while (isdigit(s.at(0)) || (base > 10 && isxdigit(s.at(0)))) {
+            text += s.at(0);
             const int64_t digit = chr2digit(s, base, s.pop());
-            d = d * base + static_cast<double>(digit);
             if (overflow || n > (std::numeric_limits<int64_t>::max() - digit) / base)
                 overflow = true;
             else
@@ -357,22 +367,24 @@ std::optional<Token> scanNumber(Scanner& s)
             if (base != 10)
                 s.fail("Decimal point is allowed for base 10 numbers only");
 
-            double f = overflow ? d : static_cast<double>(n);
-            for (auto i = 1; isdigit(s.at(0)); ++i) {
-                f += (s.pop() - '0') / std::pow(10, i);
-            }
+            text = "0" + text + ".";
+            while (isdigit(s.at(0)))
+                text += s.pop();
+            text += "0";
 
-            if (const auto sci = parseSciSuffix(s); f != 0.)
-                f *= sci;
+            parseSciSuffix(s, text);
             if (isalpha(s.at(0)) || s.at(0) == '.')
                 s.fail("Unexpected non-digit character");
 
-            return Token(Token::FLOAT, f, begin, s.pos());
+            return Token(Token::FLOAT, toDouble(text), begin, s.pos());
         }
 
-        /* SCI notation results in float if exponent != 0 (=1) */
-        if (auto sci = parseSciSuffix(s); sci != 1)
-            return Token(Token::FLOAT, d == 0. ? 0. : d * sci, begin, s.pos());
+        if (base != 10 && !overflow)
+            text = std::to_string(n);
+
+        /* SCI notation results in float if exponent != 0 */
+        if (parseSciSuffix(s, text))
+            return Token(Token::FLOAT, toDouble(text), begin, s.pos());
         if (isalpha(s.at(0)) || s.at(0) == '.')
             s.fail("Unexpected non-digit character");
         if (overflow)
-- 
2.43.0


From 2b5ecef7f6ecdb04a42437b1ef86ee88609e8ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:29 +0000
Subject: [PATCH 30/33] fix: an undefined argument value at compile time does
 not count as a second one

---
 src/function.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/function.cpp b/src/function.cpp
index 5e00dea..b00b0db 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -74,15 +74,15 @@ struct ArgParser
 
         auto subctx = ctx;
         args[idx]->eval(subctx, value, LambdaResultFn([&, n = 0](Context, Value vv) mutable {
-            if (++n > 1)
-                raise<std::runtime_error>(fname + ": argument "s + name + " must return a single value"s);
-
             if (vv.isa(ValueType::Undef)) {
                 anyUndef = true;
                 outValue = std::move(vv);
-                return Result::Continue;
+                return Result::Stop;
             }
 
+            if (++n > 1)
+                raise<std::runtime_error>(fname + ": argument "s + name + " must return a single value"s);
+
             if (!vv.isa(type))
                 raise<std::runtime_error>(fname + ": invalid value type for argument '"s + name + "'"s);
 
@@ -105,15 +105,15 @@ struct ArgParser
 
         auto subctx = ctx;
         args[idx]->eval(subctx, value, LambdaResultFn([&, n = 0](Context, Value vv) mutable {
-            if (++n > 1)
-                raise<std::runtime_error>(fname + ": argument "s + name + " must return a single value"s);
-
             if (vv.isa(ValueType::Undef)) {
                 anyUndef = true;
                 outValue = std::move(vv);
-                return Result::Continue;
+                return Result::Stop;
             }
 
+            if (++n > 1)
+                raise<std::runtime_error>(fname + ": argument "s + name + " must return a single value"s);
+
             if (!vv.isa(type))
                 raise<std::runtime_error>(fname + ": invalid value type for argument '"s + name + "'"s);
 
-- 
2.43.0


From 13269092ea403f8927499de2ee88cf926d4c176a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 31/33] fix: sum() is not simplified if one of several values
 of its expression is unknown

While compiling, a value of the expression that is not known yet was taken
for the current sum, and the following values were calculated from it.
---
 src/function.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/function.cpp b/src/function.cpp
index b00b0db..f900f2e 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -609,11 +609,17 @@ auto SumFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, const
             ov->set(StringPool::OverlayValue, vv);
             ov->set(StringPool::OverlayIndex, Value::make((int64_t)n++));
 
-            subexpr->eval(ctx, Value::field(ov), LambdaResultFn([&ov, &sum](auto ctx, auto vv) {
+            subexpr->eval(ctx, Value::field(ov), LambdaResultFn([&ov, &sum, &undef](auto ctx, auto vv) {
+                if (vv.isa(ValueType::Undef)) {
+                    undef = true;
+                    return Result::Stop;
+                }
                 ov->set(StringPool::OverlaySum, vv);
                 sum = vv;
                 return Result::Continue;
             }));
+            if (undef)
+                return Result::Stop;
         } else {
             if (sum.isa(ValueType::Null)) {
                 sum = std::move(vv);
-- 
2.43.0


From cccba3d5c44f68003e33a120c9508970f24b469a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 32/33] fix: deeply nested expressions overflow the stack

---
 include/simfil/parser.h |  5 +++++
 src/parser.cpp          | 14 +++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/simfil/parser.h b/include/simfil/parser.h
index ab0e2b9..be66f06 100644
--- a/include/simfil/parser.h
+++ b/include/simfil/parser.h
@@ -100,8 +100,13 @@ private:
     auto findPrefixParser(const Token& t) const -> const PrefixParselet*;
     auto findInfixParser(const Token& t) const -> const InfixParselet*;
 
+    /* Limit for the depth of expressions, which are parsed and evaluated recursively. */
+    static constexpr int MaxDepth = 1000;
+    auto enter() -> void;
+
     std::vector<Token> tokens_;
     std::size_t pos_;
+    int depth_ = 0;
 };
 
 }
diff --git a/src/parser.cpp b/src/parser.cpp
index 2f31015..3f1bb1b 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -64,9 +64,17 @@ auto Parser::precedence(Token token) const -> int
     return 0;
 }
 
+auto Parser::enter() -> void
+{
+    if (++depth_ > MaxDepth)
+        raise<std::runtime_error>("Expression is nested too deeply");
+}
+
 auto Parser::parseInfix(ExprPtr left, int prec) -> ExprPtr
 {
+    const auto depth = depth_;
     while (prec < precedence(current())) {
+        enter(); /* Each operator wraps the expression to its left */
         auto token = consume();
         auto parser = findInfixParser(token);
         if (!parser)
@@ -74,6 +82,7 @@ auto Parser::parseInfix(ExprPtr left, int prec) -> ExprPtr
 
         left = parser->parse(*this, std::move(left), token);
     }
+    depth_ = depth;
     return left;
 }
 
@@ -88,8 +97,11 @@ auto Parser::parsePrecedence(int precedence, bool optional) -> ExprPtr
     }
     consume();
 
+    enter();
     auto left = parser->parse(*this, token);
-    return parseInfix(std::move(left), precedence);
+    left = parseInfix(std::move(left), precedence);
+    --depth_;
+    return left;
 }
 
 auto Parser::parse() -> ExprPtr
-- 
2.43.0


From 72dd36d4e154448ae8e59b1295bdd461af066158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:46 +0000
Subject: [PATCH 33/33] fix: constant folding drops values which are not known
 yet

Paths, sub-queries and subscripts skipped undefined values during the
compilation phase, so the known values next to them were taken for the
whole result: 'arr(a, 5){_ > 0}' was folded to 5.
---
 src/simfil.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index 39c6494..d8a8565 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -184,6 +184,17 @@ struct CountedResultFn : ResultFn
     }
 };
 
+/**
+ * A value which is not known yet must not get lost in the compilation phase:
+ * The known values next to it are not all of the result.
+ */
+static auto forwardUndef(const Context& ctx, const ResultFn& res) -> Result
+{
+    if (ctx.phase == Context::Phase::Compilation)
+        return res(ctx, Value::undef());
+    return Result::Continue;
+}
+
 class WildcardExpr : public Expr
 {
 public:
@@ -438,6 +449,9 @@ public:
             return index_->eval(ctx, val, LambdaResultFn([this, &res, &lval](Context ctx, Value ival) {
                 /* Field subscript */
                 if (lval.node) {
+                    if (ctx.phase == Context::Phase::Compilation && ival.isa(ValueType::Undef))
+                        return res(ctx, Value::undef());
+
                     ModelNode::Ptr node;
 
                     /* Array subscript */
@@ -502,7 +516,7 @@ public:
             return sub_->eval(ctx, lv, LambdaResultFn([&res, &lv](Context ctx, Value vv) {
                 auto bv = UnaryOperatorDispatcher<OperatorBool>::dispatch(vv);
                 if (bv.isa(ValueType::Undef))
-                    return Result::Continue;
+                    return forwardUndef(ctx, res);
 
                 if (bv.isa(ValueType::Bool) && bv.template as<ValueType::Bool>())
                     return res(ctx, lv);
@@ -600,14 +614,14 @@ public:
 
         auto r = left_->eval(ctx, val, LambdaResultFn([this, &res](Context ctx, Value v) {
             if (v.isa(ValueType::Undef))
-                return Result::Continue;
+                return forwardUndef(ctx, res);
 
             if (v.isa(ValueType::Null) && !v.node)
                 return Result::Continue;
 
             return right_->eval(ctx, std::move(v), LambdaResultFn([this, &res](Context ctx, Value vv) {
                 if (vv.isa(ValueType::Undef))
-                    return Result::Continue;
+                    return forwardUndef(ctx, res);
 
                 if (vv.isa(ValueType::Null) && !vv.node)
                     return Result::Continue;
-- 
2.43.0

