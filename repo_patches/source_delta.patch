From 456dca0f8d773ee29206057d8deaa6c896ada9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 01/24] fix: reject unmatched right parenthesis after a
 balanced pair instead of popping an empty stack

---
 single/include/tomsolver/tomsolver.h | 1 +
 src/tomsolver/parse.cpp              | 1 +
 2 files changed, 2 insertions(+)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 5cae8a4..ea986fa 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3534,6 +3534,7 @@ inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &
             if (parenthesisBalance == 0) {
                 throw SingleParseError(f.line, f.pos, f.content, "Parenthesis not match: \"", f.s, "\"");
             }
+            parenthesisBalance--;
             for (auto token = popToken(); token.node->op != MathOperator::MATH_LEFT_PARENTHESIS; token = popToken()) {
                 postOrder.emplace_back(std::move(token));
             }
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index 509ea18..4b0eb17 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -245,6 +245,7 @@ std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder
             if (parenthesisBalance == 0) {
                 throw SingleParseError(f.line, f.pos, f.content, "Parenthesis not match: \"", f.s, "\"");
             }
+            parenthesisBalance--;
             for (auto token = popToken(); token.node->op != MathOperator::MATH_LEFT_PARENTHESIS; token = popToken()) {
                 postOrder.emplace_back(std::move(token));
             }
-- 
2.43.0


From 58f256c6d78d955126d7229a8b96c9b61a85a01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 02/24] fix: reject expressions with missing operands in Parse
 instead of popping empty stacks or accepting them

---
 single/include/tomsolver/tomsolver.h | 21 +++++++++++++++++++++
 src/tomsolver/parse.cpp              | 21 +++++++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index ea986fa..c1857a4 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3491,12 +3491,17 @@ inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
 
     tryComfirmToken();
 
+    if (ret.empty()) {
+        throw SingleParseError(0, 0, content, "empty input");
+    }
+
     return ret;
 }
 
 inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder) {
     std::vector<Token> postOrder;
     int parenthesisBalance = 0;
+    bool expectOperand = true; // 当前位置是否缺少操作数
     std::stack<Token> tokenStack;
 
     auto popToken = [&tokenStack] {
@@ -3513,6 +3518,7 @@ inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &
         // 数字直接入栈
         case NodeType::NUMBER:
         case NodeType::VARIABLE:
+            expectOperand = false;
             postOrder.emplace_back(std::move(f));
             continue;
         case NodeType::OPERATOR:
@@ -3524,16 +3530,21 @@ inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &
         switch (f.node->op) {
         case MathOperator::MATH_LEFT_PARENTHESIS:
             parenthesisBalance++;
+            expectOperand = true;
             break;
 
         case MathOperator::MATH_POSITIVE:
         case MathOperator::MATH_NEGATIVE:
+            expectOperand = true;
             break;
 
         case MathOperator::MATH_RIGHT_PARENTHESIS:
             if (parenthesisBalance == 0) {
                 throw SingleParseError(f.line, f.pos, f.content, "Parenthesis not match: \"", f.s, "\"");
             }
+            if (expectOperand) {
+                throw SingleParseError(f.line, f.pos, f.content, "Missing operand before: \"", f.s, "\"");
+            }
             parenthesisBalance--;
             for (auto token = popToken(); token.node->op != MathOperator::MATH_LEFT_PARENTHESIS; token = popToken()) {
                 postOrder.emplace_back(std::move(token));
@@ -3549,6 +3560,10 @@ inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &
 
         default:
             // 不是括号也不是正负号
+            if (expectOperand && GetOperatorNum(f.node->op) == 2) {
+                throw SingleParseError(f.line, f.pos, f.content, "Missing operand before: \"", f.s, "\"");
+            }
+            expectOperand = true;
             if (!tokenStack.empty()) {
                 auto compare =
                     IsLeft2Right(f.node->op)
@@ -3574,6 +3589,12 @@ inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &
         tokenStack.push(std::move(f)); // 高优先级已全部挤出，当前符号入栈
     }
 
+    // 末尾缺少操作数。此时栈顶必为最后一个记号
+    if (expectOperand && !tokenStack.empty() && tokenStack.top().node->op != MathOperator::MATH_LEFT_PARENTHESIS) {
+        auto &token = tokenStack.top();
+        throw SingleParseError(token.line, token.pos, token.content, "Missing operand after: \"", token.s, "\"");
+    }
+
     // 剩下的元素全部入栈
     while (!tokenStack.empty()) {
         auto token = popToken();
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index 4b0eb17..61c2bad 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -202,12 +202,17 @@ std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
 
     tryComfirmToken();
 
+    if (ret.empty()) {
+        throw SingleParseError(0, 0, content, "empty input");
+    }
+
     return ret;
 }
 
 std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder) {
     std::vector<Token> postOrder;
     int parenthesisBalance = 0;
+    bool expectOperand = true; // 当前位置是否缺少操作数
     std::stack<Token> tokenStack;
 
     auto popToken = [&tokenStack] {
@@ -224,6 +229,7 @@ std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder
         // 数字直接入栈
         case NodeType::NUMBER:
         case NodeType::VARIABLE:
+            expectOperand = false;
             postOrder.emplace_back(std::move(f));
             continue;
         case NodeType::OPERATOR:
@@ -235,16 +241,21 @@ std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder
         switch (f.node->op) {
         case MathOperator::MATH_LEFT_PARENTHESIS:
             parenthesisBalance++;
+            expectOperand = true;
             break;
 
         case MathOperator::MATH_POSITIVE:
         case MathOperator::MATH_NEGATIVE:
+            expectOperand = true;
             break;
 
         case MathOperator::MATH_RIGHT_PARENTHESIS:
             if (parenthesisBalance == 0) {
                 throw SingleParseError(f.line, f.pos, f.content, "Parenthesis not match: \"", f.s, "\"");
             }
+            if (expectOperand) {
+                throw SingleParseError(f.line, f.pos, f.content, "Missing operand before: \"", f.s, "\"");
+            }
             parenthesisBalance--;
             for (auto token = popToken(); token.node->op != MathOperator::MATH_LEFT_PARENTHESIS; token = popToken()) {
                 postOrder.emplace_back(std::move(token));
@@ -260,6 +271,10 @@ std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder
 
         default:
             // 不是括号也不是正负号
+            if (expectOperand && GetOperatorNum(f.node->op) == 2) {
+                throw SingleParseError(f.line, f.pos, f.content, "Missing operand before: \"", f.s, "\"");
+            }
+            expectOperand = true;
             if (!tokenStack.empty()) {
                 auto compare =
                     IsLeft2Right(f.node->op)
@@ -285,6 +300,12 @@ std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder
         tokenStack.push(std::move(f)); // 高优先级已全部挤出，当前符号入栈
     }
 
+    // 末尾缺少操作数。此时栈顶必为最后一个记号
+    if (expectOperand && !tokenStack.empty() && tokenStack.top().node->op != MathOperator::MATH_LEFT_PARENTHESIS) {
+        auto &token = tokenStack.top();
+        throw SingleParseError(token.line, token.pos, token.content, "Missing operand after: \"", token.s, "\"");
+    }
+
     // 剩下的元素全部入栈
     while (!tokenStack.empty()) {
         auto token = popToken();
-- 
2.43.0


From 2e348f538ee0880e323f68d5a9cecbe31db2ef22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 03/24] fix: parse a function applied directly to another
 function (sin cos x) as nested prefix operators

---
 single/include/tomsolver/tomsolver.h | 7 ++++++-
 src/tomsolver/parse.cpp              | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index c1857a4..bac3519 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3560,7 +3560,12 @@ inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &
 
         default:
             // 不是括号也不是正负号
-            if (expectOperand && GetOperatorNum(f.node->op) == 2) {
+            if (IsFunction(f.node->op)) {
+                // 函数是前缀运算符，不能挤出尚未得到操作数的符号
+                expectOperand = true;
+                break;
+            }
+            if (expectOperand) {
                 throw SingleParseError(f.line, f.pos, f.content, "Missing operand before: \"", f.s, "\"");
             }
             expectOperand = true;
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index 61c2bad..ed71499 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -271,7 +271,12 @@ std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder
 
         default:
             // 不是括号也不是正负号
-            if (expectOperand && GetOperatorNum(f.node->op) == 2) {
+            if (IsFunction(f.node->op)) {
+                // 函数是前缀运算符，不能挤出尚未得到操作数的符号
+                expectOperand = true;
+                break;
+            }
+            if (expectOperand) {
                 throw SingleParseError(f.line, f.pos, f.content, "Missing operand before: \"", f.s, "\"");
             }
             expectOperand = true;
-- 
2.43.0


From 4dbb2debd3e126d5ffec337c39ea66c15d70a133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 04/24] fix: let Parse accept asin/acos/atan, the names
 ToString prints

---
 single/include/tomsolver/tomsolver.h | 3 +++
 src/tomsolver/parse.cpp              | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index bac3519..fc8c8ad 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3380,10 +3380,13 @@ inline MathOperator Str2Function(internal::StringView s) noexcept {
     case "tan"_fnv1a:
         return MathOperator::MATH_TAN;
     case "arcsin"_fnv1a:
+    case "asin"_fnv1a:
         return MathOperator::MATH_ARCSIN;
     case "arccos"_fnv1a:
+    case "acos"_fnv1a:
         return MathOperator::MATH_ARCCOS;
     case "arctan"_fnv1a:
+    case "atan"_fnv1a:
         return MathOperator::MATH_ARCTAN;
     case "sqrt"_fnv1a:
         return MathOperator::MATH_SQRT;
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index ed71499..992911f 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -91,10 +91,13 @@ MathOperator Str2Function(internal::StringView s) noexcept {
     case "tan"_fnv1a:
         return MathOperator::MATH_TAN;
     case "arcsin"_fnv1a:
+    case "asin"_fnv1a:
         return MathOperator::MATH_ARCSIN;
     case "arccos"_fnv1a:
+    case "acos"_fnv1a:
         return MathOperator::MATH_ARCCOS;
     case "arctan"_fnv1a:
+    case "atan"_fnv1a:
         return MathOperator::MATH_ARCTAN;
     case "sqrt"_fnv1a:
         return MathOperator::MATH_SQRT;
-- 
2.43.0


From 911b4ad24b3e0e85ecef6b9dce688fb8294cda65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 05/24] fix: parse numbers with a signed exponent (1e-5), the
 form ToString prints for very large and very small values

---
 single/include/tomsolver/tomsolver.h | 19 ++++++++++++++++++-
 src/tomsolver/parse.cpp              | 19 ++++++++++++++++++-
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index fc8c8ad..43e047b 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3341,6 +3341,21 @@ inline bool IsBasicOperator(char c) noexcept {
     return false;
 }
 
+/* iter处的正负号是否为科学计数法的指数符号（如1.5e-7、2E+16）。[begin, iter)为正在识别的记号。 */
+inline bool IsExponentSign(const char *begin, const char *iter, const char *end) noexcept {
+    auto isDigit = [](char c) {
+        return c >= '0' && c <= '9';
+    };
+    if ((*iter != '+' && *iter != '-') || iter - begin < 2 || (iter[-1] != 'e' && iter[-1] != 'E') || iter + 1 == end ||
+        !isDigit(iter[1])) {
+        return false;
+    }
+    auto mantissaEnd = iter - 1;
+    auto dots = std::count(begin, mantissaEnd, '.');
+    auto digits = std::count_if(begin, mantissaEnd, isDigit);
+    return dots <= 1 && digits >= 1 && dots + digits == mantissaEnd - begin;
+}
+
 /*  */
 inline MathOperator BaseOperatorCharToEnum(char c, bool unary) noexcept {
     switch (c) {
@@ -3475,7 +3490,9 @@ inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
     };
 
     while (iter != content.end()) {
-        if (IsBasicOperator(*iter)) {
+        if (IsExponentSign(nameIter, iter, content.end())) {
+            ++iter;
+        } else if (IsBasicOperator(*iter)) {
             tryComfirmToken();
             auto unaryOp = ret.empty() || (ret.back().node->type == NodeType::OPERATOR &&
                                            ret.back().node->op != MathOperator::MATH_RIGHT_PARENTHESIS);
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index 992911f..a5644fc 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -52,6 +52,21 @@ bool IsBasicOperator(char c) noexcept {
     return false;
 }
 
+/* iter处的正负号是否为科学计数法的指数符号（如1.5e-7、2E+16）。[begin, iter)为正在识别的记号。 */
+bool IsExponentSign(const char *begin, const char *iter, const char *end) noexcept {
+    auto isDigit = [](char c) {
+        return c >= '0' && c <= '9';
+    };
+    if ((*iter != '+' && *iter != '-') || iter - begin < 2 || (iter[-1] != 'e' && iter[-1] != 'E') ||
+        iter + 1 == end || !isDigit(iter[1])) {
+        return false;
+    }
+    auto mantissaEnd = iter - 1;
+    auto dots = std::count(begin, mantissaEnd, '.');
+    auto digits = std::count_if(begin, mantissaEnd, isDigit);
+    return dots <= 1 && digits >= 1 && dots + digits == mantissaEnd - begin;
+}
+
 /*  */
 MathOperator BaseOperatorCharToEnum(char c, bool unary) noexcept {
     switch (c) {
@@ -186,7 +201,9 @@ std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
     };
 
     while (iter != content.end()) {
-        if (IsBasicOperator(*iter)) {
+        if (IsExponentSign(nameIter, iter, content.end())) {
+            ++iter;
+        } else if (IsBasicOperator(*iter)) {
             tryComfirmToken();
             auto unaryOp = ret.empty() || (ret.back().node->type == NodeType::OPERATOR &&
                                            ret.back().node->op != MathOperator::MATH_RIGHT_PARENTHESIS);
-- 
2.43.0


From ac711860fc421c3224f2ea1707d0b064252294dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 06/24] fix: check variable names without std::regex, whose
 recursion overflows the stack on long names

---
 single/include/tomsolver/tomsolver.h | 11 ++++++++++-
 src/tomsolver/node.cpp               | 14 ++++++++++++--
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 43e047b..f3cd763 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -1630,7 +1630,16 @@ inline Node Op(MathOperator op) {
 }
 
 inline bool VarNameIsLegal(const std::string &varname) noexcept {
-    return std::regex_match(varname.begin(), varname.end(), std::regex{R"((?=\w)\D\w*)"});
+    // 不能用std::regex：它按字符递归，很长的变量名会耗尽栈空间
+    auto isLetter = [](char c) {
+        return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_';
+    };
+    auto isDigit = [](char c) {
+        return c >= '0' && c <= '9';
+    };
+    return !varname.empty() && isLetter(varname.front()) && std::all_of(varname.begin(), varname.end(), [&](char c) {
+        return isLetter(c) || isDigit(c);
+    });
 }
 
 inline Node Var(std::string varname) {
diff --git a/src/tomsolver/node.cpp b/src/tomsolver/node.cpp
index 2bc8831..6454977 100644
--- a/src/tomsolver/node.cpp
+++ b/src/tomsolver/node.cpp
@@ -3,13 +3,13 @@
 #include "config.h"
 #include "math_operator.h"
 
+#include <algorithm>
 #include <cassert>
 #include <forward_list>
 #include <functional>
 #include <iostream>
 #include <limits>
 #include <memory>
-#include <regex>
 #include <stack>
 #include <string>
 #include <type_traits>
@@ -661,7 +661,17 @@ Node Op(MathOperator op) {
 }
 
 bool VarNameIsLegal(const std::string &varname) noexcept {
-    return std::regex_match(varname.begin(), varname.end(), std::regex{R"((?=\w)\D\w*)"});
+    // 不能用std::regex：它按字符递归，很长的变量名会耗尽栈空间
+    auto isLetter = [](char c) {
+        return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_';
+    };
+    auto isDigit = [](char c) {
+        return c >= '0' && c <= '9';
+    };
+    return !varname.empty() && isLetter(varname.front()) &&
+           std::all_of(varname.begin(), varname.end(), [&](char c) {
+               return isLetter(c) || isDigit(c);
+           });
 }
 
 Node Var(std::string varname) {
-- 
2.43.0


From 592810ae31e40b490fd2c2a75206dbfc73af4d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 07/24] fix: show the whole input in parse diagnostics so that
 the caret points at the reported position

---
 single/include/tomsolver/tomsolver.h | 4 ++--
 src/tomsolver/parse.cpp              | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index f3cd763..a75ac23 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3458,7 +3458,7 @@ namespace internal {
 inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
 
     if (content.empty()) {
-        throw SingleParseError(0, 0, "empty input", content);
+        throw SingleParseError(0, 0, content, "empty input");
     }
 
     auto iter = content.begin(), nameIter = iter;
@@ -3491,7 +3491,7 @@ inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
             // 非运算符、数字、函数
             if (!VarNameIsLegal(expStr)) // 变量名首字符需为下划线或字母
             {
-                throw SingleParseError(token.line, token.pos, exp, "Invalid variable name: \"", exp, "\"");
+                throw SingleParseError(token.line, token.pos, content, "Invalid variable name: \"", exp, "\"");
             }
 
             token.node = Var(expStr);
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index a5644fc..23dad51 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -160,7 +160,7 @@ namespace internal {
 std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
 
     if (content.empty()) {
-        throw SingleParseError(0, 0, "empty input", content);
+        throw SingleParseError(0, 0, content, "empty input");
     }
 
     auto iter = content.begin(), nameIter = iter;
@@ -193,7 +193,7 @@ std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
             // 非运算符、数字、函数
             if (!VarNameIsLegal(expStr)) // 变量名首字符需为下划线或字母
             {
-                throw SingleParseError(token.line, token.pos, exp, "Invalid variable name: \"", exp, "\"");
+                throw SingleParseError(token.line, token.pos, content, "Invalid variable name: \"", exp, "\"");
             }
 
             token.node = Var(expStr);
-- 
2.43.0


From bd846f28c59bc778c1ad4550d5e279cdaf447546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 08/24] fix: differentiate exp of a variable by the chain rule,
 so d/dx exp(y) is 0

---
 single/include/tomsolver/tomsolver.h | 4 ----
 src/tomsolver/diff.cpp               | 4 ----
 2 files changed, 8 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index a75ac23..e0810ef 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -4281,10 +4281,6 @@ public:
                 return;
             }
 
-            // e^x=e^x
-            if (node->left->type == NodeType::VARIABLE)
-                return;
-
             // (e^u)' = e^u * u'
             auto u2 = Clone(node->left);
             q.emplace(*u2);
diff --git a/src/tomsolver/diff.cpp b/src/tomsolver/diff.cpp
index a83450e..b3ef1bf 100644
--- a/src/tomsolver/diff.cpp
+++ b/src/tomsolver/diff.cpp
@@ -241,10 +241,6 @@ public:
                 return;
             }
 
-            // e^x=e^x
-            if (node->left->type == NodeType::VARIABLE)
-                return;
-
             // (e^u)' = e^u * u'
             auto u2 = Clone(node->left);
             q.emplace(*u2);
-- 
2.43.0


From 5267be2d8be77ad469ef48e6d19d4f1826a06c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 09/24] fix: keep constants that have no valid value (1/0,
 log(-1)) unfolded in noexcept Simplify instead of terminating

---
 single/include/tomsolver/tomsolver.h | 28 +++++++++++++++++++---------
 src/tomsolver/simplify.cpp           | 27 ++++++++++++++++++---------
 2 files changed, 37 insertions(+), 18 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index e0810ef..0e955a3 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3010,14 +3010,28 @@ public:
     // 对单节点n进行化简。
     static void SimplifySingleNode(std::unique_ptr<NodeImpl> &n) noexcept {
         auto parent = n->parent;
+
+        // 计算常数。如果计算结果是无效值（比如1/0），返回false，表达式保持原样
+        auto calcConstant = [&n](double v1, double v2) {
+            double value;
+            try {
+                value = tomsolver::Calc(n->op, v1, v2);
+            } catch (const MathError &) {
+                return false;
+            }
+            n->type = NodeType::NUMBER;
+            n->value = value;
+            n->op = MathOperator::MATH_NULL;
+            n->left = nullptr;
+            n->right = nullptr;
+            return true;
+        };
+
         switch (GetOperatorNum(n->op)) {
         // 对于1元运算符，且儿子是数字的，直接计算出来
         case 1:
             if (n->left->type == NodeType::NUMBER) {
-                n->type = NodeType::NUMBER;
-                n->value = tomsolver::Calc(n->op, n->left->value, 0);
-                n->op = MathOperator::MATH_NULL;
-                n->left = nullptr;
+                calcConstant(n->left->value, 0);
             }
             break;
 
@@ -3025,11 +3039,7 @@ public:
         case 2:
             // 儿子是数字的，直接计算出来
             if (n->left->type == NodeType::NUMBER && n->right->type == NodeType::NUMBER) {
-                n->type = NodeType::NUMBER;
-                n->value = tomsolver::Calc(n->op, n->left->value, n->right->value);
-                n->op = MathOperator::MATH_NULL;
-                n->left = nullptr;
-                n->right = nullptr;
+                calcConstant(n->left->value, n->right->value);
                 return;
             }
 
diff --git a/src/tomsolver/simplify.cpp b/src/tomsolver/simplify.cpp
index 98a9558..0edb931 100644
--- a/src/tomsolver/simplify.cpp
+++ b/src/tomsolver/simplify.cpp
@@ -1,4 +1,5 @@
 #include "simplify.h"
+#include "error_type.h"
 #include "math_operator.h"
 #include "node.h"
 
@@ -23,14 +24,26 @@ public:
     // 对单节点n进行化简。
     static void SimplifySingleNode(std::unique_ptr<NodeImpl> &n) noexcept {
         auto parent = n->parent;
+
+        // 计算常数。如果计算结果是无效值（比如1/0），返回false，表达式保持原样
+        auto calcConstant = [&n](double v1, double v2) {
+            double value;
+            try {
+                value = tomsolver::Calc(n->op, v1, v2);
+            } catch (const MathError &) { return false; }
+            n->type = NodeType::NUMBER;
+            n->value = value;
+            n->op = MathOperator::MATH_NULL;
+            n->left = nullptr;
+            n->right = nullptr;
+            return true;
+        };
+
         switch (GetOperatorNum(n->op)) {
         // 对于1元运算符，且儿子是数字的，直接计算出来
         case 1:
             if (n->left->type == NodeType::NUMBER) {
-                n->type = NodeType::NUMBER;
-                n->value = tomsolver::Calc(n->op, n->left->value, 0);
-                n->op = MathOperator::MATH_NULL;
-                n->left = nullptr;
+                calcConstant(n->left->value, 0);
             }
             break;
 
@@ -38,11 +51,7 @@ public:
         case 2:
             // 儿子是数字的，直接计算出来
             if (n->left->type == NodeType::NUMBER && n->right->type == NodeType::NUMBER) {
-                n->type = NodeType::NUMBER;
-                n->value = tomsolver::Calc(n->op, n->left->value, n->right->value);
-                n->op = MathOperator::MATH_NULL;
-                n->left = nullptr;
-                n->right = nullptr;
+                calcConstant(n->left->value, n->right->value);
                 return;
             }
 
-- 
2.43.0


From ca956443dcdab02f8762f19800d72d4657f65992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 10/24] fix: let Jacobian report operators Diff does not
 support instead of terminating

---
 single/include/tomsolver/tomsolver.h | 6 +++---
 src/tomsolver/symmat.cpp             | 2 +-
 src/tomsolver/symmat.h               | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 0e955a3..8bec4fc 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2791,7 +2791,7 @@ protected:
     int rows, cols;
     std::unique_ptr<std::valarray<Node>> data;
 
-    friend SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept;
+    friend SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars);
 };
 
 class SymVec : public SymMat {
@@ -2816,7 +2816,7 @@ public:
     const Node &operator[](std::size_t index) const noexcept;
 };
 
-inline SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept;
+inline SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars);
 
 inline std::ostream &operator<<(std::ostream &out, const SymMat &symMat) noexcept;
 
@@ -4651,7 +4651,7 @@ inline const Node &SymVec::operator[](std::size_t index) const noexcept {
     return (*data)[index];
 }
 
-inline SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept {
+inline SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) {
     int rows = equations.rows;
     int cols = static_cast<int>(vars.size());
     SymMat ja(rows, cols);
diff --git a/src/tomsolver/symmat.cpp b/src/tomsolver/symmat.cpp
index 08ecb46..e9750d9 100644
--- a/src/tomsolver/symmat.cpp
+++ b/src/tomsolver/symmat.cpp
@@ -204,7 +204,7 @@ const Node &SymVec::operator[](std::size_t index) const noexcept {
     return (*data)[index];
 }
 
-SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept {
+SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) {
     int rows = equations.rows;
     int cols = static_cast<int>(vars.size());
     SymMat ja(rows, cols);
diff --git a/src/tomsolver/symmat.h b/src/tomsolver/symmat.h
index 9f4bda8..ed33e1d 100644
--- a/src/tomsolver/symmat.h
+++ b/src/tomsolver/symmat.h
@@ -97,7 +97,7 @@ protected:
     int rows, cols;
     std::unique_ptr<std::valarray<Node>> data;
 
-    friend SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept;
+    friend SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars);
 };
 
 class SymVec : public SymMat {
@@ -122,7 +122,7 @@ public:
     const Node &operator[](std::size_t index) const noexcept;
 };
 
-SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept;
+SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars);
 
 std::ostream &operator<<(std::ostream &out, const SymMat &symMat) noexcept;
 
-- 
2.43.0


From 4c11509fec1a7c90be31d0fded79cb3d1810050d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 11/24] fix: make % & | on values without an integer result an
 invalid value instead of a division trap or undefined conversion

---
 single/include/tomsolver/tomsolver.h | 22 +++++++++++++++++++---
 src/tomsolver/math_operator.cpp      | 22 +++++++++++++++++++---
 2 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 8bec4fc..a222047 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -1914,6 +1914,15 @@ inline bool IsFunction(MathOperator op) noexcept {
     return false;
 }
 
+namespace {
+
+/* 能否截断为int */
+inline bool CanTruncateToInt(double v) noexcept {
+    return v > std::numeric_limits<int>::min() - 1.0 && v < std::numeric_limits<int>::max() + 1.0;
+}
+
+} // namespace
+
 inline double Calc(MathOperator op, double v1, double v2) {
     double ret = std::numeric_limits<double>::quiet_NaN();
     switch (op) {
@@ -1958,13 +1967,20 @@ inline double Calc(MathOperator op, double v1, double v2) {
         break;
 
     case MathOperator::MATH_MOD: //%
-        ret = (int)v1 % (int)v2;
+        // 转换为64位整数，避免INT_MIN % -1溢出
+        if (CanTruncateToInt(v1) && CanTruncateToInt(v2) && (int)v2 != 0) {
+            ret = static_cast<double>((long long)v1 % (long long)v2);
+        }
         break;
     case MathOperator::MATH_AND: //&
-        ret = (int)v1 & (int)v2;
+        if (CanTruncateToInt(v1) && CanTruncateToInt(v2)) {
+            ret = (int)v1 & (int)v2;
+        }
         break;
     case MathOperator::MATH_OR: //|
-        ret = (int)v1 | (int)v2;
+        if (CanTruncateToInt(v1) && CanTruncateToInt(v2)) {
+            ret = (int)v1 | (int)v2;
+        }
         break;
 
     case MathOperator::MATH_POWER: //^
diff --git a/src/tomsolver/math_operator.cpp b/src/tomsolver/math_operator.cpp
index 0872c01..61f6d69 100644
--- a/src/tomsolver/math_operator.cpp
+++ b/src/tomsolver/math_operator.cpp
@@ -270,6 +270,15 @@ bool IsFunction(MathOperator op) noexcept {
     return false;
 }
 
+namespace {
+
+/* 能否截断为int */
+bool CanTruncateToInt(double v) noexcept {
+    return v > std::numeric_limits<int>::min() - 1.0 && v < std::numeric_limits<int>::max() + 1.0;
+}
+
+} // namespace
+
 double Calc(MathOperator op, double v1, double v2) {
     double ret = std::numeric_limits<double>::quiet_NaN();
     switch (op) {
@@ -314,13 +323,20 @@ double Calc(MathOperator op, double v1, double v2) {
         break;
 
     case MathOperator::MATH_MOD: //%
-        ret = (int)v1 % (int)v2;
+        // 转换为64位整数，避免INT_MIN % -1溢出
+        if (CanTruncateToInt(v1) && CanTruncateToInt(v2) && (int)v2 != 0) {
+            ret = static_cast<double>((long long)v1 % (long long)v2);
+        }
         break;
     case MathOperator::MATH_AND: //&
-        ret = (int)v1 & (int)v2;
+        if (CanTruncateToInt(v1) && CanTruncateToInt(v2)) {
+            ret = (int)v1 & (int)v2;
+        }
         break;
     case MathOperator::MATH_OR: //|
-        ret = (int)v1 | (int)v2;
+        if (CanTruncateToInt(v1) && CanTruncateToInt(v2)) {
+            ret = (int)v1 | (int)v2;
+        }
         break;
 
     case MathOperator::MATH_POWER: //^
-- 
2.43.0


From cdbc4978e94d643bb690c2e3a60b0a7b36ffa2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 12/24] fix: EachDivide divides a by b, not b by b

---
 single/include/tomsolver/tomsolver.h | 2 +-
 src/tomsolver/mat.cpp                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index a222047..05ee27a 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2292,7 +2292,7 @@ inline Mat operator*(double k, const Mat &mat) noexcept {
 inline Mat EachDivide(const Mat &a, const Mat &b) noexcept {
     assert(a.rows == b.rows);
     assert(a.cols == b.cols);
-    return {a.rows, b.cols, b.data / b.data};
+    return {a.rows, a.cols, a.data / b.data};
 }
 
 inline bool IsZero(const Mat &mat) noexcept {
diff --git a/src/tomsolver/mat.cpp b/src/tomsolver/mat.cpp
index ee1e783..171def6 100644
--- a/src/tomsolver/mat.cpp
+++ b/src/tomsolver/mat.cpp
@@ -270,7 +270,7 @@ Mat operator*(double k, const Mat &mat) noexcept {
 Mat EachDivide(const Mat &a, const Mat &b) noexcept {
     assert(a.rows == b.rows);
     assert(a.cols == b.cols);
-    return {a.rows, b.cols, b.data / b.data};
+    return {a.rows, a.cols, a.data / b.data};
 }
 
 bool IsZero(const Mat &mat) noexcept {
-- 
2.43.0


From eddf5825b862946aa2f525047c76bee71ae73f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 13/24] fix: SolveLinear detects rank deficiency when a column
 is skipped and checks every zero row for consistency

---
 single/include/tomsolver/tomsolver.h | 34 +++++++++++++---------------
 src/tomsolver/linear.cpp             | 34 +++++++++++++---------------
 2 files changed, 32 insertions(+), 36 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 05ee27a..255cdb8 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2544,36 +2544,34 @@ inline Vec SolveLinear(Mat A, Vec b) {
     std::vector<int> TrueRowNumber(cols);
 
     // 列主元消元法
-    for (auto y = 0, x = 0; y < rows && x < cols; y++, x++) {
+    for (auto y = 0, x = 0; y < rows; y++, x++) {
         // if (A[i].size() != rows)
 
-        // 从当前行(y)到最后一行(rows-1)中，找出x列最大的一行与y行交换
-        int maxAbsRowIndex = GetMaxAbsRowIndex(A, y, rows - 1, x);
-        A.SwapRow(y, maxAbsRowIndex);
-        b.SwapRow(y, maxAbsRowIndex);
+        // x一直递增到非0
+        for (; x < cols; x++) {
+            // 从当前行(y)到最后一行(rows-1)中，找出x列最大的一行与y行交换
+            int maxAbsRowIndex = GetMaxAbsRowIndex(A, y, rows - 1, x);
+            A.SwapRow(y, maxAbsRowIndex);
+            b.SwapRow(y, maxAbsRowIndex);
 
-        while (std::abs(A.Value(y, x)) < Config::Get().epsilon) // 如果当前值为0  x一直递增到非0
-        {
-            x++;
-            if (x == cols) {
+            if (!(std::abs(A.Value(y, x)) < Config::Get().epsilon)) {
                 break;
             }
-
-            // 交换本行与最大行
-            maxAbsRowIndex = GetMaxAbsRowIndex(A, y, rows - 1, x);
-            A.SwapRow(y, maxAbsRowIndex);
-            b.SwapRow(y, maxAbsRowIndex);
         }
 
-        if (x != cols && x > y) {
+        if (x < cols && x > y) {
             TrueRowNumber[y] = x; // 补齐方程时 当前行应换到x行
         }
 
-        if (x == cols) // 本行全为0
+        if (x >= cols) // 本行及以下各行全为0
         {
             RankA = y;
-            if (std::abs(b[y]) < Config::Get().epsilon) {
-                RankAb = y;
+            RankAb = y;
+            for (auto row = y; row < rows; row++) {
+                if (!(std::abs(b[row]) < Config::Get().epsilon)) {
+                    RankAb = rows;
+                    break;
+                }
             }
 
             if (RankA != RankAb) {
diff --git a/src/tomsolver/linear.cpp b/src/tomsolver/linear.cpp
index 2c680db..dbf0515 100644
--- a/src/tomsolver/linear.cpp
+++ b/src/tomsolver/linear.cpp
@@ -48,36 +48,34 @@ Vec SolveLinear(Mat A, Vec b) {
     std::vector<int> TrueRowNumber(cols);
 
     // 列主元消元法
-    for (auto y = 0, x = 0; y < rows && x < cols; y++, x++) {
+    for (auto y = 0, x = 0; y < rows; y++, x++) {
         // if (A[i].size() != rows)
 
-        // 从当前行(y)到最后一行(rows-1)中，找出x列最大的一行与y行交换
-        int maxAbsRowIndex = GetMaxAbsRowIndex(A, y, rows - 1, x);
-        A.SwapRow(y, maxAbsRowIndex);
-        b.SwapRow(y, maxAbsRowIndex);
+        // x一直递增到非0
+        for (; x < cols; x++) {
+            // 从当前行(y)到最后一行(rows-1)中，找出x列最大的一行与y行交换
+            int maxAbsRowIndex = GetMaxAbsRowIndex(A, y, rows - 1, x);
+            A.SwapRow(y, maxAbsRowIndex);
+            b.SwapRow(y, maxAbsRowIndex);
 
-        while (std::abs(A.Value(y, x)) < Config::Get().epsilon) // 如果当前值为0  x一直递增到非0
-        {
-            x++;
-            if (x == cols) {
+            if (!(std::abs(A.Value(y, x)) < Config::Get().epsilon)) {
                 break;
             }
-
-            // 交换本行与最大行
-            maxAbsRowIndex = GetMaxAbsRowIndex(A, y, rows - 1, x);
-            A.SwapRow(y, maxAbsRowIndex);
-            b.SwapRow(y, maxAbsRowIndex);
         }
 
-        if (x != cols && x > y) {
+        if (x < cols && x > y) {
             TrueRowNumber[y] = x; // 补齐方程时 当前行应换到x行
         }
 
-        if (x == cols) // 本行全为0
+        if (x >= cols) // 本行及以下各行全为0
         {
             RankA = y;
-            if (std::abs(b[y]) < Config::Get().epsilon) {
-                RankAb = y;
+            RankAb = y;
+            for (auto row = y; row < rows; row++) {
+                if (!(std::abs(b[row]) < Config::Get().epsilon)) {
+                    RankAb = rows;
+                    break;
+                }
             }
 
             if (RankA != RankAb) {
-- 
2.43.0


From 93636807bdef5ebf5785ff773ee44bca32cbf3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 14/24] fix: GetMaxAbsRowIndex returns a row of the range when
 the column contains nan

---
 single/include/tomsolver/tomsolver.h | 3 ++-
 src/tomsolver/mat.cpp                | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 255cdb8..ff9bb37 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2311,7 +2311,8 @@ inline bool AllIsLessThan(const Mat &v1, const Mat &v2) noexcept {
 inline int GetMaxAbsRowIndex(const Mat &A, int rowStart, int rowEnd, int col) noexcept {
     std::valarray<double> temp =
         std::valarray<double>(A.Col(col)[std::slice(rowStart, rowEnd - rowStart + 1, 1)]).apply(std::abs);
-    auto ret = std::distance(std::begin(temp), std::find(std::begin(temp), std::end(temp), temp.max())) + rowStart;
+    // 不能用temp.max()再查找：存在nan时会找不到
+    auto ret = std::distance(std::begin(temp), std::max_element(std::begin(temp), std::end(temp))) + rowStart;
     return static_cast<int>(ret);
 }
 
diff --git a/src/tomsolver/mat.cpp b/src/tomsolver/mat.cpp
index 171def6..ac125fe 100644
--- a/src/tomsolver/mat.cpp
+++ b/src/tomsolver/mat.cpp
@@ -289,7 +289,8 @@ bool AllIsLessThan(const Mat &v1, const Mat &v2) noexcept {
 int GetMaxAbsRowIndex(const Mat &A, int rowStart, int rowEnd, int col) noexcept {
     std::valarray<double> temp =
         std::valarray<double>(A.Col(col)[std::slice(rowStart, rowEnd - rowStart + 1, 1)]).apply(std::abs);
-    auto ret = std::distance(std::begin(temp), std::find(std::begin(temp), std::end(temp), temp.max())) + rowStart;
+    // 不能用temp.max()再查找：存在nan时会找不到
+    auto ret = std::distance(std::begin(temp), std::max_element(std::begin(temp), std::end(temp))) + rowStart;
     return static_cast<int>(ret);
 }
 
-- 
2.43.0


From 8261e4d27dfa075ee8dbccd8fbbca8bdf26b7c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 15/24] fix: start Newton-Raphson from the given initial values
 instead of applying its first step to zero

---
 single/include/tomsolver/tomsolver.h | 3 +--
 src/tomsolver/nonlinear.cpp          | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index ff9bb37..fa81c91 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3883,8 +3883,7 @@ inline void PrintAtIterationStart(int it) noexcept {
 inline VarsTable SolveByNewtonRaphson(const SymVec &equations, const VarsTable &varsTable) {
     int it = 0; // 迭代计数
     VarsTable table = varsTable;
-    int n = table.VarNums(); // 未知量数量
-    Vec q(n);                // x向量
+    Vec q = table.Values(); // x向量
     internal::PrintSolveStartInfo(equations, varsTable);
 
     SymMat JaEqs = Jacobian(equations, table.Vars());
diff --git a/src/tomsolver/nonlinear.cpp b/src/tomsolver/nonlinear.cpp
index dd1c74e..671e201 100644
--- a/src/tomsolver/nonlinear.cpp
+++ b/src/tomsolver/nonlinear.cpp
@@ -89,8 +89,7 @@ void PrintAtIterationStart(int it) noexcept {
 VarsTable SolveByNewtonRaphson(const SymVec &equations, const VarsTable &varsTable) {
     int it = 0; // 迭代计数
     VarsTable table = varsTable;
-    int n = table.VarNums(); // 未知量数量
-    Vec q(n);                // x向量
+    Vec q = table.Values();  // x向量
     internal::PrintSolveStartInfo(equations, varsTable);
 
     SymMat JaEqs = Jacobian(equations, table.Vars());
-- 
2.43.0


From 155ed29c834c1bfef89187137c1ead968f35cdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 16/24] fix: SolveByLM handles systems whose equations and
 unknowns differ in number, and its line search stops on invalid values

---
 single/include/tomsolver/tomsolver.h | 20 +++++++++++++++++---
 src/tomsolver/nonlinear.cpp          | 21 ++++++++++++++++++---
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index fa81c91..788a5b9 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3817,7 +3817,7 @@ inline double Armijo(const Vec &x, const Vec &d, std::function<Vec(Vec)> f, std:
 
         auto l = f(x_new).Norm2();
         auto r = (f(x).AsMat() + gamma * alpha * df(x).Transpose() * d).Norm2();
-        if (l <= r) // 检验条件
+        if (l <= r || r != r) // 检验条件。当前点的值无效(nan)时，缩小alpha没有意义
         {
             break;
         } else
@@ -3933,12 +3933,19 @@ inline VarsTable SolveByNewtonRaphson(const SymVec &equations, const VarsTable &
     return table;
 }
 
-inline VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable) {
+inline VarsTable SolveByLM(const SymVec &originalEquations, const VarsTable &varsTable) {
     int it = 0; // 迭代计数
     VarsTable table = varsTable;
     int n = table.VarNums(); // 未知量数量
     Vec q = table.Values();  // x向量
-    internal::PrintSolveStartInfo(equations, varsTable);
+    internal::PrintSolveStartInfo(originalEquations, varsTable);
+
+    // 若为不定方程组，空缺行全填0，使雅可比矩阵为方阵
+    int rows = originalEquations.Rows();
+    SymVec equations(std::max(rows, n));
+    for (int i = 0; i < equations.Rows(); ++i) {
+        equations[i] = i < rows ? Clone(originalEquations[i]) : Num(0);
+    }
 
     SymMat JaEqs = Jacobian(equations, table.Vars());
     internal::PrintJacobian(JaEqs);
@@ -3958,6 +3965,13 @@ inline VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable)
             break;
         }
 
+        if (rows > n) {
+            throw MathError(ErrorType::ERROR_OVER_DETERMINED_EQUATIONS);
+        }
+        if (rows < n && !Config::Get().allowIndeterminateEquation) {
+            throw MathError(ErrorType::ERROR_INDETERMINATE_EQUATION);
+        }
+
         Vec FNew(n);   // 下一轮F
         Vec deltaq(n); // Δq
         while (1) {
diff --git a/src/tomsolver/nonlinear.cpp b/src/tomsolver/nonlinear.cpp
index 671e201..c9e03d4 100644
--- a/src/tomsolver/nonlinear.cpp
+++ b/src/tomsolver/nonlinear.cpp
@@ -4,6 +4,7 @@
 #include "error_type.h"
 #include "linear.h"
 
+#include <algorithm>
 #include <cassert>
 #include <iostream>
 
@@ -23,7 +24,7 @@ double Armijo(const Vec &x, const Vec &d, std::function<Vec(Vec)> f, std::functi
 
         auto l = f(x_new).Norm2();
         auto r = (f(x).AsMat() + gamma * alpha * df(x).Transpose() * d).Norm2();
-        if (l <= r) // 检验条件
+        if (l <= r || r != r) // 检验条件。当前点的值无效(nan)时，缩小alpha没有意义
         {
             break;
         } else
@@ -139,12 +140,19 @@ VarsTable SolveByNewtonRaphson(const SymVec &equations, const VarsTable &varsTab
     return table;
 }
 
-VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable) {
+VarsTable SolveByLM(const SymVec &originalEquations, const VarsTable &varsTable) {
     int it = 0; // 迭代计数
     VarsTable table = varsTable;
     int n = table.VarNums(); // 未知量数量
     Vec q = table.Values();  // x向量
-    internal::PrintSolveStartInfo(equations, varsTable);
+    internal::PrintSolveStartInfo(originalEquations, varsTable);
+
+    // 若为不定方程组，空缺行全填0，使雅可比矩阵为方阵
+    int rows = originalEquations.Rows();
+    SymVec equations(std::max(rows, n));
+    for (int i = 0; i < equations.Rows(); ++i) {
+        equations[i] = i < rows ? Clone(originalEquations[i]) : Num(0);
+    }
 
     SymMat JaEqs = Jacobian(equations, table.Vars());
     internal::PrintJacobian(JaEqs);
@@ -164,6 +172,13 @@ VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable) {
             break;
         }
 
+        if (rows > n) {
+            throw MathError(ErrorType::ERROR_OVER_DETERMINED_EQUATIONS);
+        }
+        if (rows < n && !Config::Get().allowIndeterminateEquation) {
+            throw MathError(ErrorType::ERROR_INDETERMINATE_EQUATION);
+        }
+
         Vec FNew(n);   // 下一轮F
         Vec deltaq(n); // Δq
         while (1) {
-- 
2.43.0


From c271695322697b0b49bf7c758a2440378b986ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 17/24] fix: compound assignment operators on nodes work when
 both operands are the same object

---
 single/include/tomsolver/tomsolver.h | 26 ++++++++++++++++----------
 src/tomsolver/node.h                 | 26 ++++++++++++++++----------
 2 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 788a5b9..085e292 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -871,6 +871,17 @@ inline Node BinaryOperator(MathOperator op, T1 &&n1, T2 &&n2) noexcept {
     return ret;
 }
 
+/**
+ * 复合赋值：n1 = n1 op n2。先取得n2的值再移动n1，因此n1和n2可以是同一个对象。
+ */
+template <typename T>
+inline Node &AssignOperator(MathOperator op, Node &n1, T &&n2) noexcept {
+    Node rhs;
+    CopyOrMoveTo(nullptr, rhs, std::forward<T>(n2));
+    n1 = BinaryOperator(op, std::move(n1), std::move(rhs));
+    return n1;
+}
+
 /**
  * 新建一个运算符节点。
  */
@@ -925,8 +936,7 @@ inline SfinaeNode<T1, T2> operator+(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 inline SfinaeNode<T> &operator+=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_ADD, std::move(n1), std::forward<T>(n2));
-    return n1;
+    return internal::AssignOperator(MathOperator::MATH_ADD, n1, std::forward<T>(n2));
 }
 
 template <typename T1, typename T2>
@@ -946,8 +956,7 @@ inline SfinaeNode<T> operator+(T &&n1) noexcept {
 
 template <typename T>
 inline SfinaeNode<T> &operator-=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_SUB, std::move(n1), std::forward<T>(n2));
-    return n1;
+    return internal::AssignOperator(MathOperator::MATH_SUB, n1, std::forward<T>(n2));
 }
 
 template <typename T1, typename T2>
@@ -957,8 +966,7 @@ inline SfinaeNode<T1, T2> operator*(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 inline SfinaeNode<T> &operator*=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_MULTIPLY, std::move(n1), std::forward<T>(n2));
-    return n1;
+    return internal::AssignOperator(MathOperator::MATH_MULTIPLY, n1, std::forward<T>(n2));
 }
 
 template <typename T1, typename T2>
@@ -968,8 +976,7 @@ inline SfinaeNode<T1, T2> operator/(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 inline SfinaeNode<T> &operator/=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_DIVIDE, std::move(n1), std::forward<T>(n2));
-    return n1;
+    return internal::AssignOperator(MathOperator::MATH_DIVIDE, n1, std::forward<T>(n2));
 }
 
 template <typename T1, typename T2>
@@ -979,8 +986,7 @@ inline SfinaeNode<T1, T2> operator^(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 inline SfinaeNode<T> &operator^=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_POWER, std::move(n1), std::forward<T>(n2));
-    return n1;
+    return internal::AssignOperator(MathOperator::MATH_POWER, n1, std::forward<T>(n2));
 }
 
 } // namespace tomsolver
diff --git a/src/tomsolver/node.h b/src/tomsolver/node.h
index 353af17..ef6e087 100644
--- a/src/tomsolver/node.h
+++ b/src/tomsolver/node.h
@@ -184,6 +184,17 @@ Node BinaryOperator(MathOperator op, T1 &&n1, T2 &&n2) noexcept {
     return ret;
 }
 
+/**
+ * 复合赋值：n1 = n1 op n2。先取得n2的值再移动n1，因此n1和n2可以是同一个对象。
+ */
+template <typename T>
+Node &AssignOperator(MathOperator op, Node &n1, T &&n2) noexcept {
+    Node rhs;
+    CopyOrMoveTo(nullptr, rhs, std::forward<T>(n2));
+    n1 = BinaryOperator(op, std::move(n1), std::move(rhs));
+    return n1;
+}
+
 /**
  * 新建一个运算符节点。
  */
@@ -238,8 +249,7 @@ SfinaeNode<T1, T2> operator+(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 SfinaeNode<T> &operator+=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_ADD, std::move(n1), std::forward<T>(n2));
-    return n1;
+    return internal::AssignOperator(MathOperator::MATH_ADD, n1, std::forward<T>(n2));
 }
 
 template <typename T1, typename T2>
@@ -259,8 +269,7 @@ SfinaeNode<T> operator+(T &&n1) noexcept {
 
 template <typename T>
 SfinaeNode<T> &operator-=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_SUB, std::move(n1), std::forward<T>(n2));
-    return n1;
+    return internal::AssignOperator(MathOperator::MATH_SUB, n1, std::forward<T>(n2));
 }
 
 template <typename T1, typename T2>
@@ -270,8 +279,7 @@ SfinaeNode<T1, T2> operator*(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 SfinaeNode<T> &operator*=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_MULTIPLY, std::move(n1), std::forward<T>(n2));
-    return n1;
+    return internal::AssignOperator(MathOperator::MATH_MULTIPLY, n1, std::forward<T>(n2));
 }
 
 template <typename T1, typename T2>
@@ -281,8 +289,7 @@ SfinaeNode<T1, T2> operator/(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 SfinaeNode<T> &operator/=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_DIVIDE, std::move(n1), std::forward<T>(n2));
-    return n1;
+    return internal::AssignOperator(MathOperator::MATH_DIVIDE, n1, std::forward<T>(n2));
 }
 
 template <typename T1, typename T2>
@@ -292,8 +299,7 @@ SfinaeNode<T1, T2> operator^(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 SfinaeNode<T> &operator^=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_POWER, std::move(n1), std::forward<T>(n2));
-    return n1;
+    return internal::AssignOperator(MathOperator::MATH_POWER, n1, std::forward<T>(n2));
 }
 
 } // namespace tomsolver
-- 
2.43.0


From 66bf3a24220467083892a8e7c2d8f257f793a7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 18/24] fix: Mat built from rows of different lengths pads with
 zeros instead of reading past the shorter rows

---
 single/include/tomsolver/tomsolver.h | 4 +++-
 src/tomsolver/mat.cpp                | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 085e292..1976267 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2057,7 +2057,9 @@ inline Mat::Mat(std::initializer_list<std::initializer_list<double>> init) noexc
 
     auto i = 0;
     for (auto values : init) {
-        Row(i++) = values;
+        // 元素不足cols个的行，其余元素为0
+        std::copy(values.begin(), values.end(), std::begin(data) + i * cols);
+        i++;
     }
 }
 
diff --git a/src/tomsolver/mat.cpp b/src/tomsolver/mat.cpp
index ac125fe..72f1f10 100644
--- a/src/tomsolver/mat.cpp
+++ b/src/tomsolver/mat.cpp
@@ -30,7 +30,9 @@ Mat::Mat(std::initializer_list<std::initializer_list<double>> init) noexcept {
 
     auto i = 0;
     for (auto values : init) {
-        Row(i++) = values;
+        // 元素不足cols个的行，其余元素为0
+        std::copy(values.begin(), values.end(), std::begin(data) + i * cols);
+        i++;
     }
 }
 
-- 
2.43.0


From f19ec09855a1cf7f0712c64ee8638593ee865d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 19/24] fix: parse subnormal numbers, which ToString prints and
 std::stod rejects

---
 single/include/tomsolver/tomsolver.h | 19 +++++++++++--------
 src/tomsolver/parse.cpp              | 20 ++++++++++++--------
 2 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 1976267..0e20a08 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -5,9 +5,11 @@
 #include <array>
 #include <cassert>
 #include <cctype>
+#include <cerrno>
 #include <clocale>
 #include <cmath>
 #include <cstdio>
+#include <cstdlib>
 #include <cstring>
 #include <forward_list>
 #include <functional>
@@ -3505,14 +3507,15 @@ inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
 
             auto expStr = exp.toString();
             // 检验是否为浮点数
-            try {
-                std::size_t sz;
-                auto d = std::stod(expStr, &sz);
-                if (sz == expStr.size()) {
-                    token.node = Num(d);
-                    return;
-                }
-            } catch (...) {}
+            // 不用std::stod：它拒绝过小的数（如5e-324）
+            char *numEnd = nullptr;
+            errno = 0;
+            auto d = std::strtod(expStr.c_str(), &numEnd);
+            bool overflow = errno == ERANGE && std::abs(d) == HUGE_VAL;
+            if (numEnd == expStr.c_str() + expStr.size() && !overflow) {
+                token.node = Num(d);
+                return;
+            }
 
             auto op = Str2Function(exp);
             if (op != MathOperator::MATH_NULL) {
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index 23dad51..a680754 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -6,6 +6,9 @@
 #include <algorithm>
 #include <cassert>
 #include <cctype>
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
 #include <functional>
 #include <iterator>
 #include <sstream>
@@ -174,14 +177,15 @@ std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
 
             auto expStr = exp.toString();
             // 检验是否为浮点数
-            try {
-                std::size_t sz;
-                auto d = std::stod(expStr, &sz);
-                if (sz == expStr.size()) {
-                    token.node = Num(d);
-                    return;
-                }
-            } catch (...) {}
+            // 不用std::stod：它拒绝过小的数（如5e-324）
+            char *numEnd = nullptr;
+            errno = 0;
+            auto d = std::strtod(expStr.c_str(), &numEnd);
+            bool overflow = errno == ERANGE && std::abs(d) == HUGE_VAL;
+            if (numEnd == expStr.c_str() + expStr.size() && !overflow) {
+                token.node = Num(d);
+                return;
+            }
 
             auto op = Str2Function(exp);
             if (op != MathOperator::MATH_NULL) {
-- 
2.43.0


From 0e26b7c7f54b30507b9fff03ef7dc3d3a3a47c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 20/24] fix: initialise the number formats on first use, so
 that printing works during static initialisation

---
 single/include/tomsolver/tomsolver.h | 15 ++++++---------
 src/tomsolver/config.cpp             | 15 ++++++---------
 2 files changed, 12 insertions(+), 18 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 0e20a08..4b91d1d 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -480,20 +480,17 @@ inline std::string ToString(double value) noexcept;
 
 namespace tomsolver {
 
-namespace {
-
-static const std::tuple<const char *, std::regex> strategies[] = {
-    {"%.16e", std::regex{"\\.?0+(?=e)"}},
-    {"%.16f", std::regex{"\\.?0+(?=$)"}},
-};
-
-}
-
 inline std::string ToString(double value) noexcept {
     if (value == 0.0) {
         return "0";
     }
 
+    // 首次使用时才初始化：其他编译单元的静态对象初始化时也可能调用本函数
+    static const std::tuple<const char *, std::regex> strategies[] = {
+        {"%.16e", std::regex{"\\.?0+(?=e)"}},
+        {"%.16f", std::regex{"\\.?0+(?=$)"}},
+    };
+
     char buf[64];
 
     // 绝对值过大 或者 绝对值过小，应该使用科学计数法来表示
diff --git a/src/tomsolver/config.cpp b/src/tomsolver/config.cpp
index c642420..f6c4288 100644
--- a/src/tomsolver/config.cpp
+++ b/src/tomsolver/config.cpp
@@ -7,20 +7,17 @@
 
 namespace tomsolver {
 
-namespace {
-
-static const std::tuple<const char *, std::regex> strategies[] = {
-    {"%.16e", std::regex{"\\.?0+(?=e)"}},
-    {"%.16f", std::regex{"\\.?0+(?=$)"}},
-};
-
-}
-
 std::string ToString(double value) noexcept {
     if (value == 0.0) {
         return "0";
     }
 
+    // 首次使用时才初始化：其他编译单元的静态对象初始化时也可能调用本函数
+    static const std::tuple<const char *, std::regex> strategies[] = {
+        {"%.16e", std::regex{"\\.?0+(?=e)"}},
+        {"%.16f", std::regex{"\\.?0+(?=$)"}},
+    };
+
     char buf[64];
 
     // 绝对值过大 或者 绝对值过小，应该使用科学计数法来表示
-- 
2.43.0


From 82d1fa8305ac299d960176b20eb538dd45de67e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:39 +0000
Subject: [PATCH 21/24] fix: FindAlpha prints its message only from log level
 INFO on

---
 single/include/tomsolver/tomsolver.h | 4 +++-
 src/tomsolver/nonlinear.cpp          | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 4b91d1d..6a114f1 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3859,7 +3859,9 @@ inline double FindAlpha(const Vec &x, const Vec &d, std::function<Vec(Vec)> f, d
 
         // cout << it<<"\t"<<alpha_new << endl;
         if (it++ > maxIter) {
-            cout << "FindAlpha: over iterator" << endl;
+            if (Config::Get().logLevel >= LogLevel::INFO) {
+                cout << "FindAlpha: over iterator" << endl;
+            }
             break;
         }
     }
diff --git a/src/tomsolver/nonlinear.cpp b/src/tomsolver/nonlinear.cpp
index c9e03d4..60cda81 100644
--- a/src/tomsolver/nonlinear.cpp
+++ b/src/tomsolver/nonlinear.cpp
@@ -58,7 +58,9 @@ double FindAlpha(const Vec &x, const Vec &d, std::function<Vec(Vec)> f, double u
 
         // cout << it<<"\t"<<alpha_new << endl;
         if (it++ > maxIter) {
-            cout << "FindAlpha: over iterator" << endl;
+            if (Config::Get().logLevel >= LogLevel::INFO) {
+                cout << "FindAlpha: over iterator" << endl;
+            }
             break;
         }
     }
-- 
2.43.0


From 863ad3d49b0afa330c506ffac3cfc56aca8e5104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:18 +0000
Subject: [PATCH 22/24] fix: tomsolver.h includes error_type.h, so that
 MathError is known as with the single header

---
 src/tomsolver/tomsolver.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tomsolver/tomsolver.h b/src/tomsolver/tomsolver.h
index bbed204..7eff1d3 100644
--- a/src/tomsolver/tomsolver.h
+++ b/src/tomsolver/tomsolver.h
@@ -1,7 +1,8 @@
 #pragma once
 
 #include "config.h"
-#include "node.h" // error_type.h math_operator.h
+#include "error_type.h"
+#include "node.h" // math_operator.h
 #include "functions.h"
 #include "simplify.h"
 #include "diff.h"
-- 
2.43.0


From 96e862300ff0fc56d565e8bb265f92fb1aed0321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:07 +0000
Subject: [PATCH 23/24] fix: SolveByLM never ended with a negative iteration
 limit

---
 single/include/tomsolver/tomsolver.h | 4 ++--
 src/tomsolver/nonlinear.cpp          | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 6a114f1..5a575fc 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -4047,7 +4047,7 @@ inline VarsTable SolveByLM(const SymVec &originalEquations, const VarsTable &var
                 mu *= 10.0; // 扩大λ，使模型倾向梯度下降方向
             }
 
-            if (it++ == Config::Get().maxIterations) {
+            if (it++ >= Config::Get().maxIterations) {
                 throw runtime_error("迭代次数超出限制");
             }
         }
@@ -4058,7 +4058,7 @@ inline VarsTable SolveByLM(const SymVec &originalEquations, const VarsTable &var
 
         F = FNew; // 更新F
 
-        if (it++ == Config::Get().maxIterations) {
+        if (it++ >= Config::Get().maxIterations) {
             throw runtime_error("迭代次数超出限制");
         }
 
diff --git a/src/tomsolver/nonlinear.cpp b/src/tomsolver/nonlinear.cpp
index 60cda81..dd65cd9 100644
--- a/src/tomsolver/nonlinear.cpp
+++ b/src/tomsolver/nonlinear.cpp
@@ -246,7 +246,7 @@ VarsTable SolveByLM(const SymVec &originalEquations, const VarsTable &varsTable)
                 mu *= 10.0; // 扩大λ，使模型倾向梯度下降方向
             }
 
-            if (it++ == Config::Get().maxIterations) {
+            if (it++ >= Config::Get().maxIterations) {
                 throw runtime_error("迭代次数超出限制");
             }
         }
@@ -257,7 +257,7 @@ VarsTable SolveByLM(const SymVec &originalEquations, const VarsTable &varsTable)
 
         F = FNew; // 更新F
 
-        if (it++ == Config::Get().maxIterations) {
+        if (it++ >= Config::Get().maxIterations) {
             throw runtime_error("迭代次数超出限制");
         }
 
-- 
2.43.0


From 542b345b1e982e50b614999d2d5072052bb2077a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:22 +0000
Subject: [PATCH 24/24] fix: a name with the hash of a function name was parsed
 as that function

---
 single/include/tomsolver/tomsolver.h | 9 +++++++++
 src/tomsolver/parse.cpp              | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 5a575fc..cb4f06c 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3428,6 +3428,15 @@ inline MathOperator BaseOperatorCharToEnum(char c, bool unary) noexcept {
 }
 
 inline MathOperator Str2Function(internal::StringView s) noexcept {
+    // 哈希相同不代表文本相同（比如znspswE5IcPO与arcsin的哈希相同），先确认确实是函数名
+    constexpr const char *names[] = {"sin",    "cos",  "tan",  "arcsin", "asin", "arccos", "acos",
+                                     "arctan", "atan", "sqrt", "log",    "log2", "log10",  "exp"};
+    if (std::none_of(std::begin(names), std::end(names), [text = s.toString()](const char *name) {
+            return text == name;
+        })) {
+        return MathOperator::MATH_NULL;
+    }
+
     switch (fnv1a(s)) {
     case "sin"_fnv1a:
         return MathOperator::MATH_SIN;
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index a680754..61c50dd 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -101,6 +101,15 @@ MathOperator BaseOperatorCharToEnum(char c, bool unary) noexcept {
 }
 
 MathOperator Str2Function(internal::StringView s) noexcept {
+    // 哈希相同不代表文本相同（比如znspswE5IcPO与arcsin的哈希相同），先确认确实是函数名
+    constexpr const char *names[] = {"sin",    "cos",  "tan",  "arcsin", "asin", "arccos", "acos",
+                                     "arctan", "atan", "sqrt", "log",    "log2", "log10",  "exp"};
+    if (std::none_of(std::begin(names), std::end(names), [text = s.toString()](const char *name) {
+            return text == name;
+        })) {
+        return MathOperator::MATH_NULL;
+    }
+
     switch (fnv1a(s)) {
     case "sin"_fnv1a:
         return MathOperator::MATH_SIN;
-- 
2.43.0

