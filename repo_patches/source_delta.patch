From 42db17630dca7e7a20accba916b38b27f4a72b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:42 +0000
Subject: [PATCH 01/82] fix: keep the sign of a rational constant with negative
 denominator

---
 src/core/ekat_rational_constant.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/ekat_rational_constant.hpp b/src/core/ekat_rational_constant.hpp
index 345ac95..3175084 100644
--- a/src/core/ekat_rational_constant.hpp
+++ b/src/core/ekat_rational_constant.hpp
@@ -155,7 +155,8 @@ private:
   static constexpr iType fix_num(const iType n, const iType d) {
     if (d==0)
       throw std::invalid_argument("[RationalConstant] Cannot divide by 0");
-    return n==0 ? n : n / gcd(abs(n),abs(d));
+    // Keep the denominator positive: if d<0, move the minus sign to the numerator (see fix_den)
+    return n==0 ? n : (d<0 ? -n : n) / gcd(abs(n),abs(d));
   }
 
   static constexpr iType fix_den(const iType n, const iType d) {
-- 
2.43.0


From 2ad25b847c4ad2332ca7aff76f81718c07ec00f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:42 +0000
Subject: [PATCH 02/82] fix: pow of a rational constant: 0^p for p>0, and no
 overflow when p=1

---
 src/core/ekat_rational_constant.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/ekat_rational_constant.hpp b/src/core/ekat_rational_constant.hpp
index 3175084..f71add1 100644
--- a/src/core/ekat_rational_constant.hpp
+++ b/src/core/ekat_rational_constant.hpp
@@ -202,9 +202,10 @@ template<typename IntType>
 constexpr
 typename std::enable_if<std::is_integral<IntType>::value,RationalConstant>::type
 pow (const RationalConstant& x, const IntType p) {
-  // Three main cases:
+  // Four main cases:
   //  - p<0: compute the -p power of 1/x
   //  - p=0: base case, return 1 if x!=0, throw if x==0
+  //  - p=1: base case, return x (stop here, to avoid 0^0 if x==0, and an overflow of x*x that is not needed)
   //  - recursion step: x^p = x * x^{p-1}
   // Note: recall that expressions like "blah1, blah2" executes both blah1 and blah2 and return blah2.
   if (p<0) {
@@ -214,6 +215,8 @@ pow (const RationalConstant& x, const IntType p) {
       throw std::invalid_argument("[RationalConstant] Cannot compute 0^0.");
 
     return RationalConstant::one();
+  } else if (p==1) {
+    return x;
   } else {
     return (p&1)!=0 ? x*pow(x*x,p>>1) : pow(x*x,p>>1);
   }
-- 
2.43.0


From f1c93dd2540c8d91fbbb211f202b146fdccc14eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:05 +0000
Subject: [PATCH 03/82] fix: compare rational constants without overflowing
 products

---
 src/core/ekat_rational_constant.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/ekat_rational_constant.hpp b/src/core/ekat_rational_constant.hpp
index f71add1..85db9b0 100644
--- a/src/core/ekat_rational_constant.hpp
+++ b/src/core/ekat_rational_constant.hpp
@@ -167,10 +167,13 @@ private:
 };
 
 constexpr bool operator== (const RationalConstant& lhs, const RationalConstant& rhs) {
-  // Cross multiply, in case somehow (should not be possible, unless
+  // Reduce both, in case somehow (should not be possible, unless
   // someone changed the implementation) someone managed to get lhs and/or
-  // rhs to not be already reduced to lower terms
-  return lhs.num*rhs.den==lhs.den*rhs.num;
+  // rhs to not be already reduced to lower terms.
+  // Note: do not cross multiply, since the products may overflow
+  const RationalConstant l (lhs.num,lhs.den);
+  const RationalConstant r (rhs.num,rhs.den);
+  return l.num==r.num && l.den==r.den;
 }
 
 constexpr bool operator!= (const RationalConstant& lhs, const RationalConstant& rhs) {
-- 
2.43.0


From 93912d657202b60480d1a817dff6f5308024b77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:34 +0000
Subject: [PATCH 04/82] fix: string_repr of negative and of large rational
 constants

---
 src/core/ekat_rational_constant.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/ekat_rational_constant.hpp b/src/core/ekat_rational_constant.hpp
index 85db9b0..09f60dc 100644
--- a/src/core/ekat_rational_constant.hpp
+++ b/src/core/ekat_rational_constant.hpp
@@ -81,7 +81,8 @@ struct RationalConstant {
   {
     std::array<char,N> s = {'\0'};
     int pos = 0;
-    int nd_num = ndigits(num);
+    iType absnum = num<0 ? -num : num;
+    int nd_num = ndigits(absnum);
     int nd_den = ndigits(den);
 
     assert (N>(nd_num+nd_den+(num<0 ? 1 : 0)));
@@ -89,7 +90,6 @@ struct RationalConstant {
     if (num<0) {
       s[pos++] = '-';
     }
-    int absnum = num<0 ? -num : num;
     for (int i=(nd_num-1); i>=0; --i) {
       s[pos++] = digit2char(get_digit(absnum,i));
     }
@@ -142,8 +142,8 @@ private:
     return n<10 ? 1 : 1 + ndigits(n/10);
   }
 
-  static constexpr int get_digit(int n, int ten_pow_exp) {
-    int ten_pow = 1;
+  static constexpr int get_digit(iType n, int ten_pow_exp) {
+    iType ten_pow = 1;
     for (int i=0; i<ten_pow_exp; ++i) {
       ten_pow *= 10;
     }
-- 
2.43.0


From 2640649cb9493abe0c12bf6337e81f81af89fbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:59 +0000
Subject: [PATCH 05/82] fix: string_repr of a scaling factor cut or padded the
 exponent to the length of the base

---
 src/core/ekat_scaling_factor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ekat_scaling_factor.hpp b/src/core/ekat_scaling_factor.hpp
index ad0fe16..1363a35 100644
--- a/src/core/ekat_scaling_factor.hpp
+++ b/src/core/ekat_scaling_factor.hpp
@@ -74,7 +74,7 @@ struct ScalingFactor {
       if (e_den_or_neg) {
         out[pos++] = '(';
       }
-      for (int i=0; i<sz1; ++i) {
+      for (int i=0; i<sz2; ++i) {
         out[pos++] = e_repr[i];
       }
       if (e_den_or_neg) {
-- 
2.43.0


From ebc1189227b641c8b1c098e5f1ee819356f96752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:59 +0000
Subject: [PATCH 06/82] fix: parenthesize a fractional or negative base when
 printing a scaling factor

---
 src/core/ekat_scaling_factor.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/ekat_scaling_factor.hpp b/src/core/ekat_scaling_factor.hpp
index 1363a35..8468215 100644
--- a/src/core/ekat_scaling_factor.hpp
+++ b/src/core/ekat_scaling_factor.hpp
@@ -87,6 +87,10 @@ struct ScalingFactor {
   inline std::string to_string(const Format fmt = Format::Rat) const {
     std::string s = base.to_string(fmt);
     if (exp!=RationalConstant::one()) {
+      // The power binds tighter than the division (or the minus sign) in the base
+      if (base.num<0 or (base.den!=1 and fmt==Format::Rat)) {
+        s = '(' + s + ')';
+      }
       s +=  '^';
       if (exp.den!=1 and fmt==Format::Rat) {
         s+= '(';
-- 
2.43.0


From 1fa4018bb4fb21e6c8c52c1b76092f6423d10956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:02 +0000
Subject: [PATCH 07/82] fix: assigning a parameter list kept entries of its old
 content, and never ended for a list and its sublist

import keeps merging sublists recursively, which it did by way of the merging assignment
---
 src/core/ekat_parameter_list.cpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/core/ekat_parameter_list.cpp b/src/core/ekat_parameter_list.cpp
index fd07ebf..58a3155 100644
--- a/src/core/ekat_parameter_list.cpp
+++ b/src/core/ekat_parameter_list.cpp
@@ -21,14 +21,11 @@ ParameterList (const ParameterList& src)
 ParameterList& ParameterList::operator= (const ParameterList& src)
 {
   if (this!=&src) {
-    m_name = src.m_name;
-    for (const auto& [name,p] : src.m_params) {
-      m_params[name] = p;
-    }
-
-    for (const auto& [name,sl] : src.m_sublists) {
-      m_sublists[name] = sl;
-    }
+    // Copy first: src may be a sublist of this list (or viceversa)
+    ParameterList copy(src);
+    std::swap(m_name,copy.m_name);
+    std::swap(m_params,copy.m_params);
+    std::swap(m_sublists,copy.m_sublists);
   }
   return *this;
 }
@@ -72,10 +69,18 @@ void ParameterList::print(std::ostream& out, const int indent, const int indent_
 
 void ParameterList::import (const ParameterList& src)
 {
-  for (const auto& [name,sl] : src.m_sublists) {
-    m_sublists[name] = sl;
+  if (this==&src) {
+    return;
   }
-  for (const auto& [name,p] : src.m_params) {
+
+  // Copy first: src may be a sublist of this list (or viceversa)
+  const ParameterList copy(src);
+  for (const auto& [name,sl] : copy.m_sublists) {
+    auto& mine = sublist(name);
+    mine.import(sl);
+    mine.rename(sl.name());
+  }
+  for (const auto& [name,p] : copy.m_params) {
     m_params[name] = p;
   }
 }
-- 
2.43.0


From 80ded8c84180e07616ca78caaea455708d401e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:21 +0000
Subject: [PATCH 08/82] fix: yaml sequences of bool read True, and any other
 mixed case spelling of true, as false

---
 src/parser/ekat_yaml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index be392c4..689cbb4 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -59,7 +59,7 @@ bool str2type<bool> (const std::string& s) {
 }
 template<>
 char str2type<char> (const std::string& s) {
-  return (s=="true" || s=="TRUE") ? 1 : 0;
+  return str2type<bool>(s) ? 1 : 0;
 }
 template<>
 int str2type<int> (const std::string& s) {
-- 
2.43.0


From 0f5ce960506d1ddee2b719c7433711c61e7bdeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:21 +0000
Subject: [PATCH 09/82] fix: reading a yaml integer that does not fit in an
 int, or a text like --5, threw instead of using the next type

---
 src/parser/ekat_yaml.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index 689cbb4..47d434c 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -4,6 +4,9 @@
 
 #include <yaml-cpp/yaml.h>
 
+#include <cerrno>
+#include <cstdlib>
+#include <limits>
 #include <sstream>
 #include <fstream>
 #include <iomanip>
@@ -29,11 +32,15 @@ bool is_type<bool> (const std::string& s) {
 template<>
 bool is_type<int> (const std::string& s) {
   if (s.size()==0) return false;
-  if (s[0]=='-') {
-    return is_type<int>(s.substr(1));
+  const auto digits = s[0]=='-' ? s.substr(1) : s;
+  if (digits.size()==0 or digits.find_first_not_of("0123456789")!=std::string::npos) {
+    return false;
   }
 
-  return s.find_first_not_of("0123456789")==std::string::npos;
+  // The value must fit in an int, or else it has to be stored as something else
+  errno = 0;
+  const long v = std::strtol(s.c_str(),nullptr,10);
+  return errno==0 and v>=std::numeric_limits<int>::min() and v<=std::numeric_limits<int>::max();
 }
 
 template<>
-- 
2.43.0


From 0da25c1f9f8ce2c8fe12359d0e746c08c13a3fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:21 +0000
Subject: [PATCH 10/82] fix: reading a yaml subnormal number threw

---
 src/parser/ekat_yaml.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index 47d434c..63fc685 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -74,7 +74,8 @@ int str2type<int> (const std::string& s) {
 }
 template<>
 double str2type<double> (const std::string& s) {
-  return std::stod(s);
+  // Note: std::stod would throw for subnormal numbers
+  return std::strtod(s.c_str(),nullptr);
 }
 template<>
 std::string str2type<std::string> (const std::string& s) {
-- 
2.43.0


From 11e240e399ef545766843e1640c01333066145d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:53 +0000
Subject: [PATCH 11/82] fix: quotes around the entries of a yaml sequence were
 ignored, so strings like "1" were read as numbers

---
 src/parser/ekat_yaml.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index 63fc685..7542499 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -10,6 +10,7 @@
 #include <sstream>
 #include <fstream>
 #include <iomanip>
+#include <type_traits>
 
 namespace ekat {
 
@@ -88,6 +89,12 @@ template<typename T>
 bool is_seq (const YAML::Node& node) {
   int n = node.size();
   for (int i=0; i<n; ++i) {
+    // Like for scalars, a quoted entry (or one tagged as string) is a string, whatever it contains
+    const auto& tag = node[i].Tag();
+    if (not std::is_same<T,std::string>::value and
+        (tag=="!" or tag=="!!str" or tag=="tag:yaml.org,2002:str")) {
+      return false;
+    }
     std::string str = node[i].as<std::string>();
     if (not is_type<T>(str)) {
       return false;
-- 
2.43.0


From 1e065bf5a1adfe1ee77982796eb9087b359ab95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:53 +0000
Subject: [PATCH 12/82] fix: doubles written to yaml lost digits of the value
 and zeros of the exponent, and 14 digits integers threw

---
 src/parser/ekat_yaml.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index 7542499..2b82635 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -4,6 +4,7 @@
 
 #include <yaml-cpp/yaml.h>
 
+#include <algorithm>
 #include <cerrno>
 #include <cstdlib>
 #include <limits>
@@ -266,21 +267,22 @@ std::string write_param (const T& t) {
 
 template<>
 std::string write_param<double> (const double& d) {
-  std::stringstream ss;
-  ss << std::showpoint << std::setprecision(14) << d;
-  if (d==static_cast<int>(d) and ss.str().find('.')==std::string::npos) {
-    ss << ".0";
+  // Use the fewest digits that allow to read back the very same value
+  std::string s;
+  for (int prec=14; prec<=std::numeric_limits<double>::max_digits10; ++prec) {
+    std::stringstream ss;
+    ss << std::setprecision(prec) << d;
+    s = ss.str();
+    if (str2type<double>(s)==d) {
+      break;
+    }
   }
 
-  // Clip trailing 0's, but ensure that there is AT LEAST one decimal digit
-  auto s = ss.str();
-  auto start = s.find('.');
-  auto last_nnz = s.substr(start+2).find_last_not_of('0');
-  if (last_nnz==std::string::npos) {
-    // No nonzeros after the 1st decimal digit. Truncate
-    return s.substr(0,start+2);
+  // Ensure that there is AT LEAST one decimal digit (unless it's inf or nan)
+  if (s.find_first_not_of("+-0123456789e")==std::string::npos) {
+    s.insert(std::min(s.find('e'),s.size()),".0");
   }
-  return s.substr(0,start+2+last_nnz+1);
+  return s;
 }
 template<>
 std::string write_param<char> (const char& t) {
-- 
2.43.0


From 7875b2a5670c4e2024971be12935928f587c2e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:54 +0000
Subject: [PATCH 13/82] fix: strings that look like another type, and most
 multiline strings, were not read back as written to yaml

---
 src/parser/ekat_yaml.cpp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index 2b82635..8aa1fd5 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -5,6 +5,7 @@
 #include <yaml-cpp/yaml.h>
 
 #include <algorithm>
+#include <cctype>
 #include <cerrno>
 #include <cstdlib>
 #include <limits>
@@ -289,6 +290,23 @@ std::string write_param<char> (const char& t) {
   return (t ? "true" : "false");
 }
 
+// Write a string so that the parser can read back the same string
+void write_string (const std::string& s, YAML::Emitter& out) {
+  if (is_type<bool>(s) or is_type<int>(s) or is_type<double>(s)) {
+    // Without quotes, it would be read back as a different type
+    out << YAML::DoubleQuoted;
+  }
+  out << s;
+}
+
+// Whether a multiline string can be written as a literal block, which can't represent every string
+bool can_use_literal (const std::string& s) {
+  const auto n = s.size();
+  return n>1 and s[n-1]=='\n' and s[n-2]!='\n' and
+         not std::isspace(static_cast<unsigned char>(s[0])) and
+         s.find('\r')==std::string::npos;
+}
+
 void write_parameter_list (const ParameterList& params, YAML::Emitter& out) {
   // Helper lambda, to try all possible value types, return whether we found the type
   auto try_values = [&](const std::string& pname) -> bool {
@@ -304,9 +322,10 @@ void write_parameter_list (const ParameterList& params, YAML::Emitter& out) {
     } else if (params.isType<std::string>(pname)) {
       auto v = params.get<std::string>(pname);
       out << YAML::Key << pname << YAML::Value;
-      if (v.find('\n') != std::string::npos)
-        out << YAML::Literal; // Use Literal for multiline
-      out << v;
+      if (can_use_literal(v))
+        out << YAML::Literal << v; // Use Literal for multiline
+      else
+        write_string(v,out);
     } else {
       // No match
       return false;
@@ -366,7 +385,9 @@ void write_parameter_list (const ParameterList& params, YAML::Emitter& out) {
     write(ivec);
     write(cvec);
     write(dvec);
-    write(svec);
+    for (const auto& s : svec) {
+      write_string(s,out);
+    }
     out << YAML::EndSeq;
     return true;
   };
-- 
2.43.0


From 05b1348ec5d0e7fab07c2b84f57e84aef7d25eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:45 +0000
Subject: [PATCH 14/82] fix: trim of null characters read past the end of the
 string

---
 src/core/ekat_string_utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/ekat_string_utils.cpp b/src/core/ekat_string_utils.cpp
index 656acdf..aec5bbf 100644
--- a/src/core/ekat_string_utils.cpp
+++ b/src/core/ekat_string_utils.cpp
@@ -41,10 +41,10 @@ std::string trim (const std::string& s, const char c) {
     return s;
   }
   int nl = 0;
-  while (s[nl] == c) {
+  int size = s.size();
+  while (nl<size && s[nl] == c) {
     ++nl;
   }
-  int size = s.size();
   int nt = 0;
   while (nt<size && s[size-nt-1] == c) {
     ++nt;
-- 
2.43.0


From 562bcd5e9c50400cabacbaa979d2f86835ee9f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:45 +0000
Subject: [PATCH 15/82] fix: split with an empty delimiter never ended

---
 src/core/ekat_string_utils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/ekat_string_utils.cpp b/src/core/ekat_string_utils.cpp
index aec5bbf..b7d4c31 100644
--- a/src/core/ekat_string_utils.cpp
+++ b/src/core/ekat_string_utils.cpp
@@ -17,6 +17,9 @@ void strip (std::string& str, const char c) {
 }
 
 std::vector<std::string> split(const std::string& str, const std::string& delim) {
+  EKAT_REQUIRE_MSG (delim.size()>0,
+      "Error! Cannot split a string with an empty delimiter.\n");
+
   std::vector<std::string> tokens;
 
   auto start = 0;
-- 
2.43.0


From 4f7d907b14cbcd66b617e4a09336875e4b250320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:45 +0000
Subject: [PATCH 16/82] fix: several lists, or a name after a closed list, were
 accepted as a nested list, and then parsed into something else

---
 src/core/ekat_string_utils.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/core/ekat_string_utils.cpp b/src/core/ekat_string_utils.cpp
index b7d4c31..82a5165 100644
--- a/src/core/ekat_string_utils.cpp
+++ b/src/core/ekat_string_utils.cpp
@@ -175,6 +175,22 @@ bool valid_nested_list_format (const std::string& str)
       return false;
     }
 
+    // After a list is closed, we need a ',' or another close, not a name.
+    if (last_match==close && pos!=start) {
+#ifdef DEBUG_OUTPUT
+      std::cout << "Input string '" << str << "' contains an entry right after " << close << ". Did you forget a comma?\n";
+#endif
+      return false;
+    }
+
+    // Nothing can come after the outermost list is closed
+    if (num_open==0) {
+#ifdef DEBUG_OUTPUT
+      std::cout << "Input string '" << str << "' contains more than one list.\n";
+#endif
+      return false;
+    }
+
     // Keep track of nesting level
     if (str[pos]==open) {
       ++num_open;
-- 
2.43.0


From b784375877b57eec76857063fe918946576fe666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:45 +0000
Subject: [PATCH 17/82] fix: gather_tokens left the last char of an atomic
 string at the end, missed some occurrences, and joined what was around it

---
 src/core/ekat_string_utils.cpp | 69 +++++-----------------------------
 1 file changed, 10 insertions(+), 59 deletions(-)

diff --git a/src/core/ekat_string_utils.cpp b/src/core/ekat_string_utils.cpp
index 82a5165..2f5d51d 100644
--- a/src/core/ekat_string_utils.cpp
+++ b/src/core/ekat_string_utils.cpp
@@ -381,72 +381,23 @@ std::list<std::string> gather_tokens(const std::string& s,
     delim_str.append(1, delim);
   }
 
-  if (atomic!="") {
-    auto pos = s.find(atomic);
-    if (pos==std::string::npos) {
-      // The atomic string wasn't found.
-      return gather_tokens(s,delimiters,"");
-    }
-    // The atomic string was found. Add it as a token, then remove if from
-    // the input string, and run again on what's left.
-    // But first, we need to check that the string is delimited left and right
-    // by a delimiter (or string boundaries), otherwise it doesn't count.
-    auto slen = s.size();
-    auto alen = atomic.size();
-
-    // These lambda implement exactly what you think they do,
-    // but are more verbose than the corresponding checks when used.
-    auto at_s_start = [&] () -> bool {
-      return pos==0;
-    };
-    auto at_s_end = [&] () -> bool {
-      return (pos+alen)==slen;
-    };
-    auto delim_before = [&] () -> bool {
-      return s.find_first_of(delim_str,pos-1)==(pos-1);
-    };
-    auto delim_after = [&] () -> bool {
-      return s.find_first_of(delim_str,pos+alen)==(pos+alen);
-    };
-
-    if ( !at_s_start() && !delim_before() ) {
-      // The atomic string is not at the start of s, but it is
-      // not preceeded by a delimiter.
-      // So fall back to the case where we don't search for atomic
-      return gather_tokens(s,delimiters,"");
-    } else if ( !at_s_end() && !delim_after() ) {
-      // The atomic string is not at the end of s, but it is
-      // not followed by a delimiter.
-      // So fall back to the case where we don't search for atomic
-      return gather_tokens(s,delimiters,"");
-    }
-
-    // If we didn't hit any of the previous return statements, then the atomic
-    // substring was found, and it is a sub-token.
-    all_tokens.push_back(atomic);
-
-    std::string s_mod(s);
-    auto erase_begin = at_s_start() ? 0 : pos-1;
-    auto erase_len   = delim_after() ? alen+1 : alen;
-    s_mod.erase(erase_begin,erase_len);
-
-    // Note: splice is better than manual push back, since it only moves a couple of ptrs.
-    all_tokens.splice(all_tokens.end(),gather_tokens(s_mod,delimiters,atomic));
-    return all_tokens;
-  }
-
+  const auto alen = atomic.size();
   std::size_t prev = 0, pos;
-  std::stringstream sstr(s);
-  while ((pos = s.find_first_of(delim_str, prev)) != std::string::npos)
+  while (prev < s.size())
   {
+    pos = std::min(s.find_first_of(delim_str, prev),s.size());
+    // If we are at an occurrence of the atomic string, delimited on the right by a
+    // delimiter or by the end of the string, then it is a token, even if it contains
+    // delimiters. NOTE: on the left it is delimited, since we are at the start of a token.
+    if (alen>0 && s.compare(prev,alen,atomic)==0 &&
+        (prev+alen==s.size() || delim_str.find(s[prev+alen])!=std::string::npos)) {
+      pos = prev+alen;
+    }
     if (pos > prev) {
       all_tokens.push_back(s.substr(prev, pos-prev));
     }
     prev = pos+1;
   }
-  if (prev < s.length()) {
-    all_tokens.push_back(s.substr(prev, std::string::npos));
-  }
 
   return all_tokens;
 }
-- 
2.43.0


From c72a521bf4db6324cc0b3a35629c5e702921f5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:45 +0000
Subject: [PATCH 18/82] fix: jaccard similarity counted repeated tokens in the
 union, and was nan for strings without tokens

---
 src/core/ekat_string_utils.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/core/ekat_string_utils.cpp b/src/core/ekat_string_utils.cpp
index 2f5d51d..32a7143 100644
--- a/src/core/ekat_string_utils.cpp
+++ b/src/core/ekat_string_utils.cpp
@@ -429,10 +429,7 @@ double jaccard_similarity (const std::string& s1, const std::string& s2,
   } else {
     // We already took care of the case were we don't tokenize either one,
     // so we can be sure tokenize_s2 is true.
-    // S2 is a single token
-      if (s2=="zenith_angle") {
-        printf("zenith_angle\n");
-      }
+    // S1 is a single token
     s1_tokens.push_back(s1);
     s2_tokens = gather_tokens(s2, delimiters, s1);
   }
@@ -449,7 +446,11 @@ double jaccard_similarity (const std::string& s1, const std::string& s2,
   // The Jaccard index is the ratio of the size of the intersection to that
   // of the union.
   double int_size = static_cast<double>(s_intersection.size());
-  double un_size = static_cast<double>(s1_tokens.size() + s2_tokens.size() - int_size);
+  double un_size = static_cast<double>(s1_set.size() + s2_set.size() - int_size);
+  if (un_size==0) {
+    // Neither string has any token
+    return 1;
+  }
   return int_size / un_size;
 }
 
-- 
2.43.0


From 1142540873d8359662888d0d2757e0df47a3e8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 19/82] fix: dereferencing a zip of iterators that return
 temporaries gave dangling references

---
 src/core/ekat_zip.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/ekat_zip.hpp b/src/core/ekat_zip.hpp
index 2f1bb41..7c51de0 100644
--- a/src/core/ekat_zip.hpp
+++ b/src/core/ekat_zip.hpp
@@ -32,8 +32,9 @@ public:
 
   // Dereference operator
   decltype(auto) operator*() {
+    // Note: if an iterator returns a temporary (e.g., the proxy of a vector<bool>), store it by value
     return std::apply([](Iterators... its){
-      return std::forward_as_tuple(*its...);
+      return std::tuple<decltype(*its)...>(*its...);
     },iterators);
   }
 
-- 
2.43.0


From 69f22e69fa19d144f7d12a194ea36ad4113587c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 20/82] fix: map_key_iterator did not compile when
 dereferenced, since the keys of a map are const

---
 src/core/ekat_std_map_key_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/ekat_std_map_key_iterator.hpp b/src/core/ekat_std_map_key_iterator.hpp
index 979acbf..a16f248 100644
--- a/src/core/ekat_std_map_key_iterator.hpp
+++ b/src/core/ekat_std_map_key_iterator.hpp
@@ -32,8 +32,8 @@ public:
   using iterator_category = std::bidirectional_iterator_tag;
   using difference_type   = std::ptrdiff_t;
   using value_type        = Key;
-  using pointer           = value_type*;
-  using reference         = value_type&;
+  using pointer           = const value_type*;
+  using reference         = const value_type&;
 
   using map_iterator = typename std::map<Key,Value>::iterator;
 
-- 
2.43.0


From 11685de39d9e52703f1afe225858e3d2486310c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 21/82] fix: reset_mpi_comm of the serial Comm did not store
 the new comm

---
 src/core/ekat_comm_serial.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/ekat_comm_serial.cpp b/src/core/ekat_comm_serial.cpp
index 7438db1..9e4d66d 100644
--- a/src/core/ekat_comm_serial.cpp
+++ b/src/core/ekat_comm_serial.cpp
@@ -19,8 +19,9 @@ Comm::Comm(MPI_Comm mpi_comm)
 {
 }
 
-void Comm::reset_mpi_comm (MPI_Comm /* new_mpi_comm */)
+void Comm::reset_mpi_comm (MPI_Comm new_mpi_comm)
 {
+  m_mpi_comm = new_mpi_comm;
 }
 
 void Comm::barrier () const
-- 
2.43.0


From f45666c6f501f59496ef7aca86c1d27caa5a0aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 22/82] fix: params kept a stale value when a second call of
 parse_test_args added values for the same key

---
 src/core/ekat_test_utils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/ekat_test_utils.cpp b/src/core/ekat_test_utils.cpp
index 610f40e..0fd3457 100644
--- a/src/core/ekat_test_utils.cpp
+++ b/src/core/ekat_test_utils.cpp
@@ -114,6 +114,9 @@ parse_test_args (const std::vector<char*>& args)
   for (const auto& it : vec_params) {
     if (it.second.size()==1) {
       params[it.first] = it.second[0];
+    } else {
+      // The key may have had a single value in a previous call
+      params.erase(it.first);
     }
   }
 }
-- 
2.43.0


From 62531319f339e04b48fffcf07046d57f97b4dba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 23/82] fix: index_and_shift gathers every entry and marks
 shifts out of bounds in every build

---
 src/pack/ekat_pack_kokkos.hpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/pack/ekat_pack_kokkos.hpp b/src/pack/ekat_pack_kokkos.hpp
index dc57138..7588ec7 100644
--- a/src/pack/ekat_pack_kokkos.hpp
+++ b/src/pack/ekat_pack_kokkos.hpp
@@ -80,20 +80,13 @@ template<int Shift, typename Array1, typename IdxPack> KOKKOS_INLINE_FUNCTION
 void
 index_and_shift (const Array1& a, const IdxPack& i0, Pack<typename Array1::non_const_value_type, IdxPack::n>& index, Pack<typename Array1::non_const_value_type, IdxPack::n>& index_shift,
                  typename std::enable_if<Array1::rank == 1>::type* = nullptr) {
-#ifndef NDEBUG
-  // In debug, intialize index_shift to all invalids. This ensures errors will
-  // happen if client tries to use values that fall outside of valid range.
   using scalar_t = typename Array1::non_const_value_type;
-  index_shift = Pack<scalar_t, IdxPack::n>(invalid<scalar_t>());
-#endif
+  const int n = static_cast<int>(a.size());
   vector_simd for (int i = 0; i < IdxPack::n; ++i) {
-    const auto i0i = i0[i];
-#ifndef NDEBUG
-    // We don't want to trigger kokkos OOB errors if they are on
-    if ((i0i+Shift) < 0 || (i0i+Shift)>=static_cast<int>(a.size())) continue;
-#endif
+    const int i0i = i0[i];
+    const int i0s = i0i + Shift;
     index[i]       = a(i0i);
-    index_shift[i] = a(i0i + Shift);
+    index_shift[i] = (i0s<0 || i0s>=n) ? invalid<scalar_t>() : a(i0s);
   }
 }
 
-- 
2.43.0


From fad55b0e37eccfb24b9a669b76d4d51ca3e0644f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:40 +0000
Subject: [PATCH 24/82] fix: size the transposition buffer of host_to_device
 and device_to_host before writing to it

---
 src/pack/ekat_pack_kokkos.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pack/ekat_pack_kokkos.hpp b/src/pack/ekat_pack_kokkos.hpp
index 7588ec7..f6c0667 100644
--- a/src/pack/ekat_pack_kokkos.hpp
+++ b/src/pack/ekat_pack_kokkos.hpp
@@ -390,7 +390,7 @@ host_to_device_impl(const std::vector<typename VectorT::value_type::value_type::
 
     ScalarT* the_data = nullptr;
     if (do_transpose) {
-      tdata.reserve(dim1_size * dim2_size);
+      tdata.resize(dim1_size * dim2_size);
       the_data = reinterpret_cast<ScalarT*>(tdata.data());
       transpose(data[n], the_data, dim1_size, dim2_size, direction);
     }
@@ -450,7 +450,7 @@ host_to_device_impl(const std::vector<typename VectorT::value_type::value_type::
 
     ScalarT* the_data = nullptr;
     if (do_transpose) {
-      tdata.reserve(dim1_size * dim2_size * dim3_size);
+      tdata.resize(dim1_size * dim2_size * dim3_size);
       the_data = reinterpret_cast<ScalarT*>(tdata.data());
       transpose(data[n], the_data, dim1_size, dim2_size, dim3_size, direction);
     }
@@ -834,7 +834,7 @@ device_to_host(const std::vector<typename ViewT::non_const_value_type::scalar*>&
 
     ScalarT* the_data = nullptr;
     if (do_transpose) {
-      tdata.reserve(dim1_size * dim2_size);
+      tdata.resize(dim1_size * dim2_size);
       the_data = reinterpret_cast<ScalarT*>(tdata.data());
     }
     else {
@@ -888,7 +888,7 @@ device_to_host(const std::vector<typename ViewT::non_const_value_type::scalar*>&
 
     ScalarT* the_data = nullptr;
     if (do_transpose) {
-      tdata.reserve(dim1_size * dim2_size * dim3_size);
+      tdata.resize(dim1_size * dim2_size * dim3_size);
       the_data = reinterpret_cast<ScalarT*>(tdata.data());
     }
     else {
-- 
2.43.0


From 0aa53ea8c3baf02d18003a0990f03a52dd76cdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:46 +0000
Subject: [PATCH 25/82] fix: 1d host_to_device and device_to_host check the
 number of views

---
 src/pack/ekat_pack_kokkos.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pack/ekat_pack_kokkos.hpp b/src/pack/ekat_pack_kokkos.hpp
index f6c0667..89140bc 100644
--- a/src/pack/ekat_pack_kokkos.hpp
+++ b/src/pack/ekat_pack_kokkos.hpp
@@ -333,7 +333,7 @@ host_to_device_impl(const std::vector<typename VectorT::value_type::value_type::
   using PackT = typename ViewT::value_type;
 
   EKAT_ASSERT(data.size() == sizes.size());
-  EKAT_ASSERT(data.size() == sizes.size());
+  EKAT_ASSERT(data.size() == views.size());
 
   for (size_t i = 0; i < data.size(); ++i) {
     const size_t size = static_cast<size_t>(sizes[i]);
@@ -791,7 +791,7 @@ device_to_host(const std::vector<typename ViewT::non_const_value_type::scalar*>&
   using PackT = typename ViewT::value_type;
 
   EKAT_ASSERT(data.size() == sizes.size());
-  EKAT_ASSERT(data.size() == sizes.size());
+  EKAT_ASSERT(data.size() == views.size());
 
   for (size_t i = 0; i < data.size(); ++i) {
     const size_t size = static_cast<size_t>(sizes[i]);
-- 
2.43.0


From ca7c3f85de244f28abc7849be2f7a0d4f4d2c271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:54 +0000
Subject: [PATCH 26/82] fix: ViewBroadcast::extent includes its check and
 refuses an index equal to the rank

---
 src/kokkos/ekat_view_broadcast.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kokkos/ekat_view_broadcast.hpp b/src/kokkos/ekat_view_broadcast.hpp
index bba4e17..271b2f6 100644
--- a/src/kokkos/ekat_view_broadcast.hpp
+++ b/src/kokkos/ekat_view_broadcast.hpp
@@ -3,6 +3,7 @@
 
 #include "ekat_kokkos_meta.hpp"
 #include "ekat_assert.hpp"
+#include "ekat_kernel_assert.hpp"
 
 namespace ekat {
 
@@ -83,7 +84,7 @@ public:
 
   KOKKOS_INLINE_FUNCTION
   int extent(int i) {
-    EKAT_KERNEL_ASSERT_MSG (i>=0 and i<=m_view_impl.rank(),
+    EKAT_KERNEL_ASSERT_MSG (i>=0 and i<static_cast<int>(m_view_impl.rank()),
         "[ViewBroadcast::extent] Error! Index out of bounds.\n");
     return m_shape[i];
   }
-- 
2.43.0


From df766cf1bf5387b87c064d9f3e5c50a91ed18264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:20 +0000
Subject: [PATCH 27/82] fix: multi-slice subview of a rank-1 view checks its
 upper bound

---
 src/kokkos/ekat_subview_utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kokkos/ekat_subview_utils.hpp b/src/kokkos/ekat_subview_utils.hpp
index ea13e34..dfcfd45 100644
--- a/src/kokkos/ekat_subview_utils.hpp
+++ b/src/kokkos/ekat_subview_utils.hpp
@@ -324,7 +324,8 @@ subview(const ViewLR<ST*, Props...>& v,
         const int idim = 0) {
   assert(v.data() != nullptr);
   assert(idim == 0);
-  assert(kp0.first >= 0 && kp0.first < kp0.second);
+  assert(kp0.first >= 0 && kp0.first < kp0.second
+         && kp0.second <= v.extent_int(idim));
   return Unmanaged<ViewLS<ST*,Props...>>(Kokkos::subview(v, kp0));
 }
 
-- 
2.43.0


From be5cb97c60222d93f8e422ffe28b44d2f39966da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:39 +0000
Subject: [PATCH 28/82] amend

fix: WorkspaceManager::report compiles in debug builds
---
 src/kokkos/ekat_workspace_impl.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 0fac550..933f588 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -11,7 +11,9 @@
 #include "ekat_math_utils.hpp"
 #include "ekat_assert.hpp"
 
+#include <iostream>
 #include <map>
+#include <string>
 
 namespace ekat {
 
@@ -106,10 +108,10 @@ void WorkspaceManager<T, D>::report() const
         }
         std::string sname(name);
         if (ws_usage_map.find(sname) == ws_usage_map.end()) {
-          ws_usage_map[sname] = Data(1, takes, releases);
+          ws_usage_map.emplace(sname, Data(1, takes, releases));
         }
         else {
-          auto& e = ws_usage_map[sname];
+          auto& e = ws_usage_map.at(sname);
           e.used += 1;
           e.takes += takes;
           e.releases += releases;
-- 
2.43.0


From 69fcf8313dcdba1c2345604a8df7b383f3c91029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:42 +0000
Subject: [PATCH 29/82] fix: reset_internals of WorkspaceManager restores the
 free list in every build

---
 src/kokkos/ekat_workspace_impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 933f588..81ba483 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -162,9 +162,10 @@ void WorkspaceManager<T, D>::reset_internals()
 #ifndef NDEBUG
   Kokkos::deep_copy(m_active, false);
   Kokkos::deep_copy(m_counts, 0);
+  Kokkos::deep_copy(m_num_used, 0);
   Kokkos::deep_copy(m_high_water, 0);
-  Kokkos::deep_copy(m_next_slot, 0);
 #endif
+  Kokkos::deep_copy(m_next_slot, 0);
 
   auto policy = TeamPolicyFactory<ExeSpace>::get_default_team_policy(m_max_ws_idx, m_max_used);
   Kokkos::parallel_for(
-- 
2.43.0


From 6b1896b0acc9d77fbbb50f2e75264b35abac35e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:42 +0000
Subject: [PATCH 30/82] fix: take_many_and_reset resets the metadata of the
 spaces it takes

---
 src/kokkos/ekat_workspace_impl.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 81ba483..4f20727 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -446,10 +446,11 @@ void WorkspaceManager<T, D>::Workspace::take_many_and_reset(
     *ptrs[n] = space;
   }
 
-  // We only need to reset the metadata for spaces that are being left free
+  // Reset the metadata of the spaces that are taken too, since earlier releases may
+  // have linked them in another order, and they can be released as contiguous spaces.
   Kokkos::parallel_for(
-    Kokkos::TeamVectorRange(m_team, m_parent.m_max_used - N), [&] (int i) {
-      m_parent.init_slot_metadata(m_ws_idx, i+N);
+    Kokkos::TeamVectorRange(m_team, m_parent.m_max_used), [&] (int i) {
+      m_parent.init_slot_metadata(m_ws_idx, i);
     });
 
   Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
-- 
2.43.0


From 7262b41b1bb46a95355b96cc93f6ff7ce14dcebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:42 +0000
Subject: [PATCH 31/82] fix: release_many_contiguous links the released spaces
 to the old free list

---
 src/kokkos/ekat_workspace_impl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 4f20727..e8b9cfe 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -630,6 +630,8 @@ void WorkspaceManager<T, D>::Workspace::release_many_contiguous(
 #endif
 
   Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
+    // The next free slot is not always the one after the last of these spaces
+    m_parent.set_next_and_get_index<S>(*ptrs[N-1], m_next_slot);
     m_next_slot = m_parent.get_index<S>(*ptrs[0]);
 #ifndef NDEBUG
     for (int n = 0; n < static_cast<int>(N); ++n) {
-- 
2.43.0


From d09e425013e520af2f9fb5151de9e72b073c34d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:42 +0000
Subject: [PATCH 32/82] fix: release_macro_block links the released block to
 the old free list

---
 src/kokkos/ekat_workspace_impl.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index e8b9cfe..6ca30e8 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -654,19 +654,25 @@ void WorkspaceManager<T, D>::Workspace::release_macro_block(
   change_num_used(-n_sub_blocks);
 #endif
 
-  Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
-    m_next_slot = m_parent.get_index<S>(space);
-
 #ifndef NDEBUG
-    change_indv_meta<S>(space, "", true);
+  change_indv_meta<S>(space, "", true);
 #endif
-  });
+
+  const int slot = m_parent.get_index<S>(space);
 
   // Reset metadata
   m_team.team_barrier();
   Kokkos::parallel_for(
     Kokkos::TeamVectorRange(m_team, n_sub_blocks), [&] (int i) {
-      m_parent.init_slot_metadata(m_ws_idx, i+m_next_slot);
+      m_parent.init_slot_metadata(m_ws_idx, i+slot);
+  });
+  m_team.team_barrier();
+
+  // The next free slot is not always the one after this block
+  Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
+    const auto last = reinterpret_cast<int*>(&m_parent.m_data(m_ws_idx, (slot+n_sub_blocks-1)*m_parent.m_total));
+    last[1] = m_next_slot;
+    m_next_slot = slot;
   });
 
   // We need a barrier here so that a subsequent call to take or release
-- 
2.43.0


From a1e5df6a167eb7077067eaede7bc2df78882109d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:42 +0000
Subject: [PATCH 33/82] fix: Workspace::print stops at the end of the free list

---
 src/kokkos/ekat_workspace_impl.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 6ca30e8..084e505 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -13,6 +13,7 @@
 
 #include <iostream>
 #include <map>
+#include <sstream>
 #include <string>
 
 namespace ekat {
@@ -511,13 +512,12 @@ void WorkspaceManager<T, D>::Workspace::print() const
     Kokkos::PerTeam(m_team), [&] () {
       std::stringstream ss;
       ss << m_ws_idx << ":";
-      auto space = m_parent.get_space_in_slot<T>(m_ws_idx, m_next_slot);
-      for (int cnt = 0, nmax = m_parent.m_max_used;
-           cnt < nmax;
-           ++cnt) {
+      // The list of free slots ends at m_max_used
+      for (int slot = m_next_slot; slot < m_parent.m_max_used; ) {
+        const auto space = m_parent.get_space_in_slot<T>(m_ws_idx, slot);
         ss << " (" << m_parent.get_index<T>(space) << ", "
            << m_parent.get_next<T>(space) << ")";
-        space = m_parent.get_space_in_slot<T>(m_ws_idx, m_parent.get_next<T>(space));
+        slot = m_parent.get_next<T>(space);
       }
       ss << "\n";
       std::cout << ss.str();
-- 
2.43.0


From 86d02b9a7734556cdb2055a695a375b2d0978d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:17 +0000
Subject: [PATCH 34/82] fix: debug accounting of take_many_and_reset waits for
 the reset of the metadata

---
 src/kokkos/ekat_workspace_impl.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 084e505..bf0d469 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -453,6 +453,10 @@ void WorkspaceManager<T, D>::Workspace::take_many_and_reset(
     Kokkos::TeamVectorRange(m_team, m_parent.m_max_used), [&] (int i) {
       m_parent.init_slot_metadata(m_ws_idx, i);
     });
+#ifndef NDEBUG
+  // The code below reads the metadata
+  m_team.team_barrier();
+#endif
 
   Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
     m_next_slot = N;
-- 
2.43.0


From 3f05bcbb0e526d71a2523c7cdc1c0edbfc989524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:17 +0000
Subject: [PATCH 35/82] fix: get_total_bytes_needed of WorkspaceManager does
 not overflow

---
 src/kokkos/ekat_workspace.hpp      | 4 ++--
 src/kokkos/ekat_workspace_impl.hpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/kokkos/ekat_workspace.hpp b/src/kokkos/ekat_workspace.hpp
index 8716e48..6c8ad54 100644
--- a/src/kokkos/ekat_workspace.hpp
+++ b/src/kokkos/ekat_workspace.hpp
@@ -105,8 +105,8 @@ class WorkspaceManager
   // set of constructor inputs. Note, this does not actually create an instance of the WSM,
   // but is useful for when memory needs to be reserved in a different scope than the
   // WSM is created.
-  static int get_total_bytes_needed(int size, int max_used, TeamPolicy policy,
-                                    const double& overprov_factor=GPU_DEFAULT_OVERPROVISION_FACTOR());
+  static size_t get_total_bytes_needed(int size, int max_used, TeamPolicy policy,
+                                       const double& overprov_factor=GPU_DEFAULT_OVERPROVISION_FACTOR());
 
   // call from host.
   //
diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index bf0d469..79951a9 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -59,13 +59,13 @@ void WorkspaceManager<T, D>::compute_internals(const int size, const int max_use
 }
 
 template <typename T, typename D>
-int WorkspaceManager<T, D>::get_total_bytes_needed(int size, int max_used, TeamPolicy policy,
-                                                   const double& overprov_factor)
+size_t WorkspaceManager<T, D>::get_total_bytes_needed(int size, int max_used, TeamPolicy policy,
+                                                      const double& overprov_factor)
 {
   TeamUtils<T,ExeSpace> tu(policy, overprov_factor);
   const int reserve_slots = (sizeof(T) > 2*sizeof(int)) ?
                              1 : (2*sizeof(int) + sizeof(T) - 1)/sizeof(T);
-  const int total_slots = size + reserve_slots;
+  const size_t total_slots = size + reserve_slots;
   return tu.get_num_ws_slots()*total_slots*max_used*sizeof(T);
 }
 
-- 
2.43.0


From d6979518f7cd690d2ec5a440e18106ec3ca9bfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:15 +0000
Subject: [PATCH 36/82] fix: cyclic reduction takes right sides whose type
 differs from the matrix

---
 src/algorithm/ekat_tridiag.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/algorithm/ekat_tridiag.hpp b/src/algorithm/ekat_tridiag.hpp
index 52a0579..9e44cba 100644
--- a/src/algorithm/ekat_tridiag.hpp
+++ b/src/algorithm/ekat_tridiag.hpp
@@ -388,7 +388,6 @@ void cr (const TeamMember& team,
          TridiagDiag dl, TridiagDiag d, TridiagDiag du, DataArray X,
          typename std::enable_if<TridiagDiag::rank == 1>::type* = 0,
          typename std::enable_if<DataArray::rank == 1>::type* = 0) {
-  using Scalar = typename TridiagDiag::non_const_value_type;
   const int nrow = d.extent_int(0);
   assert(dl.extent_int(0) == nrow);
   assert(d. extent_int(0) == nrow);
@@ -446,7 +445,7 @@ void cr (const TeamMember& team,
       const int im = i - os;
       const int ip = i + os;
       assert(im >= 0 || ip < nrow);
-      Scalar f = 0;
+      decltype(dl(i)*X(im)) f = 0;
       f += im >=   0 ? dl(i)*X(im) : 0;
       f += ip < nrow ? du(i)*X(ip) : 0;
       X(i) = (X(i) - f)/d(i);
@@ -531,7 +530,7 @@ void cr (const TeamMember& team,
         const int ip = i + os;
         assert(im >= 0 || ip < nrow);
         for (int j = team_tid; j < nrhs; j += team_size) {
-          Scalar f = 0;
+          decltype(dl(i)*X(im,j)) f = 0;
           f += im >=   0 ? dl(i)*X(im,j) : 0;
           f += ip < nrow ? du(i)*X(ip,j) : 0;
           X(i,j) = (X(i,j) - f)/d(i);
@@ -549,7 +548,6 @@ void cr (const TeamMember& team,
          TridiagDiag dl, TridiagDiag d, TridiagDiag du, DataArray X,
          typename std::enable_if<TridiagDiag::rank == 2>::type* = 0,
          typename std::enable_if<DataArray::rank == 2>::type* = 0) {
-  using Scalar = typename TridiagDiag::non_const_value_type;
   const int nrow = d.extent_int(0);
   const int nrhs = X.extent_int(1);
   assert(dl.extent_int(1) == nrhs);
@@ -617,7 +615,7 @@ void cr (const TeamMember& team,
         const bool im_ok = im >= 0;
         const bool ip_ok = ip < nrow;
         for (int j = team_tid; j < nrhs; j += team_size) {
-          Scalar f = 0;
+          decltype(dl(i,j)*X(im,j)) f = 0;
           f += im_ok ? dl(i,j)*X(im,j) : 0;
           f += ip_ok ? du(i,j)*X(ip,j) : 0;
           X(i,j) = (X(i,j) - f)/d(i,j);
-- 
2.43.0


From 18f5d2fea699a045435d6fc44d28b420ac10d5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:09 +0000
Subject: [PATCH 37/82] fix: serial Thomas solvers honour the row stride of
 LayoutRight views

---
 src/algorithm/ekat_tridiag.hpp | 52 +++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/algorithm/ekat_tridiag.hpp b/src/algorithm/ekat_tridiag.hpp
index 9e44cba..d66c80d 100644
--- a/src/algorithm/ekat_tridiag.hpp
+++ b/src/algorithm/ekat_tridiag.hpp
@@ -226,26 +226,28 @@ void thomas_a1x1 (DT* const dl, DT* d, DT* const du, XT* X, const int nrow) {
     X[i-1] = (X[i-1] - du[i-1] * X[i]) / d[i-1];
 }
 
+// A LayoutRight view of rank 2 can be a range of the columns of a wider one, so
+// the distance between rows is given separately from the number of columns.
 template <typename DT, typename XT>
 KOKKOS_INLINE_FUNCTION
 void thomas_a1xm (DT* const dl, DT* d, DT* const du, XT* X,
-                  const int nrow, const int nrhs) {
+                  const int nrow, const int nrhs, const int xs) {
   for (int i = 1; i < nrow; ++i) {
     const auto dli = dl[i] / d[i-1];
     d[i] -= dli * du[i-1];
-    auto* const xim1 = X + (i-1)*nrhs;
-    auto* const xi = X + i*nrhs;
+    auto* const xim1 = X + (i-1)*xs;
+    auto* const xi = X + i*xs;
     for (int j = 0; j < nrhs; ++j)
       xi[j] -= dli * xim1[j];
   }
   {
-    auto* const xi = X + (nrow-1)*nrhs;
+    auto* const xi = X + (nrow-1)*xs;
     for (int j = 0; j < nrhs; ++j)
       xi[j] /= d[nrow-1];
   }
   for (int i = nrow-1; i > 0; --i) {
-    auto* const xim1 = X + (i-1)*nrhs;
-    auto* const xi = X + i*nrhs;
+    auto* const xim1 = X + (i-1)*xs;
+    auto* const xi = X + i*xs;
     for (int j = 0; j < nrhs; ++j)
       xim1[j] = (xim1[j] - du[i-1] * xi[j]) / d[i-1];
   }
@@ -254,16 +256,15 @@ void thomas_a1xm (DT* const dl, DT* d, DT* const du, XT* X,
 template <typename DT, typename XT>
 KOKKOS_INLINE_FUNCTION
 void thomas_amxm (DT* const dl, DT* d, DT* const du, XT* X,
-                  const int nrow, const int nrhs) {
+                  const int nrow, const int nrhs,
+                  const int dls, const int ds, const int dus, const int xs) {
   for (int i = 1; i < nrow; ++i) {
-    const int ios = i*nrhs;
-    const int im1os = (i-1)*nrhs;
-    auto* const dli = dl + ios;
-    auto* const di = d + ios;
-    auto* const dim1 = d + im1os;
-    auto* const duim1 = du + im1os;
-    auto* const xim1 = X + im1os;
-    auto* const xi = X + ios;
+    auto* const dli = dl + i*dls;
+    auto* const di = d + i*ds;
+    auto* const dim1 = d + (i-1)*ds;
+    auto* const duim1 = du + (i-1)*dus;
+    auto* const xim1 = X + (i-1)*xs;
+    auto* const xi = X + i*xs;
     for (int j = 0; j < nrhs; ++j) {
       const auto dlij = dli[j] / dim1[j];
       di[j] -= dlij * duim1[j];
@@ -271,19 +272,16 @@ void thomas_amxm (DT* const dl, DT* d, DT* const du, XT* X,
     }
   }
   {
-    const int ios = (nrow-1)*nrhs;
-    auto* const di = d + ios;
-    auto* const xi = X + ios;
+    auto* const di = d + (nrow-1)*ds;
+    auto* const xi = X + (nrow-1)*xs;
     for (int j = 0; j < nrhs; ++j)
       xi[j] /= di[j];
   }
   for (int i = nrow-1; i > 0; --i) {
-    const int ios = i*nrhs;
-    const int im1os = (i-1)*nrhs;
-    auto* const dim1 = d + im1os;
-    auto* const duim1 = du + im1os;
-    auto* const xim1 = X + im1os;
-    auto* const xi = X + ios;
+    auto* const dim1 = d + (i-1)*ds;
+    auto* const duim1 = du + (i-1)*dus;
+    auto* const xim1 = X + (i-1)*xs;
+    auto* const xi = X + i*xs;
     for (int j = 0; j < nrhs; ++j)
       xim1[j] = (xim1[j] - duim1[j] * xi[j]) / dim1[j];
   }
@@ -359,7 +357,8 @@ void thomas (TridiagDiag dl, TridiagDiag d, TridiagDiag du, DataArray X,
   assert( X.extent_int(0) == nrow);
   assert(dl.extent_int(0) == nrow);
   assert(du.extent_int(0) == nrow);
-  impl::thomas_a1xm(dl.data(), d.data(), du.data(), X.data(), nrow, nrhs);
+  impl::thomas_a1xm(dl.data(), d.data(), du.data(), X.data(), nrow, nrhs,
+                    X.stride(0));
 }
 
 template <typename TridiagDiag, typename DataArray>
@@ -377,7 +376,8 @@ void thomas (TridiagDiag dl, TridiagDiag d, TridiagDiag du, DataArray X,
   assert(dl.extent_int(1) == nrhs);
   assert(d .extent_int(1) == nrhs);
   assert(du.extent_int(1) == nrhs);
-  impl::thomas_amxm(dl.data(), d.data(), du.data(), X.data(), nrow, nrhs);
+  impl::thomas_amxm(dl.data(), d.data(), du.data(), X.data(), nrow, nrhs,
+                    dl.stride(0), d.stride(0), du.stride(0), X.stride(0));
 }
 
 // Cyclic reduction at the Kokkos team level. Any (thread, vector)
-- 
2.43.0


From fdd27d58a60d752fbe66f10d4fd2ff1fd5828cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:27 +0000
Subject: [PATCH 38/82] fix: view_reduction of packs over a range that ends in
 the pack it starts in

---
 src/algorithm/ekat_reduction_utils.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/algorithm/ekat_reduction_utils.hpp b/src/algorithm/ekat_reduction_utils.hpp
index 8ed6bc1..f3a8615 100644
--- a/src/algorithm/ekat_reduction_utils.hpp
+++ b/src/algorithm/ekat_reduction_utils.hpp
@@ -108,6 +108,15 @@ auto view_reduction (const TeamMember& team,
     const int  pack_loop_begin   = (has_garbage_begin ? begin/N + 1 : begin/N);
     const int  pack_loop_end     = end/N;
 
+    // If the range starts inside a pack, and ends before the end of that same pack,
+    // there are no complete packs, and only one (partial) pack to add.
+    if (pack_loop_begin > pack_loop_end) {
+      for (int j=begin; j<end; ++j) {
+        result += input(j/N)[j%N];
+      }
+      return result;
+    }
+
     // If first pack has garbage, we will not include it in the below reduction,
     // so manually add the first pack (only the non-garbage part)
     if (has_garbage_begin) {
-- 
2.43.0


From f2c2050bb23ad1208ba585bdca7e42cf3232db17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:12 +0000
Subject: [PATCH 39/82] fix: expression operators and functions accept the base
 class of expressions

---
 src/expression/ekat_expression_math.hpp   |  4 ++--
 src/expression/ekat_expression_traits.hpp | 13 +++++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/expression/ekat_expression_math.hpp b/src/expression/ekat_expression_math.hpp
index 6280a27..471ab3c 100644
--- a/src/expression/ekat_expression_math.hpp
+++ b/src/expression/ekat_expression_math.hpp
@@ -109,10 +109,10 @@ EKAT_BINARY_MATH_EXPRESSION(min,Min);
   /* Free function to create a ##nameExpression */                                  \
   template<typename EArg>                                                           \
   std::enable_if_t<is_expr_v<EArg>,                                                 \
-                   name##Expression<EArg>>                                          \
+                   name##Expression<get_expr_node_t<EArg>>>                         \
   impl (const EArg& arg)                                                            \
   {                                                                                 \
-    return name##Expression<EArg>(arg);                                             \
+    return name##Expression<get_expr_node_t<EArg>>(get_expr_node(arg));             \
   }
 
 EKAT_UNARY_MATH_EXPRESSION (sqrt,Sqrt)
diff --git a/src/expression/ekat_expression_traits.hpp b/src/expression/ekat_expression_traits.hpp
index e89eb78..8ea1cbb 100644
--- a/src/expression/ekat_expression_traits.hpp
+++ b/src/expression/ekat_expression_traits.hpp
@@ -36,12 +36,17 @@ struct eval_return<T, true> {
 template <typename T>
 using eval_return_t = typename eval_return<T,is_expr_v<T>>::type;
 
-// If type is an expression, extract inner type, otherwise return input type
-template<typename T, bool IsExpr = false>
+// Forward declaration of the base class of all expressions
+template<typename Derived>
+class ExpressionBase;
+
+// If type is the base class of an expression, extract the concrete (derived) expression type,
+// otherwise return input type
+template<typename T>
 struct get_expr_node_trait : identity<T> {};
 
-template<template<typename> class Base, typename D>
-struct get_expr_node_trait<Base<D>, true> : identity<D> {};
+template<typename D>
+struct get_expr_node_trait<ExpressionBase<D>> : identity<D> {};
 
 template<typename T>
 using get_expr_node_t = typename get_expr_node_trait<T>::type;
-- 
2.43.0


From d983528fcac34187c3449f659403d3edefe89fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:12 +0000
Subject: [PATCH 40/82] fix: LogBigFiles keeps num_files files, not one more

---
 src/logging/ekat_log_file_policy.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/logging/ekat_log_file_policy.hpp b/src/logging/ekat_log_file_policy.hpp
index ee44c44..925bcfb 100644
--- a/src/logging/ekat_log_file_policy.hpp
+++ b/src/logging/ekat_log_file_policy.hpp
@@ -55,7 +55,8 @@ struct LogBigFiles {
 
   static std::shared_ptr<sink_t> get_file_sink(const std::string& file_name) {
     constexpr auto file_size = mb_per_file * one_mb;
-    return std::make_shared<file_sink_t>(file_name, file_size, num_files);
+    // Note: spdlog does not count the file being written among its max number of files
+    return std::make_shared<file_sink_t>(file_name, file_size, num_files-1);
   }
 };
 
-- 
2.43.0


From 675bd97a1aaac02fa18e2cb69d8e3ee66265c7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:12 +0000
Subject: [PATCH 41/82] fix: a logger sharing another's sinks reports their
 file name

---
 src/logging/ekat_logger.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/logging/ekat_logger.hpp b/src/logging/ekat_logger.hpp
index 3e37bce..1e36888 100644
--- a/src/logging/ekat_logger.hpp
+++ b/src/logging/ekat_logger.hpp
@@ -182,6 +182,7 @@ public:
   {
     csink = src.get_console_sink();
     fsink = src.get_file_sink();
+    logfile_name = src.get_logfile_name();
     this->sinks().push_back(csink);
     this->sinks().push_back(fsink);
 
-- 
2.43.0


From 57f5ee5bddd45919f7dd4500ae33cb92cd9dfb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:12 +0000
Subject: [PATCH 42/82] fix: setting the log level does not turn on ranks the
 MPI policy silences

---
 src/logging/ekat_logger.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/logging/ekat_logger.hpp b/src/logging/ekat_logger.hpp
index 1e36888..2389472 100644
--- a/src/logging/ekat_logger.hpp
+++ b/src/logging/ekat_logger.hpp
@@ -78,6 +78,9 @@ protected:
 
   std::string logfile_name;
 
+  // Whether the MPI output policy allows output from this rank
+  bool rank_logs = true;
+
   LoggerBase (const std::string& log_name)
    : spdlog::logger(log_name)
    , logfile_name  ("")
@@ -108,7 +111,8 @@ public:
   const std::string& get_logfile_name () const { return logfile_name; }
 
   void set_log_level(const LogLevel lev) {
-    this->set_level(lev);
+    // Ranks that produce no output stay off
+    this->set_level(rank_logs ? lev : LogLevel::off);
   }
   void set_console_level(const LogLevel lev) {
     this->get_console_sink()->set_level(lev);
@@ -140,6 +144,8 @@ public:
           const std::string& suffix = ".log")
    : LoggerBase(log_name)
   {
+    rank_logs = MpiOutputPolicy::should_log(comm);
+
     // make the console sink; default console level = log level
     csink = std::make_shared<spdlog::sinks::stdout_color_sink_mt>();
 
@@ -180,6 +186,8 @@ public:
          Logger<LogFilePolicy,MOP>& src) :
     LoggerBase(log_name)
   {
+    rank_logs = MpiOutputPolicy::should_log(comm);
+
     csink = src.get_console_sink();
     fsink = src.get_file_sink();
     logfile_name = src.get_logfile_name();
-- 
2.43.0


From e86c01671ba27db06665865ad8a5239390eabd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:53 +0000
Subject: [PATCH 43/82] fix: Workspace::reset and take_many_and_reset update
 shared metadata from one thread

---
 src/kokkos/ekat_workspace_impl.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 79951a9..a27a431 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -439,7 +439,9 @@ void WorkspaceManager<T, D>::Workspace::take_many_and_reset(
   const view_1d_ptr_array<S, N>& ptrs) const
 {
 #ifndef NDEBUG
-  change_num_used(N - m_parent.m_num_used(m_ws_idx));
+  Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
+    change_num_used(N - m_parent.m_num_used(m_ws_idx));
+  });
 #endif
 
   for (int n = 0; n < static_cast<int>(N); ++n) {
@@ -484,16 +486,20 @@ KOKKOS_INLINE_FUNCTION
 void WorkspaceManager<T, D>::Workspace::reset() const
 {
   m_team.team_barrier();
+  Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
 #ifndef NDEBUG
-  change_num_used(-m_parent.m_num_used(m_ws_idx));
+    change_num_used(-m_parent.m_num_used(m_ws_idx));
 #endif
-  m_next_slot = 0;
+    m_next_slot = 0;
+  });
   Kokkos::parallel_for(
     Kokkos::TeamVectorRange(m_team, m_parent.m_max_used), [&] (int i) {
       m_parent.init_slot_metadata(m_ws_idx, i);
     });
 
 #ifndef NDEBUG
+  // The code below reads the metadata
+  m_team.team_barrier();
   Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
     // Mark all old spaces as released
     for (int a = 0; a < m_parent.m_max_used; ++a) {
-- 
2.43.0


From a45ae71f6a60850075ed96c36bafe661918c0067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:48 +0000
Subject: [PATCH 44/82] fix: take a free random state when looking for a
 workspace slot on GPU

---
 src/kokkos/ekat_team_policy_utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kokkos/ekat_team_policy_utils.hpp b/src/kokkos/ekat_team_policy_utils.hpp
index e97f440..313b66c 100644
--- a/src/kokkos/ekat_team_policy_utils.hpp
+++ b/src/kokkos/ekat_team_policy_utils.hpp
@@ -286,10 +286,11 @@ class TeamUtils<ValueType,EkatGpuSpace> : public TeamUtilsCommonBase<ValueType,E
       Kokkos::single(Kokkos::PerTeam(team_member), [&] (int& ws_idx) {
         ws_idx = team_member.league_rank() % _num_ws_slots;
         if ((flag_type) 0 != Kokkos::atomic_compare_exchange(&_open_ws_slots(ws_idx), (flag_type) 0, (flag_type) 1)) {
-          rnd_type rand_gen = _rand_pool.get_state(team_member.league_rank());
+          rnd_type rand_gen = _rand_pool.get_state();
           ws_idx = Kokkos::rand<rnd_type, int>::draw(rand_gen) % _num_ws_slots;
           while ((flag_type) 0 != Kokkos::atomic_compare_exchange(&_open_ws_slots(ws_idx), (flag_type) 0, (flag_type) 1))
             ws_idx = Kokkos::rand<rnd_type, int>::draw(rand_gen) % _num_ws_slots;
+          _rand_pool.free_state(rand_gen);
         }
         // The following memory fence is not strictly needed if the application
         // code uses fences where it should for reads and writes to global
-- 
2.43.0


From b183459aa301f8095342a3a7da252373331778d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:48 +0000
Subject: [PATCH 45/82] fix: GPU max_element returns the first of equal maxima

---
 src/kokkos/ekat_math_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kokkos/ekat_math_utils.hpp b/src/kokkos/ekat_math_utils.hpp
index 28f8acc..1c77912 100644
--- a/src/kokkos/ekat_math_utils.hpp
+++ b/src/kokkos/ekat_math_utils.hpp
@@ -32,7 +32,7 @@ template <typename T> KOKKOS_INLINE_FUNCTION
 const T* max_element (const T* const begin, const T* const end) {
   const T* me = begin;
   for (const T* it = begin + 1; it < end; ++it)
-    if ( ! (*it < *me)) // use operator<
+    if (*me < *it) // use operator<
       me = it;
   return me;
 }
-- 
2.43.0


From 7402112af62fd3c604f7f8533e0c1aaab1060635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 46/82] fix: test-launcher hands the program its args as given

---
 bin/test-launcher | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bin/test-launcher b/bin/test-launcher
index eaf5e74..4e96032 100755
--- a/bin/test-launcher
+++ b/bin/test-launcher
@@ -1,6 +1,6 @@
 #!/usr/bin/env python3
 
-import argparse, pathlib, os, sys, subprocess
+import argparse, pathlib, os, shlex, sys, subprocess
 
 ###############################################################################
 def expect(condition, error_msg, exc_type=SystemExit, error_prefix="ERROR:"):
@@ -169,7 +169,8 @@ def run_test(buffer_output,print_omp_affinity,exec_args):
     else:
         print ("EKAT is not managing resources.")
 
-    cmd += " {}".format(" ".join(exec_args[1:]))
+    # The cmd goes through a shell, which must hand over the args as they are
+    cmd += " {}".format(" ".join(shlex.quote(arg) for arg in exec_args[1:]))
 
     if buffer_output:
         stat, out = run_cmd_buff(cmd, env)
-- 
2.43.0


From c2e82b3642d568f68fbd20a375116746480e04f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 47/82] fix: several names in DEP of a unit test

---
 cmake/EkatCreateUnitTest.cmake | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmake/EkatCreateUnitTest.cmake b/cmake/EkatCreateUnitTest.cmake
index 3594296..f88bfe4 100644
--- a/cmake/EkatCreateUnitTest.cmake
+++ b/cmake/EkatCreateUnitTest.cmake
@@ -348,7 +348,7 @@ function(EkatCreateUnitTestFromExec test_name test_exec)
       math(EXPR CURR_CORES "${NRANKS}*${NTHREADS}")
       set_tests_properties(${FULL_TEST_NAME} PROPERTIES ENVIRONMENT OMP_NUM_THREADS=${NTHREADS} PROCESSORS ${CURR_CORES} PROCESSOR_AFFINITY True FULL_TEST_COMMAND "${FULL_TEST_CMD}")
       if (ecutfe_DEP AND NOT ecutfe_DEP STREQUAL "${FULL_TEST_NAME}")
-        set_tests_properties(${FULL_TEST_NAME} PROPERTIES DEPENDS ${ecutfe_DEP})
+        set_tests_properties(${FULL_TEST_NAME} PROPERTIES DEPENDS "${ecutfe_DEP}")
       endif()
 
       if (ecutfe_LABELS)
-- 
2.43.0


From 585f2f72918fa995e90e305d7dff6551f95f6f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 48/82] fix: dangling AND NOT in the colour condition of unit
 tests

---
 cmake/EkatCreateUnitTest.cmake | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmake/EkatCreateUnitTest.cmake b/cmake/EkatCreateUnitTest.cmake
index f88bfe4..e01dbba 100644
--- a/cmake/EkatCreateUnitTest.cmake
+++ b/cmake/EkatCreateUnitTest.cmake
@@ -170,7 +170,7 @@ function(EkatCreateUnitTestFromExec test_name test_exec)
   if (ekat::CatchMain IN_LIST LINKED_LIBS)
     if (NOT ecutfe_EXE_ARGS)
       list(PREPEND ecutfe_EXE_ARGS "--use-colour no")
-    elseif (NOT "--use-colour no" IN_LIST ecutfe_EXE_ARGS AND NOT "--use-colour yes" IN_LIST ecutfe_EXE_ARGS AND NOT )
+    elseif (NOT "--use-colour no" IN_LIST ecutfe_EXE_ARGS AND NOT "--use-colour yes" IN_LIST ecutfe_EXE_ARGS)
       list(PREPEND ecutfe_EXE_ARGS "--use-colour no")
     endif()
   endif()
-- 
2.43.0


From d64b5b6f87d2bc8fe76abc1255cb1c11681203e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 49/82] fix: several LINKER_FLAGS of a unit test

---
 cmake/EkatCreateUnitTest.cmake | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmake/EkatCreateUnitTest.cmake b/cmake/EkatCreateUnitTest.cmake
index e01dbba..f920298 100644
--- a/cmake/EkatCreateUnitTest.cmake
+++ b/cmake/EkatCreateUnitTest.cmake
@@ -104,6 +104,7 @@ function(EkatCreateUnitTestExec exec_name)
     target_link_libraries(${target_name} PUBLIC "${ecute_LIBS}")
   endif()
   if (ecute_LINKER_FLAGS)
+    string(REPLACE ";" " " ecute_LINKER_FLAGS "${ecute_LINKER_FLAGS}")
     set_target_properties(${target_name} PROPERTIES LINK_FLAGS "${ecute_LINKER_FLAGS}")
   endif()
 
-- 
2.43.0


From 63a986d8d45428429ff7b762e2b494dfcd414b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 50/82] fix: generate the test source also if it expects no
 failing asserts

---
 cmake/gen_assert_test_src.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/cmake/gen_assert_test_src.py b/cmake/gen_assert_test_src.py
index 8008f6e..f56de33 100755
--- a/cmake/gen_assert_test_src.py
+++ b/cmake/gen_assert_test_src.py
@@ -32,9 +32,6 @@ def create_sources (meta_src, output_dir):
         lines = [line.rstrip() for line in f]
 
     num_asserts = len([l for l in lines if key in l])
-    if num_asserts==0:
-        return 0
-
     # First, a version of the test without *any* EKAT_EXPECT_ASSERT_FAIL line
     f_out = pathlib.Path(output_dir) / f"{f_in.stem}.cpp"
     with open (f_out,"w") as fout:
-- 
2.43.0


From 6f2895bbe9ba637bb165ff9c2f643b3bf63ccde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 51/82] fix: refuse unit names that are too long in builds
 without assertions

---
 src/core/ekat_units.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/ekat_units.hpp b/src/core/ekat_units.hpp
index cbd4ae0..a22dc9e 100644
--- a/src/core/ekat_units.hpp
+++ b/src/core/ekat_units.hpp
@@ -7,6 +7,7 @@
 
 #include <array>
 #include <limits>
+#include <stdexcept>
 #include <string_view>
 
 namespace ekat
@@ -206,9 +207,9 @@ private:
     const size_t total_len = lhs.size() + rhs.size() +
                              (comp1 ? 2 : 0) + (comp2 ? 2 : 0) +
                              (sep != '\0' ? 1 : 0);
-    // Trigger a compiler error if the name is too long.
-    assert (total_len<UNITS_MAX_STR_LEN);
-    (void)total_len;
+    // Trigger a compiler error (or an exception, at run time) if the name is too long.
+    if (total_len>=UNITS_MAX_STR_LEN)
+      throw std::length_error("[Units] The string representation is too long.");
 
     std::array<char, UNITS_MAX_STR_LEN> out = {'\0'};
 
-- 
2.43.0


From 1d48e43ab693d7decf71e68c837144d17134c9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 52/82] fix: SetReleaseFlags and SetDebugFlags use the CXXFLAGS
 they are given

---
 cmake/EkatSetCompilerFlags.cmake | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmake/EkatSetCompilerFlags.cmake b/cmake/EkatSetCompilerFlags.cmake
index 4f9839e..df8e21a 100644
--- a/cmake/EkatSetCompilerFlags.cmake
+++ b/cmake/EkatSetCompilerFlags.cmake
@@ -215,7 +215,7 @@ macro (SetReleaseFlags)
 
     # CXX
     if (SRF_CXXFLAGS)
-      string(APPEND CMAKE_CXX_FLAGS_RELEASE " ${SRF_FFLAGS}")
+      string(APPEND CMAKE_CXX_FLAGS_RELEASE " ${SRF_CXXFLAGS}")
     else ()
       string(APPEND CMAKE_CXX_FLAGS_RELEASE " -O3")
 
@@ -273,7 +273,7 @@ macro (SetDebugFlags)
 
     # CXX
     if (SDF_CXXFLAGS)
-      string(APPEND CMAKE_CXX_FLAGS_DEBUG " ${SDF_FFLAGS}")
+      string(APPEND CMAKE_CXX_FLAGS_DEBUG " ${SDF_CXXFLAGS}")
     else ()
       string(APPEND CMAKE_CXX_FLAGS_DEBUG " -g -O0")
 
-- 
2.43.0


From 2f721633482aa88731c9a2947a022b2c2599b0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 53/82] fix: several flags in one call of SetFlags,
 SetReleaseFlags, SetDebugFlags

---
 cmake/EkatSetCompilerFlags.cmake | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cmake/EkatSetCompilerFlags.cmake b/cmake/EkatSetCompilerFlags.cmake
index df8e21a..2acff4a 100644
--- a/cmake/EkatSetCompilerFlags.cmake
+++ b/cmake/EkatSetCompilerFlags.cmake
@@ -35,6 +35,9 @@ macro (SetFlags)
   set(args1v)
   set(argsMv FLAGS FFLAGS CFLAGS CXXFLAGS LDFLAGS)
   cmake_parse_arguments(SF "${options}" "${args1v}" "${argsMv}" ${ARGN})
+  foreach (SF_KIND IN ITEMS FLAGS FFLAGS CFLAGS CXXFLAGS LDFLAGS)
+    string (REPLACE ";" " " SF_${SF_KIND} "${SF_${SF_KIND}}")
+  endforeach()
 
   # TODO: should this be a warning instead?
   if (SF_FLAGS AND (SF_FFLAGS OR SF_CFLAGS OR SF_CXXFLAGS))
@@ -180,6 +183,9 @@ macro (SetReleaseFlags)
   set(args1v)
   set(argsMv FLAGS FFLAGS CFLAGS CXXFLAGS)
   cmake_parse_arguments(SRF "${options}" "${args1v}" "${argsMv}" ${ARGN})
+  foreach (SRF_KIND IN ITEMS FLAGS FFLAGS CFLAGS CXXFLAGS)
+    string (REPLACE ";" " " SRF_${SRF_KIND} "${SRF_${SRF_KIND}}")
+  endforeach()
 
   # TODO: should this be a warning instead?
   if (SRF_FLAGS AND (SRF_FFLAGS OR SRF_CFLAGS OR SRF_CXXFLAGS))
@@ -238,6 +244,9 @@ macro (SetDebugFlags)
   set(args1v)
   set(argsMv FLAGS FFLAGS CFLAGS CXXFLAGS)
   cmake_parse_arguments(SDF "${options}" "${args1v}" "${argsMv}" ${ARGN})
+  foreach (SDF_KIND IN ITEMS FLAGS FFLAGS CFLAGS CXXFLAGS)
+    string (REPLACE ";" " " SDF_${SDF_KIND} "${SDF_${SDF_KIND}}")
+  endforeach()
 
   # TODO: should this be a warning instead?
   if (SDF_FLAGS AND (SDF_FFLAGS OR SDF_CFLAGS OR SDF_CXXFLAGS))
-- 
2.43.0


From 205412211e5716f40a8f97968c264521ee1aa01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 54/82] fix: floating-point model in builds without Fortran

---
 cmake/EkatSetCompilerFlags.cmake | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmake/EkatSetCompilerFlags.cmake b/cmake/EkatSetCompilerFlags.cmake
index 2acff4a..79eb0fd 100644
--- a/cmake/EkatSetCompilerFlags.cmake
+++ b/cmake/EkatSetCompilerFlags.cmake
@@ -106,9 +106,15 @@ macro (SetFpModelFlags)
         ("${fpmodel_string}" STREQUAL "fast") OR
         ("${fpmodel_string}" STREQUAL "fast=1") OR
         ("${fpmodel_string}" STREQUAL "fast=2"))
-      if (CMAKE_Fortran_COMPILER_ID STREQUAL "Intel" OR CMAKE_Fortran_COMPILER_ID STREQUAL "IntelLLVM")
+      # Fortran is optional
+      if (CMAKE_Fortran_COMPILER_ID)
+        set (FP_MODEL_COMPILER_ID ${CMAKE_Fortran_COMPILER_ID})
+      else ()
+        set (FP_MODEL_COMPILER_ID ${CMAKE_CXX_COMPILER_ID})
+      endif ()
+      if (FP_MODEL_COMPILER_ID STREQUAL "Intel" OR FP_MODEL_COMPILER_ID STREQUAL "IntelLLVM")
         set (FP_MODEL_FLAG "-fp-model ${fpmodel_string}")
-      elseif (CMAKE_Fortran_COMPILER_ID STREQUAL "GNU")
+      elseif (FP_MODEL_COMPILER_ID STREQUAL "GNU")
         if ("${fpmodel_string}" STREQUAL "strict")
           set (FP_MODEL_FLAG -ffp-contract=off)
         else ()
-- 
2.43.0


From f8055e3c6850977c12a575a12615b360318a85e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 55/82] fix: EkatConfigFile honors AT_ONLY

---
 cmake/EkatUtils.cmake | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmake/EkatUtils.cmake b/cmake/EkatUtils.cmake
index 59eef50..4b60bb3 100644
--- a/cmake/EkatUtils.cmake
+++ b/cmake/EkatUtils.cmake
@@ -86,7 +86,11 @@ macro (EkatConfigFile CONFIG_FILE_IN CONFIG_FILE_C)
   if (OUT_OF_DATE)
 
     # Run the configure macro
-    configure_file (${CONFIG_FILE_IN} ${CONFIG_FILE_C})
+    if (EKAT_CONFIGURE_FILE_AT_ONLY)
+      configure_file (${CONFIG_FILE_IN} ${CONFIG_FILE_C} @ONLY)
+    else()
+      configure_file (${CONFIG_FILE_IN} ${CONFIG_FILE_C})
+    endif()
 
     if (EKAT_CONFIGURE_FILE_F90_FILE)
       # run sed to change '/*...*/' comments into '!/*...*/'
-- 
2.43.0


From 055453d1798a093bca04127022b0393d7a0a2519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 56/82] fix: EkatConfigFile comments out both kinds of comment
 for Fortran

---
 cmake/EkatUtils.cmake | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/cmake/EkatUtils.cmake b/cmake/EkatUtils.cmake
index 4b60bb3..2dc540f 100644
--- a/cmake/EkatUtils.cmake
+++ b/cmake/EkatUtils.cmake
@@ -93,14 +93,9 @@ macro (EkatConfigFile CONFIG_FILE_IN CONFIG_FILE_C)
     endif()
 
     if (EKAT_CONFIGURE_FILE_F90_FILE)
-      # run sed to change '/*...*/' comments into '!/*...*/'
-      execute_process(COMMAND sed "s;^/;!/;g"
-                      WORKING_DIRECTORY ${CMAKE_CURRENT_BINARY_DIR}
-                      INPUT_FILE ${CONFIG_FILE_C}
-                      OUTPUT_FILE ${EKAT_CONFIGURE_FILE_F90_FILE})
-
-      # do the same for '//...' comments (turn them into '! ...'
-      execute_process(COMMAND sed "s;^//;!;g"
+      # run sed to change '//...' comments into '! ...',
+      # and '/*...*/' comments into '!/*...*/'
+      execute_process(COMMAND sed -e "s;^//;!;g" -e "s;^/;!/;g"
                       WORKING_DIRECTORY ${CMAKE_CURRENT_BINARY_DIR}
                       INPUT_FILE ${CONFIG_FILE_C}
                       OUTPUT_FILE ${EKAT_CONFIGURE_FILE_F90_FILE})
-- 
2.43.0


From adc93e1466dfb41f623d6a21e8ff5e36bc84b3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 57/82] fix: install ekat_view_broadcast.hpp

---
 src/kokkos/CMakeLists.txt | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kokkos/CMakeLists.txt b/src/kokkos/CMakeLists.txt
index 88cdcfb..4f82acb 100644
--- a/src/kokkos/CMakeLists.txt
+++ b/src/kokkos/CMakeLists.txt
@@ -54,6 +54,7 @@ set (HEADERS
   ekat_kokkos_str_utils.hpp
   ekat_team_policy_utils.hpp
   ekat_upper_bound.hpp
+  ekat_view_broadcast.hpp
   ekat_view_utils.hpp
   ekat_where.hpp
   ekat_workspace.hpp
-- 
2.43.0


From 4a57ba7a89e8ce689ba0bb8498269aad8105b065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 58/82] fix: install EkatMpiUtils.cmake

---
 CMakeLists.txt | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CMakeLists.txt b/CMakeLists.txt
index 3127e4f..10cc8fc 100644
--- a/CMakeLists.txt
+++ b/CMakeLists.txt
@@ -194,6 +194,7 @@ install(EXPORT EkatTargets
 
 install (FILES
   ${EKAT_CMAKE_PATH}/EkatCreateUnitTest.cmake
+  ${EKAT_CMAKE_PATH}/EkatMpiUtils.cmake
   ${EKAT_CMAKE_PATH}/EkatSetCompilerFlags.cmake
   ${EKAT_CMAKE_PATH}/EkatUtils.cmake
   DESTINATION ${CMAKE_INSTALL_PREFIX}/share/cmake/Modules)
-- 
2.43.0


From 33a2969f3b65836b9262178a3ff0d17e73ac4fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 59/82] fix: trailing dot in the version of the installed
 package

---
 CMakeLists.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakeLists.txt b/CMakeLists.txt
index 10cc8fc..97bb3c9 100644
--- a/CMakeLists.txt
+++ b/CMakeLists.txt
@@ -173,7 +173,7 @@ CONFIGURE_PACKAGE_CONFIG_FILE(
   INSTALL_DESTINATION ${CMAKE_INSTALL_LIBDIR}/cmake/ekat)
 
 WRITE_BASIC_PACKAGE_VERSION_FILE("${EKAT_BINARY_DIR}/EkatConfigVersion.cmake"
-    VERSION ${EKAT_VERSION_MAJOR}.${EKAT_VERSION_MINOR}.${EKAT_VERSION_PATCH}.
+    VERSION ${EKAT_VERSION_MAJOR}.${EKAT_VERSION_MINOR}.${EKAT_VERSION_PATCH}
     COMPATIBILITY SameMajorVersion)
 
 # Install the EkatConfig*.cmake files
-- 
2.43.0


From 36edc8cac161efc248a799cad2f9cb76c7fb2f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 60/82] fix: Expression needs KokkosUtils

---
 src/CMakeLists.txt | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CMakeLists.txt b/src/CMakeLists.txt
index 2d616a1..3433f72 100644
--- a/src/CMakeLists.txt
+++ b/src/CMakeLists.txt
@@ -26,6 +26,7 @@ endmacro()
 
 # Check packages interdeps
 EkatEnableDeps(PACK "KOKKOS")
+EkatEnableDeps(EXPRESSION "KOKKOS")
 EkatEnableDeps(ALGORITHM "PACK;KOKKOS")
 
 # A "rule them all" target, so users can just link against this
-- 
2.43.0


From 3bd270f22f14f976c0cdaf0bc6d2e5e7c4973068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 61/82] fix: BuildEkat can be called again after one include

---
 cmake/tpls/EkatBuildEkat.cmake | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cmake/tpls/EkatBuildEkat.cmake b/cmake/tpls/EkatBuildEkat.cmake
index 7eb6991..d6a0ae0 100644
--- a/cmake/tpls/EkatBuildEkat.cmake
+++ b/cmake/tpls/EkatBuildEkat.cmake
@@ -25,8 +25,6 @@ define_property(GLOBAL
                 FULL_DOCS "This property is used by cmake to ensure that EKAT
                            submodule directory is only processed once (with add_subdirectory).")
 
-get_property(IS_EKAT_BUILT GLOBAL PROPERTY EKAT_BUILT SET)
-
 # This macro builds EKAT library (if not done already)
 # The user can pass an additional variable PREFIX, which will be used
 # to initialize all the EKAT_BLAH variable to the value stored in ${PREFIX}_BLAH.
@@ -45,6 +43,7 @@ get_property(IS_EKAT_BUILT GLOBAL PROPERTY EKAT_BUILT SET)
 macro (BuildEkat)
 
   # Process EKAT only if not already done
+  get_property(IS_EKAT_BUILT GLOBAL PROPERTY EKAT_BUILT SET)
   if (NOT IS_EKAT_BUILT)
 
     set(options)
-- 
2.43.0


From 645e505a7e87b9a8a874a976e4ab5ac90464b2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 62/82] fix: args of BuildEkat override the variables of the
 project

---
 cmake/tpls/EkatBuildEkat.cmake | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmake/tpls/EkatBuildEkat.cmake b/cmake/tpls/EkatBuildEkat.cmake
index d6a0ae0..5565b04 100644
--- a/cmake/tpls/EkatBuildEkat.cmake
+++ b/cmake/tpls/EkatBuildEkat.cmake
@@ -64,13 +64,13 @@ macro (BuildEkat)
     set(multiValueArgs)
     cmake_parse_arguments(BUILD_EKAT "${options}" "${oneValueArgs}" "${multiValueArgs}" ${ARGN} )
 
-    # First, set EKAT_BLAH to ${${PREFIX}_BLAH}. If not set, DO set defaults
-    setVars("${BUILD_EKAT_PREFIX}" TRUE)
-
-    # Then parse the optional input, and if set, override the existing value.
-    # DO NOT set defaults, or you may override something
+    # First, set EKAT_BLAH from the optional input, if passed. Cache vars are not changed
+    # once set, so this wins over what follows. DO NOT set defaults, or they would win too
     setVars("BUILD_EKAT" FALSE)
 
+    # Then, set EKAT_BLAH to ${${PREFIX}_BLAH}. If not set, DO set defaults
+    setVars("${BUILD_EKAT_PREFIX}" TRUE)
+
     add_subdirectory (${EKAT_CMAKE_PATH}/../ ${CMAKE_BINARY_DIR}/externals/ekat)
 
     if (EKAT_DISABLE_TPL_WARNINGS)
-- 
2.43.0


From 18c337dbea9c4309de5a9b7152780b3a607f3ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 63/82] fix: defaults of BuildEkat

---
 cmake/tpls/EkatBuildEkat.cmake | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cmake/tpls/EkatBuildEkat.cmake b/cmake/tpls/EkatBuildEkat.cmake
index 5565b04..cd043aa 100644
--- a/cmake/tpls/EkatBuildEkat.cmake
+++ b/cmake/tpls/EkatBuildEkat.cmake
@@ -113,19 +113,19 @@ macro (setVars PREFIX SET_DEFAULTS)
 
   if (DEFINED ${PREFIX}_FPMODEL)
     set (EKAT_FPMODEL ${${PREFIX}_FPMODEL} CACHE STRING "")
-  elseif (setVars_DEBUG_BUILD AND SET_DEFAULTS)
+  elseif (setVars_DEBUG_BUILD AND ${SET_DEFAULTS})
     set (EKAT_FPMODEL "strict" CACHE STRING "")
   endif()
 
   if (DEFINED ${PREFIX}_DISABLE_TPL_WARNINGS)
     set (EKAT_DISABLE_TPL_WARNINGS ${${PREFIX}_DISABLE_TPL_WARNINGS} CACHE BOOL "")
-  elseif (SET_DEFAULTS)
+  elseif (${SET_DEFAULTS})
     set (EKAT_DISABLE_TPL_WARNINGS OFF CACHE BOOL "")
   endif()
 
   if (DEFINED ${PREFIX}_ENABLE_TESTS)
     set (EKAT_ENABLE_TESTS ${${PREFIX}_ENABLE_TESTS} CACHE BOOL "")
-  elseif (SET_DEFAULTS)
+  elseif (${SET_DEFAULTS})
     set (EKAT_ENABLE_TESTS ON CACHE BOOL "")
   endif()
 
@@ -133,25 +133,25 @@ macro (setVars PREFIX SET_DEFAULTS)
 
   if (DEFINED ${PREFIX}_TEST_MAX_THREADS)
     set (EKAT_TEST_MAX_THREADS ${${PREFIX}_TEST_MAX_THREADS} CACHE STRING "")
-  elseif (SET_DEFAULTS)
+  elseif (${SET_DEFAULTS})
     set (EKAT_TEST_MAX_THREADS 1 CACHE STRING "")
   endif()
 
   if (DEFINED ${PREFIX}_TEST_THREAD_INC)
     set (EKAT_TEST_THREAD_INC ${${PREFIX}_TEST_THREAD_INC} CACHE STRING "")
-  elseif (SET_DEFAULTS)
+  elseif (${SET_DEFAULTS})
     set (EKAT_TEST_THREAD_INC 1 CACHE STRING "")
   endif()
 
   if (DEFINED ${PREFIX}_TEST_STRICT_FP)
     set (EKAT_TEST_STRICT_FP ${${PREFIX}_TEST_STRICT_FP} CACHE STRING "")
-  elseif (setVars_DEBUG_BUILD AND SET_DEFAULTS)
+  elseif (setVars_DEBUG_BUILD AND ${SET_DEFAULTS})
     set (EKAT_TEST_STRICT_FP ON CACHE BOOL "")
   endif()
 
   if (DEFINED ${PREFIX}_TEST_PACK_SIZE)
     set (EKAT_TEST_PACK_SIZE ${${PREFIX}_TEST_PACK_SIZE} CACHE STRING "")
-  elseif (SET_DEFAULTS)
+  elseif (${SET_DEFAULTS})
     if (EKAT_ENABLE_GPU)
       set (EKAT_TEST_PACK_SIZE 1 CACHE STRING "")
     else ()
@@ -161,13 +161,13 @@ macro (setVars PREFIX SET_DEFAULTS)
 
   if (DEFINED ${PREFIX}_TEST_SMALL_PACK_SIZE)
     set (EKAT_TEST_SMALL_PACK_SIZE ${${PREFIX}_TEST_SMALL_PACK_SIZE} CACHE STRING "")
-  elseif (SET_DEFAULTS)
+  elseif (${SET_DEFAULTS})
     set (EKAT_TEST_SMALL_PACK_SIZE ${EKAT_TEST_PACK_SIZE} CACHE STRING "")
   endif()
 
   if (DEFINED ${PREFIX}_TEST_POSSIBLY_NO_PACK)
     set (EKAT_TEST_POSSIBLY_TEST_NO_PACK ${${PREFIX}_TEST_POSSIBLY_NO_PACK} CACHE STRING "")
-  elseif (SET_DEFAULTS)
+  elseif (${SET_DEFAULTS})
     if (Kokkos_ARCH_SKX)
       set (EKAT_TEST_POSSIBLY_TEST_NO_PACK TRUE)
     else ()
-- 
2.43.0


From 4807547c6d1b501e75a7361bfc524469904e298c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 64/82] fix: BuildEkat with EKAT_DISABLE_TPL_WARNINGS

---
 cmake/tpls/EkatBuildEkat.cmake | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmake/tpls/EkatBuildEkat.cmake b/cmake/tpls/EkatBuildEkat.cmake
index cd043aa..7a64e07 100644
--- a/cmake/tpls/EkatBuildEkat.cmake
+++ b/cmake/tpls/EkatBuildEkat.cmake
@@ -75,9 +75,11 @@ macro (BuildEkat)
 
     if (EKAT_DISABLE_TPL_WARNINGS)
       include (EkatUtils)
-      EkatDisableAllWarning(ekat)
-      EkatDisableAllWarning(ekat_test_main)
-      EkatDisableAllWarning(ekat_test_session)
+      foreach (ekat_tgt IN ITEMS ekat_core ekat_kokkosutils ekat_yamlparser ekat_catchmain ekat_testsession)
+        if (TARGET ${ekat_tgt})
+          EkatDisableAllWarning(${ekat_tgt})
+        endif()
+      endforeach()
     endif ()
 
     # Make sure that future includes of this script don't rebuild ekat
-- 
2.43.0


From 7ec14103f619d9bae50fe745f5492d103f571b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 65/82] fix: TEST_THREAD_INC of BuildEkat

---
 cmake/tpls/EkatBuildEkat.cmake | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmake/tpls/EkatBuildEkat.cmake b/cmake/tpls/EkatBuildEkat.cmake
index 7a64e07..fac72fb 100644
--- a/cmake/tpls/EkatBuildEkat.cmake
+++ b/cmake/tpls/EkatBuildEkat.cmake
@@ -54,7 +54,7 @@ macro (BuildEkat)
       # The following are only for testing
       ENABLE_TESTS
       TEST_MAX_THREADS
-      TEST_THREADS_INC
+      TEST_THREAD_INC
       TEST_PACK_SIZE
       TEST_SMALL_PACK_SIZE
       TEST_POSSIBLY_NO_PACK
-- 
2.43.0


From 1c71e329a23bed675f133dc941ae55c802738471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:28 +0000
Subject: [PATCH 66/82] fix: ekat_log_mpi_policy.hpp includes what it uses

---
 src/logging/ekat_log_mpi_policy.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/logging/ekat_log_mpi_policy.hpp b/src/logging/ekat_log_mpi_policy.hpp
index 3859d9b..87a61b4 100644
--- a/src/logging/ekat_log_mpi_policy.hpp
+++ b/src/logging/ekat_log_mpi_policy.hpp
@@ -3,6 +3,8 @@
 
 #include "ekat_comm.hpp"
 
+#include <string>
+
 // This file contains policy classes for choosing the behavior of the ekat
 // logger with respect to MPI ranks.
 
-- 
2.43.0


From e8d067a4f2c40a92f3a5bec388e1bc5797b93ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:21 +0000
Subject: [PATCH 67/82] fix: scalarize keeps the stride of a strided view of
 packs

---
 src/pack/ekat_pack_kokkos.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/pack/ekat_pack_kokkos.hpp b/src/pack/ekat_pack_kokkos.hpp
index 89140bc..6ab742f 100644
--- a/src/pack/ekat_pack_kokkos.hpp
+++ b/src/pack/ekat_pack_kokkos.hpp
@@ -189,9 +189,26 @@ struct ScalarizeHelper<Pack<T,N>>
   template <typename DT, typename... Props>
   KOKKOS_FORCEINLINE_FUNCTION
   static auto scalarize (const Kokkos::View<DT, Props...>& vp)
+  {
+    auto ret = scalarize_contiguous(vp);
+    if constexpr (Kokkos::View<DT, Props...>::rank>1 and GetRanks<DT>::rank_dynamic>0) {
+      // The first dimension may be strided (e.g., if vp is a slice of another view)
+      auto vm = ret.impl_map();
+      vm.m_impl_offset.m_stride = vp.impl_map().stride_0()*N;
+      return decltype(ret)(ret.impl_track(),vm);
+    } else {
+      return ret;
+    }
+  }
+
+  template <typename DT, typename... Props>
+  KOKKOS_FORCEINLINE_FUNCTION
+  static auto scalarize_contiguous (const Kokkos::View<DT, Props...>& vp)
   {
     using ret_t = Unmanaged<Kokkos::View<data_t<DT>, Props...> >;
     constexpr int rank = Kokkos::View<DT, Props...>::rank;
+    static_assert (rank<=1 or std::is_same_v<typename ret_t::array_layout,Kokkos::LayoutRight>,
+        "Packs are contiguous along the last dimension, so ScalarizeHelper only supports LayoutRight.\n");
     static_assert (rank<=7, "ScalarizeHelper only supports up to rank-7 views.\n");
 
     if constexpr (rank==0) {
-- 
2.43.0


From 0a23ad90bc97ae7d1e2c3788309d617e4f435d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:21 +0000
Subject: [PATCH 68/82] fix: repack keeps the strides of a strided view

---
 src/pack/ekat_pack_kokkos.hpp | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/pack/ekat_pack_kokkos.hpp b/src/pack/ekat_pack_kokkos.hpp
index 6ab742f..fa7340c 100644
--- a/src/pack/ekat_pack_kokkos.hpp
+++ b/src/pack/ekat_pack_kokkos.hpp
@@ -284,8 +284,33 @@ auto repack (const Kokkos::View<DT,Props...>& src)
     layout.dimension[i] = src.extent(i);
   }
   layout.dimension[rank-1] = ekat::PackInfo<N>::num_packs(src.extent(rank-1));
-  
-  return dst_view_t(packed_data,layout);
+
+  static_assert (rank==1 or not std::is_same_v<array_layout,Kokkos::LayoutLeft>,
+      "Packs are contiguous along the last dimension, so LayoutLeft cannot be repacked.\n");
+
+  // The input view may be strided (e.g., if it is a slice of another view)
+  if constexpr (std::is_same_v<array_layout,Kokkos::LayoutStride>) {
+    EKAT_KERNEL_REQUIRE_MSG (N==1 or src.stride(packed_dim)==1,
+        "Error! Cannot pack input view, as its last dimension is not contiguous.\n");
+    for (int i=0; i<rank; ++i) {
+      layout.stride[i] = src.stride(i);
+      if (i<packed_dim) {
+        EKAT_KERNEL_REQUIRE_MSG (src.stride(i) % N == 0,
+            "Error! Cannot pack input view, as the pack size does not divide its strides.\n");
+        layout.stride[i] /= N;
+      }
+    }
+    return dst_view_t(packed_data,layout);
+  } else if constexpr (rank>1) {
+    EKAT_KERNEL_REQUIRE_MSG (src.stride(0) % N == 0,
+        "Error! Cannot pack input view, as the pack size does not divide its strides.\n");
+    dst_view_t dst(packed_data,layout);
+    auto vm = dst.impl_map();
+    vm.m_impl_offset.m_stride = src.stride(0) / N;
+    return dst_view_t(dst.impl_track(),vm);
+  } else {
+    return dst_view_t(packed_data,layout);
+  }
 }
 
 //
-- 
2.43.0


From 1f005a27483097cec82fd86d57c4022507d5f6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:21 +0000
Subject: [PATCH 69/82] fix: broadcasts of strided views show the right entries
 or are refused

---
 src/kokkos/ekat_view_broadcast.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/kokkos/ekat_view_broadcast.hpp b/src/kokkos/ekat_view_broadcast.hpp
index 271b2f6..77b9465 100644
--- a/src/kokkos/ekat_view_broadcast.hpp
+++ b/src/kokkos/ekat_view_broadcast.hpp
@@ -60,7 +60,8 @@ public:
         "[ViewBroadcast] Badly sized extents vector.\n");
 
     // Init all dims as "ignored", then set up the ones actually picked
-    typename ToView::traits::array_layout impl_layout;
+    using layout_t = typename ToView::traits::array_layout;
+    layout_t impl_layout;
     int ifrom = 0;
     for (int i=0; i<to_rank; ++i) {
       if (extents[i]<=0) {
@@ -69,17 +70,34 @@ public:
         impl_layout.dimension[i] = from_v.extent_int(ifrom);
         m_shape[i] = from_v.extent_int(ifrom);
         m_coeff[i] = 1;
+        if constexpr (std::is_same_v<layout_t,Kokkos::LayoutStride>) {
+          impl_layout.stride[i] = from_v.stride(ifrom);
+        }
         ++ifrom;
       } else {
         impl_layout.dimension[i] = 1;
         m_shape[i] = extents[i];
         m_coeff[i] = 0;
+        if constexpr (std::is_same_v<layout_t,Kokkos::LayoutStride>) {
+          impl_layout.stride[i] = 1;
+        }
       }
     }
     EKAT_REQUIRE_MSG (ifrom==from_rank,
         "Error! Too many positive extents in input vector.\n");
 
     m_view_impl = view_type(from_v.data(),impl_layout);
+
+    // The view above must find the entries of from_v where from_v has them
+    ifrom = 0;
+    for (int i=0; i<to_rank; ++i) {
+      if (m_coeff[i]==1) {
+        EKAT_REQUIRE_MSG (from_v.extent(ifrom)<=1 or m_view_impl.stride(i)==from_v.stride(ifrom),
+            "[ViewBroadcast] Error! The layout of ToView does not allow the strides of the input view.\n"
+            "  Use Kokkos::LayoutStride for ToView instead.\n");
+        ++ifrom;
+      }
+    }
   }
 
   KOKKOS_INLINE_FUNCTION
-- 
2.43.0


From 2be74dc39f2cd787acbc8cf61bfcc7129a1b6368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:21 +0000
Subject: [PATCH 70/82] fix: reshape of a strided view is refused, as its
 entries are not in order

---
 src/kokkos/ekat_view_utils.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kokkos/ekat_view_utils.hpp b/src/kokkos/ekat_view_utils.hpp
index a8dcf5f..e7ce090 100644
--- a/src/kokkos/ekat_view_utils.hpp
+++ b/src/kokkos/ekat_view_utils.hpp
@@ -16,6 +16,7 @@ typename std::enable_if<GetRanks<DataTypeOut>::rank_dynamic==0,
 reshape (Kokkos::View<DataTypeIn,Props...> view_in) {
   typename ekat::Unmanaged<Kokkos::View<DataTypeOut,Props...>> view_out(view_in.data());
   assert (view_in.size()==view_out.size());
+  assert (view_in.extent(0)<=1 or view_in.span_is_contiguous());
   return view_out;
 }
 
@@ -26,6 +27,7 @@ reshape (Kokkos::View<DataTypeIn,Props...> view_in,
          const int dim0) {
   typename ekat::Unmanaged<Kokkos::View<DataTypeOut,Props...>> view_out(view_in.data(),dim0);
   assert (view_in.size()==view_out.size());
+  assert (view_in.extent(0)<=1 or view_in.span_is_contiguous());
   return view_out;
 }
 
@@ -36,6 +38,7 @@ reshape (Kokkos::View<DataTypeIn,Props...> view_in,
          const int dim0, const int dim1) {
   typename ekat::Unmanaged<Kokkos::View<DataTypeOut,Props...>> view_out(view_in.data(),dim0,dim1);
   assert (view_in.size()==view_out.size());
+  assert (view_in.extent(0)<=1 or view_in.span_is_contiguous());
   return view_out;
 }
 
-- 
2.43.0


From e95b2362e825dea92e629b466be86ebc461d714a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:21 +0000
Subject: [PATCH 71/82] fix: genRandArray fills a strided view and nothing else

---
 src/kokkos/ekat_view_utils.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/kokkos/ekat_view_utils.hpp b/src/kokkos/ekat_view_utils.hpp
index e7ce090..8fcd440 100644
--- a/src/kokkos/ekat_view_utils.hpp
+++ b/src/kokkos/ekat_view_utils.hpp
@@ -47,7 +47,17 @@ typename std::enable_if<Kokkos::is_view<ViewType>::value, void>::type
 genRandArray(ViewType view, rngAlg &engine, PDF &&pdf) {
   auto mirror = Kokkos::create_mirror_view(view);
   for (size_t i = 0; i < mirror.size(); ++i) {
-    mirror.data()[i] = pdf(engine);
+    // The view may be strided (e.g., if it is a slice of another view)
+    size_t offset = i;
+    if (not mirror.span_is_contiguous()) {
+      offset = 0;
+      size_t k = i;
+      for (int d = ViewType::rank-1; d >= 0; --d) {
+        offset += (k % mirror.extent(d)) * mirror.stride(d);
+        k /= mirror.extent(d);
+      }
+    }
+    mirror.data()[offset] = pdf(engine);
   }
   Kokkos::deep_copy(view, mirror);
 }
-- 
2.43.0


From 567aff1fe423a87d7ed9ce05df4d8295b7cdaf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:43 +0000
Subject: [PATCH 72/82] fix: transpose indexes arrays of more entries than an
 int can number

---
 src/kokkos/ekat_math_utils.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kokkos/ekat_math_utils.hpp b/src/kokkos/ekat_math_utils.hpp
index 1c77912..d0b7f64 100644
--- a/src/kokkos/ekat_math_utils.hpp
+++ b/src/kokkos/ekat_math_utils.hpp
@@ -97,8 +97,8 @@ template <TransposeDirection::Enum direction, typename Scalar>
 void transpose(const Scalar* sv, Scalar* dv, int ni, int nk) {
   for (int k = 0; k < nk; ++k) {
     for (int i = 0; i < ni; ++i) {
-      const int cidx = nk*i + k;
-      const int fidx = ni*k + i;
+      const size_t cidx = static_cast<size_t>(nk)*i + k;
+      const size_t fidx = static_cast<size_t>(ni)*k + i;
       if (direction == TransposeDirection::c2f) {
         dv[fidx] = sv[cidx];
       }
@@ -125,8 +125,8 @@ void transpose(const Scalar* sv, Scalar* dv, int ni, int nk, int nj) {
   for (int j = 0; j < nj; ++j) {
     for (int k = 0; k < nk; ++k) {
       for (int i = 0; i < ni; ++i) {
-        const int cidx = (nk*nj)*i + k*nj + j;
-        const int fidx = (ni*nk)*j + k*ni + i;
+        const size_t cidx = (static_cast<size_t>(nk)*i + k)*nj + j;
+        const size_t fidx = (static_cast<size_t>(nk)*j + k)*ni + i;
         if (direction == TransposeDirection::c2f) {
           dv[fidx] = sv[cidx];
         }
-- 
2.43.0


From 1c24f840e1c036c7c312b64c4cb08c0be1eb15a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:00 +0000
Subject: [PATCH 73/82] fix: a pack update that keeps nothing of the old value
 overwrites it

---
 src/pack/ekat_pack.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pack/ekat_pack.hpp b/src/pack/ekat_pack.hpp
index 0217263..4b319eb 100644
--- a/src/pack/ekat_pack.hpp
+++ b/src/pack/ekat_pack.hpp
@@ -349,7 +349,7 @@ struct Pack {
   // set method, in that they allow to select the entries where the update happens.
   // NOTES:
   //  - by default, the update uses alpha=1 and beta=0, which means it's the equivalent of operator=
-  //    (or set, for the overloads with a mask).
+  //    (or set, for the overloads with a mask). If beta=0, the old value does not matter, even if NaN.
   //  - we return *this, so we can pipe calls: y.update(x,2,1)[2] performs the update and then
   //    extracts the 3rd entry
   template<typename T, typename CoeffT = scalar>
@@ -357,7 +357,7 @@ struct Pack {
   Pack& update (const Pack<T,n>& x, const CoeffT alpha = 1, const CoeffT beta = 0) {
     vector_simd
     for (int i=0; i<n; ++i) {
-      d[i] = beta*d[i] + alpha*x[i];
+      d[i] = beta==0 ? alpha*x[i] : beta*d[i] + alpha*x[i];
     }
     return *this;
   }
@@ -366,7 +366,7 @@ struct Pack {
   KOKKOS_FORCEINLINE_FUNCTION
   Pack& update (const Mask<n>& m, const Pack<T,n>& x, const CoeffT alpha = 1, const CoeffT beta = 0) {
     ekat_masked_loop(m,i)
-      d[i] = beta*d[i] + alpha*x[i];
+      d[i] = beta==0 ? alpha*x[i] : beta*d[i] + alpha*x[i];
     return *this;
   }
 
@@ -376,9 +376,9 @@ struct Pack {
     vector_simd
     for (int i=0; i<n; ++i) {
       if (m[i])
-        d[i] = beta*d[i] + alpha*x_true[i];
+        d[i] = beta==0 ? alpha*x_true[i] : beta*d[i] + alpha*x_true[i];
       else
-        d[i] = beta*d[i] + alpha*x_false[i];
+        d[i] = beta==0 ? alpha*x_false[i] : beta*d[i] + alpha*x_false[i];
     }
     return *this;
   }
-- 
2.43.0


From 6217e0712511b89193f42f1aca191ee5dafd19a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:44 +0000
Subject: [PATCH 74/82] fix: write_yaml_file refuses to return from an
 incomplete write

---
 src/parser/ekat_yaml.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index 8aa1fd5..36ab36b 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -431,6 +431,12 @@ void write_yaml_file (const std::string& fname, const ParameterList& params) {
         << "---\n"
         << out.c_str() << "\n"
         << "...\n";
+
+  // Errors may only show up once the buffered text is written out
+  ofile.close();
+  EKAT_REQUIRE_MSG (ofile.good(),
+      "Error! Could not write to file.\n"
+      " - file name: " + fname + "\n");
 }
 
 } // namespace ekat
-- 
2.43.0


From 607cd742a4f116ed316f5facb19a23150f66a125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:44 +0000
Subject: [PATCH 75/82] fix: a string with control characters is not written as
 a literal block

---
 src/parser/ekat_yaml.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index 36ab36b..0ae0438 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -301,10 +301,14 @@ void write_string (const std::string& s, YAML::Emitter& out) {
 
 // Whether a multiline string can be written as a literal block, which can't represent every string
 bool can_use_literal (const std::string& s) {
+  // Nothing can be escaped in a literal block, so it must not contain control characters
+  auto is_control = [](const unsigned char c) {
+    return (c<' ' and c!='\n' and c!='\t') or c==127;
+  };
   const auto n = s.size();
   return n>1 and s[n-1]=='\n' and s[n-2]!='\n' and
          not std::isspace(static_cast<unsigned char>(s[0])) and
-         s.find('\r')==std::string::npos;
+         std::none_of(s.begin(),s.end(),is_control);
 }
 
 void write_parameter_list (const ParameterList& params, YAML::Emitter& out) {
-- 
2.43.0


From 8e65f638b7dfccd3e3fa9d33b806f895b6d199ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:44 +0000
Subject: [PATCH 76/82] fix: long names are written so that the yaml parser
 accepts them

---
 src/parser/ekat_yaml.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index 0ae0438..2fceabc 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -299,6 +299,15 @@ void write_string (const std::string& s, YAML::Emitter& out) {
   out << s;
 }
 
+// Write the name of a parameter or of a sublist
+void write_key (const std::string& name, YAML::Emitter& out) {
+  // A simple key is limited to 1024 characters, and a character may be escaped with up to 4
+  if (name.size()>250) {
+    out << YAML::LongKey;
+  }
+  out << YAML::Key << name << YAML::Value;
+}
+
 // Whether a multiline string can be written as a literal block, which can't represent every string
 bool can_use_literal (const std::string& s) {
   // Nothing can be escaped in a literal block, so it must not contain control characters
@@ -316,16 +325,19 @@ void write_parameter_list (const ParameterList& params, YAML::Emitter& out) {
   auto try_values = [&](const std::string& pname) -> bool {
     if (params.isType<int>(pname)) {
       auto v = params.get<int>(pname);
-      out << YAML::Key << pname << YAML::Value << v;
+      write_key(pname,out);
+      out << v;
     } else if (params.isType<bool>(pname)) {
       auto v = params.get<bool>(pname);
-      out << YAML::Key << pname << YAML::Value << v;
+      write_key(pname,out);
+      out << v;
     } else if (params.isType<double>(pname)) {
       auto v = params.get<double>(pname);
-      out << YAML::Key << pname << YAML::Value << write_param(v);
+      write_key(pname,out);
+      out << write_param(v);
     } else if (params.isType<std::string>(pname)) {
       auto v = params.get<std::string>(pname);
-      out << YAML::Key << pname << YAML::Value;
+      write_key(pname,out);
       if (can_use_literal(v))
         out << YAML::Literal << v; // Use Literal for multiline
       else
@@ -377,7 +389,7 @@ void write_parameter_list (const ParameterList& params, YAML::Emitter& out) {
 
     int seq_len = len(ivec)+len(cvec)+len(dvec)+len(svec);
 
-    out << YAML::Key << pname << YAML::Value;
+    write_key(pname,out);
 
     // Format sequences inline only if reasonably short
     if (seq_len<100)
@@ -407,7 +419,8 @@ void write_parameter_list (const ParameterList& params, YAML::Emitter& out) {
 
   // Write sublists
   for (const auto& sname : params.sublist_names()) {
-    out << YAML::Key << sname << YAML::Value << YAML::BeginMap;
+    write_key(sname,out);
+    out << YAML::BeginMap;
     write_parameter_list(params.sublist(sname),out);
     out << YAML::EndMap;
   }
-- 
2.43.0


From e29c05380b0216ea08fe178f077d3e9f313f2714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:44 +0000
Subject: [PATCH 77/82] fix: an integer with a plus sign in a yaml file is an
 integer

---
 src/parser/ekat_yaml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index 2fceabc..39e281d 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -35,7 +35,7 @@ bool is_type<bool> (const std::string& s) {
 template<>
 bool is_type<int> (const std::string& s) {
   if (s.size()==0) return false;
-  const auto digits = s[0]=='-' ? s.substr(1) : s;
+  const auto digits = (s[0]=='-' or s[0]=='+') ? s.substr(1) : s;
   if (digits.size()==0 or digits.find_first_not_of("0123456789")!=std::string::npos) {
     return false;
   }
-- 
2.43.0


From 09ed423e933072d4119be179025193beb1c93446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:44 +0000
Subject: [PATCH 78/82] fix: take_many_refs takes spaces of the type of its
 views

---
 src/kokkos/ekat_workspace_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index a27a431..24c1e33 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -428,7 +428,7 @@ void WorkspaceManager<T, D>::Workspace::take_many_refs(
   // for (size_t i=0; i<N; ++i) {
   //   names[i] = unnamed();
   // }
-  take_many(names,ptrs);
+  take_many<N,typename V::value_type>(names,ptrs);
 }
 
 template <typename T, typename D>
-- 
2.43.0


From 6aca0604ad0e8d51b81186c1bb25078f5fdc07c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:44 +0000
Subject: [PATCH 79/82] fix: a factory can have keys other than strings

---
 src/core/ekat_factory.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/core/ekat_factory.hpp b/src/core/ekat_factory.hpp
index 1803150..20b3dd0 100644
--- a/src/core/ekat_factory.hpp
+++ b/src/core/ekat_factory.hpp
@@ -82,6 +82,16 @@ private:
            "          We have no idea how to print the registered products, so we just print this message. Sorry.\n";
   }
 
+  static std::string print_key (const key_type& key) {
+    if constexpr (StreamExists<key_type>::value) {
+      std::stringstream ss;
+      ss << "'" << key << "'";
+      return ss.str();
+    } else {
+      return "(of type " + std::string(typeid(key_type).name()) + ")";
+    }
+  }
+
   Factory () = default;
   Factory (const factory_type&) = delete;
   factory_type& operator= (const factory_type&) = delete;
@@ -140,7 +150,7 @@ create (const key_type& key,ConstructorArgs&& ...args)
   // Check that the requested product is registered
   EKAT_REQUIRE_MSG(it!=m_register.end(),
                      "[" + m_factory_name + "] Error!\n"
-                     "        The key '" + key + "' is not associated to any registered product.\n"
+                     "        The key " + print_key(key) + " is not associated to any registered product.\n"
                      "        The list of registered product is: " + print_registered_products() + "\n"
                      "        Did you forget to register it?\n");
 
-- 
2.43.0


From 56324adb88bdb4855f917060eed2f13b275adad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:44 +0000
Subject: [PATCH 80/82] fix: the name of a factory is set once, before it is
 first used

---
 src/core/ekat_factory.hpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/core/ekat_factory.hpp b/src/core/ekat_factory.hpp
index 20b3dd0..34e95ba 100644
--- a/src/core/ekat_factory.hpp
+++ b/src/core/ekat_factory.hpp
@@ -35,9 +35,6 @@ public:
   {
     static factory_type factory;
 
-    // We rely on whatever the implementation can give us
-    factory.m_factory_name = typeid(factory_type).name();
-
     return factory;
   }
 
@@ -45,7 +42,11 @@ public:
   size_t register_size () const { return m_register.size(); }
 
   // Return the name of the factory
-  static const std::string& name () { return m_factory_name; }
+  // We rely on whatever the implementation can give us
+  static const std::string& name () {
+    static const std::string factory_name = typeid(factory_type).name();
+    return factory_name;
+  }
 
   // Register a creator and returns true if it was successfully registered
   bool register_product (const key_type& key,
@@ -77,7 +78,7 @@ private:
   typename std::enable_if<OpStreamExists==0,std::string>::type
   print_registered_products_impl () const {
     // We cannot use << to print out the keys in this factory, so we just print a message.
-    return " Warning! Cannot print registered products in factory " + m_factory_name + ".\n"
+    return " Warning! Cannot print registered products in factory " + name() + ".\n"
            "          The type " + std::string(typeid(key_type).name()) + " does not overload the '<<' operator.\n"
            "          We have no idea how to print the registered products, so we just print this message. Sorry.\n";
   }
@@ -99,15 +100,8 @@ private:
   factory_type& operator= (factory_type&&) = delete;
 
   register_type         m_register;
-  static std::string    m_factory_name;
 };
 
-template<typename AbstractProduct,
-         typename KeyType,
-         typename PointerType,
-         typename... ConstructorArgs>
-std::string Factory<AbstractProduct,KeyType,PointerType,ConstructorArgs...>::m_factory_name;
-
 // ========================== IMPLEMENTATION ======================== //
 
 template<typename AbstractProduct,
@@ -141,7 +135,7 @@ create (const key_type& key,ConstructorArgs&& ...args)
   //       However, this check is symptomatic of a larger problem (not registering product)
   //       than simply not finding the requested one (perhaps because of spelling).
   EKAT_REQUIRE_MSG(m_register.size()>0,
-                     "[" + m_factory_name + "] Error!\n"
+                     "[" + name() + "] Error!\n"
                      "        There are no products registered in the factory.\n"
                      "        Did you forget to call 'register_product'?\n");
 
@@ -149,7 +143,7 @@ create (const key_type& key,ConstructorArgs&& ...args)
 
   // Check that the requested product is registered
   EKAT_REQUIRE_MSG(it!=m_register.end(),
-                     "[" + m_factory_name + "] Error!\n"
+                     "[" + name() + "] Error!\n"
                      "        The key " + print_key(key) + " is not associated to any registered product.\n"
                      "        The list of registered product is: " + print_registered_products() + "\n"
                      "        Did you forget to register it?\n");
-- 
2.43.0


From a1c6ef2f8c30bc338e24bc373122139b351d86b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:44 +0000
Subject: [PATCH 81/82] fix: a parameter whose value cannot be copied is not
 left in the list without value

---
 src/core/ekat_parameter_list.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/ekat_parameter_list.hpp b/src/core/ekat_parameter_list.hpp
index 7b37af2..7de11ca 100644
--- a/src/core/ekat_parameter_list.hpp
+++ b/src/core/ekat_parameter_list.hpp
@@ -149,7 +149,9 @@ inline T& ParameterList::get (const std::string& name, const T& def_value) {
 
 template<typename T>
 inline void ParameterList::set (const std::string& name, const T& value) {
-  m_params[name] = value;
+  // Copy first: if the copy throws, the list must not be left with a param without value
+  std::any copy(value);
+  m_params[name] = std::move(copy);
 }
 
 template<typename T>
-- 
2.43.0


From df1f1902cdc67733dbd0d131e73abca35aedb2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:44 +0000
Subject: [PATCH 82/82] fix: printing a parameter list leaves the format of the
 stream as it was

---
 src/core/ekat_parameter_list.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/ekat_parameter_list.cpp b/src/core/ekat_parameter_list.cpp
index 58a3155..13a4d98 100644
--- a/src/core/ekat_parameter_list.cpp
+++ b/src/core/ekat_parameter_list.cpp
@@ -41,6 +41,9 @@ ParameterList& ParameterList::sublist (const std::string& name) {
 void ParameterList::print(std::ostream& out, const int indent, const int indent_inc) const {
   std::string tab(indent,' ');
 
+  // Leave the format of the stream as we found it
+  const auto flags = out.flags();
+
   out << tab << name() << ":\n";
   tab.append(indent_inc,' ');
   for (const auto& [name,p] : m_params) {
@@ -62,6 +65,8 @@ void ParameterList::print(std::ostream& out, const int indent, const int indent_
     out << std::endl;
   }
 
+  out.flags(flags);
+
   for (const auto& [name,sl] : m_sublists) {
     sl.print(out,indent+indent_inc,indent_inc);
   }
-- 
2.43.0

