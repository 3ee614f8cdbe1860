From b7bd2012093543fe7328836bc4e28e3675693283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:42 +0000
Subject: [PATCH 01/48] fix: never read bit-packed data past the end of the
 BUFR message

---
 wreport/bufr/input.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/bufr/input.h b/wreport/bufr/input.h
index 10da1a6..b95fef0 100644
--- a/wreport/bufr/input.h
+++ b/wreport/bufr/input.h
@@ -166,7 +166,7 @@ public:
     {
         uint32_t result = 0;
 
-        if (s4_cursor == data_len)
+        if (s4_cursor > data_len || n > (data_len - s4_cursor) * 8 + pbyte_len)
             parse_error("end of buffer while looking for %u bits of bit-packed data", n);
 
         // TODO: review and benchmark and possibly simplify
@@ -195,7 +195,7 @@ public:
      */
     void skip_bits(unsigned n)
     {
-        if (s4_cursor == data_len)
+        if (s4_cursor > data_len || n > (data_len - s4_cursor) * 8 + pbyte_len)
             parse_error("end of buffer while looking for %u bits of bit-packed data", n);
 
         for (unsigned i = 0; i < n; i++)
-- 
2.43.0


From 9dcf0e504b2aa3e14f5be1c4a34aa78ac25c8248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:42 +0000
Subject: [PATCH 02/48] fix: encode missing values wider than 32 bits as all
 ones

---
 wreport/buffers/bufr.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wreport/buffers/bufr.h b/wreport/buffers/bufr.h
index e22adcb..4b37723 100644
--- a/wreport/buffers/bufr.h
+++ b/wreport/buffers/bufr.h
@@ -69,6 +69,8 @@ struct BufrOutput
     /// Append a missing value \a len_bits long
     void append_missing(unsigned len_bits)
     {
+        for ( ; len_bits > 32; len_bits -= 32)
+            add_bits(0xffffffff, 32);
         add_bits(0xffffffff, len_bits);
     }
 
-- 
2.43.0


From 43aa7a48325a1be4e54b7b714bdc4c18063a4c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:30 +0000
Subject: [PATCH 03/48] fix: do not read outside the table of powers of 10 for
 large scales

---
 wreport/varinfo.cc | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/wreport/varinfo.cc b/wreport/varinfo.cc
index 97768b6..4b8b050 100644
--- a/wreport/varinfo.cc
+++ b/wreport/varinfo.cc
@@ -236,12 +236,20 @@ static const double scales[] = {
 	10000000000000000.0,
 };
 
+// Return 10^exp
+static inline double scale_factor(unsigned exp)
+{
+    if (exp < sizeof(scales) / sizeof(scales[0]))
+        return scales[exp];
+    return pow(10.0, exp);
+}
+
 double _Varinfo::decode_decimal(int val) const
 {
     if (scale > 0)
-        return val / scales[scale];
+        return val / scale_factor(scale);
     else if (scale < 0)
-        return val * scales[-scale];
+        return val * scale_factor(-scale);
     else
         return val;
 }
@@ -252,17 +260,17 @@ double _Varinfo::decode_binary(uint32_t ival) const
         error_consistency::throwf("cannot decode %01d%02d%03d from binary, because the information needed is missing from the B table in use",
                 WR_VAR_FXY(code));
     if (scale >= 0)
-        return ((double)ival + bit_ref) / scales[scale];
+        return ((double)ival + bit_ref) / scale_factor(scale);
     else
-        return ((double)ival + bit_ref) * scales[-scale];
+        return ((double)ival + bit_ref) * scale_factor(-scale);
 }
 
 int _Varinfo::encode_decimal(double fval) const
 {
     if (scale > 0)
-        return (int)rint(fval * scales[scale]);
+        return (int)rint(fval * scale_factor(scale));
     else if (scale < 0)
-        return (int)rint(fval / scales[-scale]);
+        return (int)rint(fval / scale_factor(-scale));
     else
         return (int)rint(fval);
 }
@@ -270,9 +278,9 @@ int _Varinfo::encode_decimal(double fval) const
 double _Varinfo::round_decimal(double val) const
 {
     if (scale > 0)
-        return round(val * scales[scale]) / scales[scale];
+        return round(val * scale_factor(scale)) / scale_factor(scale);
     else if (scale < 0)
-        return round(val / scales[-scale]) * scales[-scale];
+        return round(val / scale_factor(-scale)) * scale_factor(-scale);
     else
         return round(val);
 }
@@ -284,9 +292,9 @@ unsigned _Varinfo::encode_binary(double fval) const
                 WR_VAR_FXY(code));
     double res;
     if (scale > 0)
-        res = rint((fval * scales[scale]) - bit_ref);
+        res = rint((fval * scale_factor(scale)) - bit_ref);
     else if (scale < 0)
-        res = rint((fval / scales[-scale] - bit_ref));
+        res = rint((fval / scale_factor(-scale) - bit_ref));
     else
         res = rint(fval - bit_ref);
     if (res < 0)
-- 
2.43.0


From dc8675fdda65a4ea646bbd5918fc750c4523b36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:30 +0000
Subject: [PATCH 04/48] fix: do not accept class 31 values one past the end of
 their binary range

---
 wreport/varinfo.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wreport/varinfo.cc b/wreport/varinfo.cc
index 4b8b050..8dca31e 100644
--- a/wreport/varinfo.cc
+++ b/wreport/varinfo.cc
@@ -200,8 +200,11 @@ void _Varinfo::compute_range()
                 // subsets, and the delayed replication field is 8
                 // bits, so 255 is the missing value, and if we
                 // disallow it here we cannot import radars anymore.
+                // Still, 2^bit_len does not fit in bit_len bits.
                 if (WR_VAR_X(code) != 31)
                     bit_max -= 2;
+                else
+                    bit_max -= 1;
                 // We subtract 2 because 10^len-1 is the
                 // CREX missing value
                 int dec_min = static_cast<int>(-(intexp10(len) - 1.0));
-- 
2.43.0


From 3a52a14c426d1a2547dd945d4e44cea4694137b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:30 +0000
Subject: [PATCH 05/48] fix: avoid integer overflow computing the range of wide
 binary fields

---
 wreport/varinfo.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wreport/varinfo.cc b/wreport/varinfo.cc
index 8dca31e..b41523d 100644
--- a/wreport/varinfo.cc
+++ b/wreport/varinfo.cc
@@ -191,8 +191,8 @@ void _Varinfo::compute_range()
                 imin =  static_cast<int>(-(intexp10(len) - 1.0));
                 imax = static_cast<int>((intexp10(len) - 2.0));
             } else {
-                int bit_min = bit_ref;
-                int bit_max = (1 << bit_len) + bit_ref;
+                int64_t bit_min = bit_ref;
+                int64_t bit_max = bit_len < 62 ? (int64_t(1) << bit_len) + bit_ref : INT64_MAX;
                 // We subtract 2 because 2^bit_len-1 is the
                 // BUFR missing value.
                 // We cannot subtract 2 from the delayed replication
@@ -207,11 +207,11 @@ void _Varinfo::compute_range()
                     bit_max -= 1;
                 // We subtract 2 because 10^len-1 is the
                 // CREX missing value
-                int dec_min = static_cast<int>(-(intexp10(len) - 1.0));
-                int dec_max = static_cast<int>((intexp10(len) - 2.0));
+                int64_t dec_min = static_cast<int>(-(intexp10(len) - 1.0));
+                int64_t dec_max = static_cast<int>((intexp10(len) - 2.0));
 
-                imin = max(bit_min, dec_min);
-                imax = min(bit_max, dec_max);
+                imin = static_cast<int>(max(bit_min, dec_min));
+                imax = static_cast<int>(min(bit_max, dec_max));
             }
             dmin = decode_decimal(imin);
             dmax = decode_decimal(imax);
-- 
2.43.0


From c03d3fbfb46026f53edb0d903e0ebd073aabb9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:30 +0000
Subject: [PATCH 06/48] fix: refuse to encode values that do not fit their
 binary field

---
 wreport/varinfo.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wreport/varinfo.cc b/wreport/varinfo.cc
index b41523d..38a89d9 100644
--- a/wreport/varinfo.cc
+++ b/wreport/varinfo.cc
@@ -303,6 +303,9 @@ unsigned _Varinfo::encode_binary(double fval) const
     if (res < 0)
         error_consistency::throwf("Cannot encode %01d%02d%03d %f to %u bits using scale %d and ref %d: encoding gives negative value %f",
                 WR_VAR_FXY(code), fval, bit_len, scale, bit_ref, res);
+    if (res > (bit_len < 32 ? (1u << bit_len) - 1 : 0xffffffffu))
+        error_consistency::throwf("Cannot encode %01d%02d%03d %f to %u bits using scale %d and ref %d: encoding gives value %f which does not fit",
+                WR_VAR_FXY(code), fval, bit_len, scale, bit_ref, res);
     return (unsigned)res;
 }
 
-- 
2.43.0


From 3b2cdebfca03216eacd0f532f8865becf1c061de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:30 +0000
Subject: [PATCH 07/48] fix: check the domain of integer variables set from NaN
 or huge doubles

---
 wreport/var.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 844f9ed..0a51585 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -9,6 +9,7 @@
 #include <cstring>
 #include <cctype>
 #include <cmath>
+#include <climits>
 #include <iostream>
 
 using namespace std;
@@ -534,7 +535,15 @@ void Var::setd(double val)
         case Vartype::Binary:
             error_type::throwf("seti: %01d%02d%03d (%s) is an opaque binary",
                     WR_VAR_FXY(m_info->code), m_info->desc);
-        case Vartype::Integer: assign_i_checked(static_cast<int>(lround(val))); break;
+        case Vartype::Integer: {
+            double rounded = round(val);
+            if (rounded >= INT_MIN && rounded <= INT_MAX)
+                assign_i_checked(static_cast<int>(rounded));
+            else
+                // NaN or too big for an int: always outside the domain
+                assign_d_checked(val);
+            break;
+        }
         case Vartype::Decimal: assign_d_checked(val); break;
     }
 }
-- 
2.43.0


From adad4f3c3bf5b10a26c9fb350e7a3e86d172b2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:01 +0000
Subject: [PATCH 08/48] fix: check the domain of numbers parsed from strings
 that do not fit 32 bits

---
 wreport/var.cc | 34 ++++++++++++++++++++++++----------
 wreport/var.h  |  6 ++++++
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 0a51585..ac56470 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -76,12 +76,20 @@ size_t uint32_to_str(uint32_t value, unsigned value_digits, char *dst)
 }
 
 // From http://stackoverflow.com/questions/16826422/c-most-efficient-way-to-convert-string-to-int-faster-than-atoi
-unsigned str_to_unsigned(const char *str)
-{
-    unsigned val = 0;
+//
+// Numbers that do not fit an int32_t are returned as some value that does not
+// fit an int32_t
+int64_t str_to_int(const char *str)
+{
+    bool negative = *str == '-';
+    if (negative) ++str;
+    int64_t val = 0;
     while (*str)
+    {
         val = val * 10 + (*str++ - '0');
-    return val;
+        if (val > UINT32_MAX) val = UINT32_MAX;
+    }
+    return negative ? -val : val;
 }
 
 bool isnumber(const char *str)
@@ -430,6 +438,16 @@ void Var::assign_i_checked(int32_t val)
     m_isset = true;
 }
 
+void Var::assign_i64_checked(int64_t val)
+{
+    if (val < INT_MIN)
+        assign_d_checked(-INFINITY);
+    else if (val > INT_MAX)
+        assign_d_checked(INFINITY);
+    else
+        assign_i_checked(static_cast<int32_t>(val));
+}
+
 void Var::assign_d_checked(double val)
 {
     // Guard against NaNs
@@ -558,10 +576,8 @@ void Var::setc(const char* val)
         case Vartype::Integer:
             if (!isnumber(val))
                 unset();
-            else if (*val == '-')
-                assign_i_checked(-str_to_unsigned(val + 1));
             else
-                assign_i_checked(str_to_unsigned(val));
+                assign_i64_checked(str_to_int(val));
             break;
     }
 }
@@ -591,10 +607,8 @@ void Var::sets(const std::string& val)
         case Vartype::Decimal:
             if (!isnumber(val.c_str()))
                 unset();
-            else if (val[0] == '-')
-                assign_i_checked(-str_to_unsigned(val.c_str() + 1));
             else
-                assign_i_checked(str_to_unsigned(val.c_str()));
+                assign_i64_checked(str_to_int(val.c_str()));
             break;
     }
 }
diff --git a/wreport/var.h b/wreport/var.h
index 46e1060..f1e107b 100644
--- a/wreport/var.h
+++ b/wreport/var.h
@@ -57,6 +57,12 @@ protected:
     /// Move the value from var. var is assumed to have the same varinfo as us. var is left unset.
     void move_value(Var& var);
     void assign_i_checked(int32_t val);
+
+    /**
+     * Assign an integer value parsed from a string, which may not fit in an
+     * int32_t
+     */
+    void assign_i64_checked(int64_t val);
     void assign_d_checked(double val);
     void assign_b_checked(const uint8_t* val, unsigned size);
     [[deprecated("Use the version with const uint8_t*")]] void assign_b_checked(uint8_t* val, unsigned size);
-- 
2.43.0


From 06a11c84a8f4281d02d5045cdfb0f4c53f7990e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:01 +0000
Subject: [PATCH 09/48] fix: assigning a Var to one with a different Varinfo
 takes its info and resizes its buffer

---
 wreport/var.cc | 23 ++++++++++++++++++++++-
 wreport/var.h  |  3 +++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index ac56470..c99c8a6 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -160,7 +160,7 @@ Var& Var::operator=(const Var& var)
     if (&var == this) return *this;
 
     // Copy info
-    m_info = var.m_info;
+    change_info(var.m_info);
 
     // Copy value
     copy_value(var);
@@ -173,6 +173,7 @@ Var& Var::operator=(const Var& var)
 Var& Var::operator=(Var&& var)
 {
     if (&var == this) return *this;
+    change_info(var.m_info);
     move_value(var);
     delete m_attrs;
     m_attrs = var.m_attrs;
@@ -206,6 +207,26 @@ bool Var::operator==(const Var& var) const
     return *m_attrs == *var.m_attrs;
 }
 
+void Var::change_info(Varinfo info)
+{
+    if (m_info == info) return;
+
+    // The old value buffer is dimensioned according to the old info
+    switch (m_info->type)
+    {
+        case Vartype::Binary:
+        case Vartype::String:
+            delete[] m_value.c;
+            break;
+        case Vartype::Integer:
+        case Vartype::Decimal:
+            break;
+    }
+    m_value.c = nullptr;
+    m_isset = false;
+    m_info = info;
+}
+
 void Var::allocate()
 {
     if (!m_value.c && !(m_value.c = new char[m_info->len + 1]))
diff --git a/wreport/var.h b/wreport/var.h
index f1e107b..15bd2df 100644
--- a/wreport/var.h
+++ b/wreport/var.h
@@ -49,6 +49,9 @@ protected:
     /// Attribute list (ordered by Varcode)
     Var* m_attrs;
 
+    /// Replace the variable info, discarding the value if the info changes
+    void change_info(Varinfo info);
+
     /// Make sure that m_value is allocated. It does nothing if it already is.
     void allocate();
 
-- 
2.43.0


From 1a510d65fcc281f3de3082e31a168e0b0516d0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:09 +0000
Subject: [PATCH 10/48] fix: recognise missing opaque values whose width is not
 a multiple of 8 bits

---
 wreport/bufr/input.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wreport/bufr/input.cc b/wreport/bufr/input.cc
index 5106f68..024dcd0 100644
--- a/wreport/bufr/input.cc
+++ b/wreport/bufr/input.cc
@@ -305,8 +305,9 @@ void Input::decode_binary(Var& dest)
     {
         unsigned count = toread > 8 ? 8 : toread;
         uint32_t bitval = get_bits(count);
-        /* Check that the string is not all 0xff, meaning missing value */
-        if (bitval != 0xff)
+        /* Check that the value is not all ones, meaning missing value. The
+         * last byte may have less than 8 bits */
+        if (bitval != (1u << count) - 1)
             missing = false;
         buf[len++] = bitval;
         toread -= count;
-- 
2.43.0


From 57382bc58074e8c3a45e88bc30b119e5fd104201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:51 +0000
Subject: [PATCH 11/48] fix: enqs() of an opaque variable returns all its bytes

---
 wreport/var.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index c99c8a6..93b4d4b 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -422,8 +422,9 @@ std::string Var::enqs() const
     switch (m_info->type)
     {
         case Vartype::String:
-        case Vartype::Binary:
             return m_value.c;
+        case Vartype::Binary:
+            return std::string(m_value.c, m_info->len);
         case Vartype::Integer:
         case Vartype::Decimal:
             return int32_to_stdstr(m_value.i);
-- 
2.43.0


From 4761442d35af40abc5cf92530618129e753aecef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:58 +0000
Subject: [PATCH 12/48] fix: comparing variables of different types does not
 read outside their values

---
 wreport/var.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 93b4d4b..eae6498 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -286,11 +286,16 @@ bool Var::value_equals(const Var& var) const
     switch (m_info->type)
     {
         case Vartype::Binary:
-            return memcmp(m_value.c, var.m_value.c, m_info->len) == 0;
+            return var.m_info->type == Vartype::Binary
+                && m_info->len == var.m_info->len
+                && memcmp(m_value.c, var.m_value.c, m_info->len) == 0;
         case Vartype::String:
-            return strcmp(m_value.c, var.m_value.c) == 0;
+            return var.m_info->type == Vartype::String
+                && strcmp(m_value.c, var.m_value.c) == 0;
         case Vartype::Integer:
         case Vartype::Decimal:
+            if (var.m_info->type != Vartype::Integer && var.m_info->type != Vartype::Decimal)
+                return false;
             return m_value.i == var.m_value.i;
     }
     error_consistency::throwf("unknown variable type %d", (int)m_info->type);
-- 
2.43.0


From bd8db409a6eeb2fada1bd499cbe542ee7c640f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:58 +0000
Subject: [PATCH 13/48] fix: a variable can be assigned from one of its own
 attributes

---
 wreport/var.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index eae6498..73af386 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -175,9 +175,11 @@ Var& Var::operator=(Var&& var)
     if (&var == this) return *this;
     change_info(var.m_info);
     move_value(var);
-    delete m_attrs;
+    // var can be one of our attributes
+    Var* old_attrs = m_attrs;
     m_attrs = var.m_attrs;
     var.m_attrs = nullptr;
+    delete old_attrs;
     return *this;
 }
 
@@ -759,9 +761,10 @@ void Var::setval(const Var& src)
 
 void Var::setattrs(const Var& src)
 {
+    // src can be this variable, or one of its attributes
+    Var* attrs = src.m_attrs ? new Var(*src.m_attrs) : nullptr;
     clear_attrs();
-    if (src.m_attrs)
-        m_attrs = new Var(*src.m_attrs);
+    m_attrs = attrs;
 }
 
 std::string Var::format(const char* ifundef) const
-- 
2.43.0


From dbdec45eebc3d7c2eba5647902280174d5c69016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:58 +0000
Subject: [PATCH 14/48] fix: setting text or opaque variables from other types
 of variables does not read past the end of the source

---
 wreport/var.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 73af386..4b5003f 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -749,8 +749,8 @@ void Var::setval(const Var& src)
     }
     switch (m_info->type)
     {
-        case Vartype::String: assign_c_checked(src.enqc(), m_info->len); break;
-        case Vartype::Binary: assign_b_checked(reinterpret_cast<const uint8_t*>(src.enqc()), m_info->len); break;
+        case Vartype::String: sets(src.enqs()); break;
+        case Vartype::Binary: sets(src.enqs()); break;
         case Vartype::Integer:
         case Vartype::Decimal:
             /// Convert and set the new value
-- 
2.43.0


From f6f31cc0218346a0c9c022f7464f6aa286e76af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:58 +0000
Subject: [PATCH 15/48] fix: setting an opaque variable from a short string
 does not read past its end

---
 wreport/var.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/var.h b/wreport/var.h
index 15bd2df..1d1d7d8 100644
--- a/wreport/var.h
+++ b/wreport/var.h
@@ -270,7 +270,7 @@ public:
     void set(int val) { seti(val); }
     void set(double val) { setd(val); }
     void set(const char* val) { setc(val); }
-    void set(const std::string& val) { setc(val.c_str()); }
+    void set(const std::string& val) { sets(val); }
     void set(const Var& var) { setval(var); setattrs(var); }
     /// @}
 
-- 
2.43.0


From 236d3f3e41b0b5404adc5e70e05da12c7683bbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:58 +0000
Subject: [PATCH 16/48] fix: setting an attribute by move unsets the source as
 documented

---
 wreport/var.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 4b5003f..3d91ba5 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -689,7 +689,7 @@ void Var::seta(const Var& attr)
 
 void Var::seta(Var&& attr)
 {
-    seta(unique_ptr<Var>(new Var(attr)));
+    seta(unique_ptr<Var>(new Var(std::move(attr))));
 }
 
 void Var::seta(unique_ptr<Var>&& attr)
-- 
2.43.0


From 066962d4406604f924cc72bf3a0e43202183ce15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:58 +0000
Subject: [PATCH 17/48] fix: initialize the whole value of new variables, not
 only its first 4 bytes

---
 wreport/var.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wreport/var.h b/wreport/var.h
index 1d1d7d8..3a60af9 100644
--- a/wreport/var.h
+++ b/wreport/var.h
@@ -42,8 +42,9 @@ protected:
      * bits are the binary value, and the rest is set to 0.
      */
     union {
-        int32_t i;
+        // First, so that initializing the union sets all its bytes
         char* c;
+        int32_t i;
     } m_value;
 
     /// Attribute list (ordered by Varcode)
-- 
2.43.0


From 0f9e9f0713a0c22172ecfd53103c44b091316034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:36 +0000
Subject: [PATCH 18/48] fix: refuse BUFR messages that declare 0 subsets
 instead of allocating 2^32 of them

---
 wreport/bufr/decoder.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wreport/bufr/decoder.cc b/wreport/bufr/decoder.cc
index 325af80..96329ad 100644
--- a/wreport/bufr/decoder.cc
+++ b/wreport/bufr/decoder.cc
@@ -187,6 +187,9 @@ void Decoder::decode_header()
 
 void Decoder::decode_data()
 {
+    if (expected_subsets == 0)
+        in.parse_error(3, 4, "message declares that it contains no data subsets");
+
     out.obtain_subset(expected_subsets - 1);
 
     /* Read BUFR section 4 (Data section) */
-- 
2.43.0


From a96c9c78ad4aae1ad6d3877960cd3b6805db80ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:05 +0000
Subject: [PATCH 19/48] fix: write the master table number of the bulletin in
 BUFR edition 4 messages

---
 wreport/bufr_encoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index c112c1d..c465c54 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -241,7 +241,7 @@ void Encoder::encode_sec1ed4()
     // Length of section
     out.add_bits(22, 24);
     // Master table number
-    out.append_byte(0);
+    out.append_byte(in.master_table_number);
     // Originating/generating centre (Common Code tableC-1)
     out.append_short(in.originating_centre);
     // Originating/generating sub-centre (defined by Originating/generating centre)
-- 
2.43.0


From 94288942f4e4c43f8ab84825eb405d6fded5787c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:05 +0000
Subject: [PATCH 20/48] fix: refuse to encode BUFR messages with more subsets
 than can be counted in their header

---
 wreport/bufr_encoder.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index c465c54..6244e1a 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -315,6 +315,9 @@ void Encoder::encode_sec3()
     if (in.subsets.empty())
         throw error_consistency("message to encode has no data subsets");
 
+    if (in.subsets.size() > 0xffff)
+        error_consistency::throwf("message to encode has %zu data subsets, but they are counted in 16 bits", in.subsets.size());
+
     if (in.datadesc.empty())
         throw error_consistency("message to encode has no data descriptors");
 
-- 
2.43.0


From b638a941de782d85294412196617cc9017edd425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:05 +0000
Subject: [PATCH 21/48] fix: refuse to encode BUFR messages longer than their
 length fields can say

---
 wreport/bufr_encoder.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index 6244e1a..303e7ad 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -400,6 +400,10 @@ string BufrBulletin::encode() const
     e.encode_sec4();
     e.encode_sec5();
 
+    // The length of the message, and so those of its sections, are stored in 24 bits
+    if (buf.size() > 0xffffff)
+        error_consistency::throwf("encoded message is %zu bytes long, which does not fit its 24 bits length", buf.size());
+
     // Write the length of the BUFR message in its header
     {
         uint32_t val = htonl(static_cast<uint32_t>(out.out.size()));
-- 
2.43.0


From a4075badc60e2d2e477f92df8a5de96af4c6349e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:05 +0000
Subject: [PATCH 22/48] fix: initialize the compression flag of new BUFR
 bulletins

---
 wreport/bulletin.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/bulletin.h b/wreport/bulletin.h
index 54fd024..28102f3 100644
--- a/wreport/bulletin.h
+++ b/wreport/bulletin.h
@@ -251,7 +251,7 @@ public:
     uint8_t master_table_version_number_local = 0;
 
     /// Whether the message is compressed
-    bool compression;
+    bool compression = false;
 
     /**
      * Raw optional section of the message.
-- 
2.43.0


From 72f6e1b36e6436e937ef41ab44383bb4426316e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:47 +0000
Subject: [PATCH 23/48] fix: do not read past the end of a list of opcodes when
 accessing the element after the last

---
 wreport/opcodes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/opcodes.h b/wreport/opcodes.h
index 8fc5596..4c6fe7a 100644
--- a/wreport/opcodes.h
+++ b/wreport/opcodes.h
@@ -35,7 +35,7 @@ struct Opcodes
     /// Return the i-th varcode in the chain
     Varcode operator[](unsigned i) const
     {
-        if (begin + i > end)
+        if (i >= size())
             return 0;
         else
             return begin[i];
-- 
2.43.0


From 9314c353680ec610777568c573c71c8943baf571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:47 +0000
Subject: [PATCH 24/48] fix: C01, C02 and C07 do not alter strings, code tables
 and flag tables

---
 wreport/bulletin/interpreter.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index f7be256..a54a047 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -5,6 +5,7 @@
 #include "wreport/vartable.h"
 #include "wreport/tables.h"
 #include "wreport/var.h"
+#include <cstring>
 
 // #define TRACE_INTERPRETER
 
@@ -85,8 +86,13 @@ Varinfo Interpreter::get_varinfo(Varcode code)
             !c_scale_ref_width_increase && c03_refval_overrides.empty())
         return peek;
 
+    // C01, C02 and C07 only apply to numeric elements: not to strings, code
+    // tables and flag tables
+    bool numeric = peek->type != Vartype::String &&
+        strcmp(peek->unit, "CODE TABLE") != 0 && strcmp(peek->unit, "FLAG TABLE") != 0;
+
     int scale = peek->scale;
-    if (c_scale_change)
+    if (numeric && c_scale_change)
     {
         TRACE("get_varinfo:applying %d scale change\n", c_scale_change);
         scale += c_scale_change;
@@ -98,14 +104,14 @@ Varinfo Interpreter::get_varinfo(Varcode code)
         TRACE("get_varinfo:overriding string to %d bytes\n", c_string_len_override);
         bit_len = c_string_len_override * 8;
     }
-    else if (c_width_change)
+    else if (numeric && c_width_change)
     {
         TRACE("get_varinfo:applying %d width change\n", c_width_change);
         bit_len += c_width_change;
     }
 
     int bit_ref = peek->bit_ref;
-    if (c_scale_ref_width_increase)
+    if (numeric && c_scale_ref_width_increase)
     {
         static const int pow10[10] = {
             1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000
-- 
2.43.0


From b29fd8f22e983d20518b915fa16456e6488523f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:47 +0000
Subject: [PATCH 25/48] fix: refuse C07 reference values that do not fit 32
 bits, and do not look up powers of ten past the end of their table

---
 wreport/bulletin/interpreter.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index a54a047..63600d9 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -5,6 +5,7 @@
 #include "wreport/vartable.h"
 #include "wreport/tables.h"
 #include "wreport/var.h"
+#include <cstdint>
 #include <cstring>
 
 // #define TRACE_INTERPRETER
@@ -119,7 +120,15 @@ Varinfo Interpreter::get_varinfo(Varcode code)
         TRACE("get_varinfo:applying %d increase of scale, ref, width\n", c_scale_ref_width_increase);
         scale += c_scale_ref_width_increase;
         bit_len += (10 * c_scale_ref_width_increase + 2) / 3;
-        bit_ref *= pow10[c_scale_ref_width_increase];
+        if (bit_ref)
+        {
+            int64_t new_ref = bit_ref;
+            if (c_scale_ref_width_increase > 9 ||
+                    (new_ref *= pow10[c_scale_ref_width_increase]) < INT32_MIN || new_ref > INT32_MAX)
+                error_unimplemented::throwf("C07%03d increases the reference value of %01d%02d%03d more than is supported",
+                        c_scale_ref_width_increase, WR_VAR_FXY(code));
+            bit_ref = static_cast<int>(new_ref);
+        }
     }
 
     auto refval = c03_refval_overrides.find(code);
-- 
2.43.0


From c694aa5b2d6fc1deba45a69c81e5eeb0d5e45d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:47 +0000
Subject: [PATCH 26/48] fix: refuse C03 reference values wider than 32 bits

---
 wreport/bulletin/interpreter.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index 63600d9..e4d3a99 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -221,6 +221,8 @@ void Interpreter::c_modifier(Varcode code, Opcodes& next)
                 TRACE("End of reference value changes\n");
                 c03_refval_override_bits = 0;
             } else {
+                if (bits > 32)
+                    error_unimplemented::throwf("C03 modifier wants %u bits but only at most 32 are supported", bits);
                 TRACE("Change reference values, %u bit reference values follow\n", bits);
                 // Change decoded mode:
                 // B codes now store overridden reference values
-- 
2.43.0


From 1e10c8aebf830ec4ed2c561c3b3785889d1d5ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:47 +0000
Subject: [PATCH 27/48] fix: compute the bits needed by C03 reference values of
 0

---
 wreport/bufr_encoder.cc           | 2 +-
 wreport/bulletin/dds-validator.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index 303e7ad..ae9613a 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -132,7 +132,7 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
             encoded |= 1 << (c03_refval_override_bits - 1);
         } else {
             encoded = bit_ref;
-            nbits = 32 - __builtin_clz(encoded);
+            nbits = encoded ? 32 - __builtin_clz(encoded) : 0;
         }
 
         // Check if it fits (encoded bits plus 1 for the sign)
diff --git a/wreport/bulletin/dds-validator.cc b/wreport/bulletin/dds-validator.cc
index a1af42b..35776da 100644
--- a/wreport/bulletin/dds-validator.cc
+++ b/wreport/bulletin/dds-validator.cc
@@ -112,7 +112,7 @@ void DDSValidator::define_c03_refval_override(Varcode code)
         encoded |= 1 << (c03_refval_override_bits - 1);
     } else {
         encoded = bit_ref;
-        nbits = 32 - __builtin_clz(encoded);
+        nbits = encoded ? 32 - __builtin_clz(encoded) : 0;
     }
 
     // Check if it fits (encoded bits plus 1 for the sign)
-- 
2.43.0


From 4d73315d3440de0846a117c0ed0d9c5fbcb28e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:47 +0000
Subject: [PATCH 28/48] fix: bitmaps that select no data are never active, and
 failing to define a bitmap leaves the current one alone

---
 wreport/bulletin/bitmaps.cc | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/wreport/bulletin/bitmaps.cc b/wreport/bulletin/bitmaps.cc
index 51c173b..3c455b5 100644
--- a/wreport/bulletin/bitmaps.cc
+++ b/wreport/bulletin/bitmaps.cc
@@ -94,8 +94,16 @@ void Bitmaps::define(const Var& bitmap, const Subset& subset)
 
 void Bitmaps::define(const Var& bitmap, const Subset& subset, unsigned anchor_point)
 {
+    Bitmap* defined = new Bitmap(bitmap, subset, anchor_point);
     delete current;
-    current = new Bitmap(bitmap, subset, anchor_point);
+    current = defined;
+    if (current->eob())
+    {
+        // There is nothing to iterate: the bitmap can only be reused
+        delete last;
+        last = current;
+        current = nullptr;
+    }
 }
 
 void Bitmaps::reuse_last()
@@ -106,7 +114,14 @@ void Bitmaps::reuse_last()
     delete current;
     current = last;
     last = nullptr;
-    if (current) current->reuse();
+    if (!current) return;
+    current->reuse();
+    if (current->eob())
+    {
+        // There is nothing to iterate
+        last = current;
+        current = nullptr;
+    }
 }
 
 void Bitmaps::discard_last()
-- 
2.43.0


From 7bae830c88f8722461cd56e69feba1958ed649e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:47 +0000
Subject: [PATCH 29/48] fix: associated fields with significance 21 are decoded
 as their value instead of 0

---
 wreport/bulletin/associated_fields.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/wreport/bulletin/associated_fields.cc b/wreport/bulletin/associated_fields.cc
index b27427c..15934a8 100644
--- a/wreport/bulletin/associated_fields.cc
+++ b/wreport/bulletin/associated_fields.cc
@@ -72,10 +72,14 @@ std::unique_ptr<Var> AssociatedField::make_attribute(unsigned value) const
                 return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 2)), (int)value));
         case 21:
             // Add attribute B33041=value
-            if (!skip_missing || !missing)
-                return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 41)), 0));
-            else
-                return std::unique_ptr<Var>();
+            if (missing)
+            {
+                if (skip_missing)
+                    return std::unique_ptr<Var>();
+                else
+                    return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 41))));
+            } else
+                return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 41)), (int)value));
         case 63:
             /*
              * Ignore quality information if B31021 is missing.
-- 
2.43.0


From 61fa77593f746c2f6297046235b32d60357b2703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:47 +0000
Subject: [PATCH 30/48] fix: append_dpb does not read past the end of the
 subset

---
 wreport/subset.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wreport/subset.cc b/wreport/subset.cc
index a62823e..a7fde51 100644
--- a/wreport/subset.cc
+++ b/wreport/subset.cc
@@ -95,6 +95,10 @@ int Subset::append_dpb(Varcode ccode, unsigned size, Varcode attr)
         while (src < this->size() && WR_VAR_F((*this)[src].code()) != 0)
             ++src;
 
+        // No more variables to describe
+        if (src == this->size())
+            break;
+
         // Check if the variable has the attribute we want
         if ((*this)[src].enqa(attr) == NULL)
             bitmap[dst] = '-';
@@ -104,6 +108,8 @@ int Subset::append_dpb(Varcode ccode, unsigned size, Varcode attr)
 			++count;
 		}
 	}
+	// There is no data past the end of the subset
+	memset(bitmap + dst, '-', size - dst);
 	bitmap[size] = 0;
 
 	// Append the bitmap to the message
-- 
2.43.0


From 58c4422c57eb2f5f5f8ff2e0dbd6e06eed5e6ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:43 +0000
Subject: [PATCH 31/48] fix: the same data present bitmap can be used by
 different C modifiers

---
 wreport/tables.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/wreport/tables.cc b/wreport/tables.cc
index 8fa4900..7ba08f4 100644
--- a/wreport/tables.cc
+++ b/wreport/tables.cc
@@ -78,16 +78,16 @@ void Tables::load_crex(const CrexTableID& id)
 
 Varinfo Tables::get_bitmap(Varcode code, const std::string& bitmap) const
 {
-    auto res = bitmap_table.find(bitmap);
+    // The same bitmap can be defined by different C modifiers
+    std::string key(bitmap);
+    key += static_cast<char>(code >> 8);
+    key += static_cast<char>(code & 0xff);
+
+    auto res = bitmap_table.find(key);
     if (res != bitmap_table.end())
-    {
-        if (res->second.code != code)
-            error_consistency::throwf("Bitmap '%s' has been requested with varcode %01d%02d%03d but it already exists as %01d%02d%03d",
-                    bitmap.c_str(), WR_VAR_FXY(code), WR_VAR_FXY(res->second.code));
         return &(res->second);
-    }
 
-    auto new_entry = bitmap_table.emplace(make_pair(bitmap, _Varinfo()));
+    auto new_entry = bitmap_table.emplace(make_pair(key, _Varinfo()));
     _Varinfo& vi = new_entry.first->second;
     vi.set_string(code, "DATA PRESENT BITMAP", bitmap.size());
     return &vi;
-- 
2.43.0


From b3584da77c731322df4af6909033332e51dfffed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:46 +0000
Subject: [PATCH 32/48] fix: different unknown local descriptors can have the
 same width

---
 wreport/tables.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/wreport/tables.cc b/wreport/tables.cc
index 7ba08f4..feac5d1 100644
--- a/wreport/tables.cc
+++ b/wreport/tables.cc
@@ -112,16 +112,18 @@ Varinfo Tables::get_chardata(Varcode code, unsigned len) const
 
 Varinfo Tables::get_unknown(Varcode code, unsigned bit_len) const
 {
-    auto res = unknown_table.find(bit_len);
+    // C06 modifiers can give at most 255 bits
+    if (bit_len > 0xffff)
+        error_consistency::throwf("Unknown binary data %u bits long requested for varcode %01d%02d%03d: only up to 65535 bits are supported",
+                bit_len, WR_VAR_FXY(code));
+
+    // The same length can be used by different local descriptors
+    unsigned key = static_cast<unsigned>(code) << 16 | bit_len;
+    auto res = unknown_table.find(key);
     if (res != unknown_table.end())
-    {
-        if (res->second.code != code)
-            error_consistency::throwf("Unknown binary data %u bits long has been requested with varcode %01d%02d%03d but it already exists as %01d%02d%03d",
-                    bit_len, WR_VAR_FXY(code), WR_VAR_FXY(res->second.code));
         return &(res->second);
-    }
 
-    auto new_entry = unknown_table.emplace(make_pair(bit_len, _Varinfo()));
+    auto new_entry = unknown_table.emplace(make_pair(key, _Varinfo()));
     _Varinfo& vi = new_entry.first->second;
     vi.set_binary(code, "UNKNOWN LOCAL DESCRIPTOR", bit_len);
     return &vi;
-- 
2.43.0


From deddb231718216cecfe00718859bc9d8f731c6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:13 +0000
Subject: [PATCH 33/48] fix: attributes of a subset do not leak to the next one
 in compressed data

---
 wreport/bufr/input.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/wreport/bufr/input.cc b/wreport/bufr/input.cc
index 024dcd0..d3dcf43 100644
--- a/wreport/bufr/input.cc
+++ b/wreport/bufr/input.cc
@@ -517,8 +517,6 @@ void Input::decode_string(Varinfo info, unsigned subsets, std::function<void(uns
 
     if (diffbits != 0)
     {
-        Var var(info);
-
         /* Let's also check that the number of
          * difference characters is the same length as
          * the reference string */
@@ -527,6 +525,10 @@ void Input::decode_string(Varinfo info, unsigned subsets, std::function<void(uns
 
         for (unsigned i = 0; i < subsets; ++i)
         {
+            // Start from a new variable each time, since dest may have set
+            // attributes on the previous one
+            Var var(info);
+
             // Set the variable value
             if (decode_string(diffbits * 8, str, len))
             {
@@ -645,9 +647,11 @@ void Input::decode_compressed_number(Varinfo info, unsigned subsets, std::functi
     }
     else
     {
-        Var var(info);
         for (unsigned i = 0; i < subsets; ++i)
         {
+            // Start from a new variable each time, since dest may have set
+            // attributes on the previous one
+            Var var(info);
             decode_compressed_number(var, base, diffbits);
             dest(i, std::move(var));
         }
-- 
2.43.0


From cb0ac8d6f3412e00a14db54c6c6119528c362b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:13 +0000
Subject: [PATCH 34/48] fix: differences wider than 32 bits are refused in
 compressed data

---
 wreport/bufr/input.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wreport/bufr/input.cc b/wreport/bufr/input.cc
index d3dcf43..8f6d346 100644
--- a/wreport/bufr/input.cc
+++ b/wreport/bufr/input.cc
@@ -376,6 +376,8 @@ bool Input::decode_compressed_base(Varinfo info, uint32_t& base, uint32_t& diffb
     diffbits = get_bits(6);
     if (missing && diffbits != 0)
         error_consistency::throwf("When decoding compressed BUFR data, the difference bit length must be 0 (and not %u like in this case) when the base value is missing", diffbits);
+    if (diffbits > 32)
+        error_consistency::throwf("When decoding compressed BUFR data, the difference bit length is %u but differences can be at most 32 bits wide", diffbits);
 
     TRACE("Input:decode_compressed_base:decoded base %u diffbits %u (%smissing) for %01d%02d%03d %s\n",
             (unsigned)base, (unsigned)diffbits, missing ? "" : "not ", WR_VAR_FXY(info->code), info->unit);
@@ -436,6 +438,8 @@ void Input::decode_compressed_number_af(Varinfo info, const bulletin::Associated
     uint32_t af_base = get_bits(associated_field.bit_count);
     /// Number of bits used to encode the associated field differences
     uint32_t af_diffbits = get_bits(6);
+    if (af_diffbits > 32)
+        error_consistency::throwf("When decoding compressed BUFR data, the difference bit length of an associated field is %u but differences can be at most 32 bits wide", af_diffbits);
 
     if (af_base == all_ones(associated_field.bit_count))
     {
-- 
2.43.0


From 093caeafe25c6fb50e93fde8de0a085f4b1d7ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:13 +0000
Subject: [PATCH 35/48] fix: associated fields of text are read also in
 compressed data

---
 wreport/bufr/decoder.cc |  4 +---
 wreport/bufr/input.cc   | 14 ++++++++++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/wreport/bufr/decoder.cc b/wreport/bufr/decoder.cc
index 96329ad..55894cd 100644
--- a/wreport/bufr/decoder.cc
+++ b/wreport/bufr/decoder.cc
@@ -507,11 +507,9 @@ void CompressedDecoderTarget::decode_and_add_b_value_with_associated_field(Varin
     DispatchToSubsets dest(out, subset_count);
     switch (info->type)
     {
-        case Vartype::String:
-            in.decode_string(info, subset_count, dest);
-            break;
         case Vartype::Binary:
             throw error_unimplemented("decode_b_binary TODO");
+        case Vartype::String:
         case Vartype::Integer:
         case Vartype::Decimal:
             in.decode_compressed_number_af(info, field, subset_count, [&](unsigned subset_no, Var&& var) {
diff --git a/wreport/bufr/input.cc b/wreport/bufr/input.cc
index 8f6d346..31f26fa 100644
--- a/wreport/bufr/input.cc
+++ b/wreport/bufr/input.cc
@@ -441,13 +441,19 @@ void Input::decode_compressed_number_af(Varinfo info, const bulletin::Associated
     if (af_diffbits > 32)
         error_consistency::throwf("When decoding compressed BUFR data, the difference bit length of an associated field is %u but differences can be at most 32 bits wide", af_diffbits);
 
+    // Decode the actual variable
+    auto decode_value = [&](std::function<void(unsigned, Var&&)> dest) {
+        if (info->type == Vartype::String)
+            decode_string(info, subsets, dest);
+        else
+            decode_compressed_number(info, subsets, dest);
+    };
+
     if (af_base == all_ones(associated_field.bit_count))
     {
         // Associated field is missing
-        decode_compressed_number(info, subsets, dest);
+        decode_value(dest);
     } else {
-        Var var(info);
-
         std::vector<std::unique_ptr<Var>> associated_fields(subsets);
         for (unsigned i = 0; i < subsets; ++i)
         {
@@ -457,7 +463,7 @@ void Input::decode_compressed_number_af(Varinfo info, const bulletin::Associated
             associated_fields[i] = associated_field.make_attribute(value);
         }
 
-        decode_compressed_number(info, subsets, [&](unsigned subset, Var&& var) {
+        decode_value([&](unsigned subset, Var&& var) {
             if (associated_fields[subset].get())
                 var.seta(std::move(associated_fields[subset]));
             dest(subset, std::move(var));
-- 
2.43.0


From 7cd566684e3aeca715730066bf2c67e21d53a3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:13 +0000
Subject: [PATCH 36/48] fix: associated field values that do not fit are
 refused instead of truncated

---
 wreport/bufr_encoder.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index ae9613a..5130a99 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -57,8 +57,12 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
     {
         const Var* att = associated_field.get_attribute(var);
         if (att && att->isset())
-            ob.add_bits(att->enqi(), associated_field.bit_count);
-        else
+        {
+            uint32_t val = att->enqi();
+            if (associated_field.bit_count < 32 && (val >> associated_field.bit_count))
+                error_consistency::throwf("associated field value %u does not fit in %u bits", val, associated_field.bit_count);
+            ob.add_bits(val, associated_field.bit_count);
+        } else
             ob.append_missing(associated_field.bit_count);
     }
 
-- 
2.43.0


From 922236224f83f17c0b9a289a7bb082d5fa908751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:46 +0000
Subject: [PATCH 37/48] fix: 203000 cancels the changes of reference values

Table C of FM94: operators 201-208 are cancelled by the same operator with YYY
set to 000, and then values revert to the original Table B ones.
---
 wreport/bulletin/interpreter.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index e4d3a99..9614730 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -220,6 +220,10 @@ void Interpreter::c_modifier(Varcode code, Opcodes& next)
             {
                 TRACE("End of reference value changes\n");
                 c03_refval_override_bits = 0;
+            } else if (bits == 0) {
+                TRACE("Reference value changes cancelled\n");
+                c03_refval_override_bits = 0;
+                c03_refval_overrides.clear();
             } else {
                 if (bits > 32)
                     error_unimplemented::throwf("C03 modifier wants %u bits but only at most 32 are supported", bits);
-- 
2.43.0


From f4017c9fbc8976653392700b7a9b05a7a1ae3c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:57 +0000
Subject: [PATCH 38/48] fix: CREX decoder loops forever on unexpected data
 among the descriptors

---
 wreport/crex_decoder.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wreport/crex_decoder.cc b/wreport/crex_decoder.cc
index 8e74589..8dd8987 100644
--- a/wreport/crex_decoder.cc
+++ b/wreport/crex_decoder.cc
@@ -83,6 +83,7 @@ void decode_header(buffers::CrexInput& in, CrexBulletin& out)
     out.has_check_digit = false;
     while (1)
     {
+        in.check_eof("end of data descriptor section");
         if (*in.cur == 'B' || *in.cur == 'R' || *in.cur == 'C' || *in.cur == 'D')
         {
             in.check_available_data(6, "one data descriptor");
@@ -104,6 +105,8 @@ void decode_header(buffers::CrexInput& in, CrexBulletin& out)
             in.skip_data_and_spaces(2);
             break;
         }
+        else
+            in.parse_error("unexpected character '%c' in data descriptor section", *in.cur);
     }
     IFTRACE{
         TRACE(" -> data descriptor section:");
-- 
2.43.0


From 993b4a72a3274bff682a744075a1ad4d78753210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:57 +0000
Subject: [PATCH 39/48] fix: CREX decoder does not skip the terminator of the
 optional section

---
 wreport/crex_decoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/crex_decoder.cc b/wreport/crex_decoder.cc
index 8dd8987..c84f425 100644
--- a/wreport/crex_decoder.cc
+++ b/wreport/crex_decoder.cc
@@ -212,7 +212,7 @@ void decode_data(buffers::CrexInput& in, CrexBulletin& out)
     {
         for (in.cur += 4; strncmp(in.cur, "++", 2) != 0; ++in.cur)
             in.check_available_data(2, "end of CREX optional section 3");
-        in.skip_spaces();
+        in.skip_data_and_spaces(2);
     }
 
     /* Decode crex end section 4 */
-- 
2.43.0


From c121bc4e1b908701aeefebba9c9c8d34baf073d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:57 +0000
Subject: [PATCH 40/48] fix: CREX decoder accepts values that are not numbers,
 or do not fit

---
 wreport/crex_decoder.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/wreport/crex_decoder.cc b/wreport/crex_decoder.cc
index c84f425..e5cb880 100644
--- a/wreport/crex_decoder.cc
+++ b/wreport/crex_decoder.cc
@@ -2,6 +2,8 @@
 #include "bulletin/interpreter.h"
 #include "buffers/crex.h"
 #include <cstring>
+#include <cstdlib>
+#include <climits>
 #include "config.h"
 
 // #define TRACE_DECODER
@@ -152,8 +154,15 @@ struct CrexParser : public bulletin::Interpreter
                 std::string buf(d_start, d_end - d_start);
                 var.setc(buf.c_str());
             } else {
-                int val = static_cast<int>(strtol(d_start, 0, 10));
-                var.seti(val);
+                // Only look at the field, which must be a number
+                std::string buf(d_start, d_end - d_start);
+                char* end;
+                long val = strtol(buf.c_str(), &end, 10);
+                if (buf.empty() || end != buf.c_str() + buf.size())
+                    in.parse_error("value \"%s\" is not a number", buf.c_str());
+                if (val < INT_MIN || val > INT_MAX)
+                    in.parse_error("value %s is too big", buf.c_str());
+                var.seti(static_cast<int>(val));
                 res = val;
             }
         }
-- 
2.43.0


From 3fda2d4fda38408091ad8fbff4005c97ee5f1c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:57 +0000
Subject: [PATCH 41/48] fix: CREX delayed replication factors are 4 digits both
 when encoding and decoding

---
 wreport/crex_decoder.cc | 25 +++++++++++++++++++++----
 wreport/crex_encoder.cc |  3 +++
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/wreport/crex_decoder.cc b/wreport/crex_decoder.cc
index e5cb880..a882dda 100644
--- a/wreport/crex_decoder.cc
+++ b/wreport/crex_decoder.cc
@@ -134,7 +134,7 @@ struct CrexParser : public bulletin::Interpreter
     {
     }
 
-    uint32_t read_variable(Varinfo info)
+    uint32_t read_variable(Varinfo info, unsigned len)
     {
         uint32_t res = 0xffffffff;
 
@@ -144,7 +144,7 @@ struct CrexParser : public bulletin::Interpreter
         // Parse value from the data section
         const char* d_start;
         const char* d_end;
-        in.parse_value(info->len, info->type != Vartype::String, &d_start, &d_end);
+        in.parse_value(len, info->type != Vartype::String, &d_start, &d_end);
 
         /* If the variable is not missing, set its value */
         if (*d_start != '/')
@@ -177,12 +177,29 @@ struct CrexParser : public bulletin::Interpreter
 
     void define_variable(Varinfo info) override
     {
-        read_variable(info);
+        read_variable(info, info->len);
     }
 
     unsigned define_delayed_replication_factor(Varinfo info) override
     {
-        return read_variable(info);
+        // Replication factors are always 4 digits long
+        uint32_t count;
+        switch (info->code)
+        {
+            case WR_VAR(0, 31, 0):
+            case WR_VAR(0, 31, 1):
+            case WR_VAR(0, 31, 2):
+            case WR_VAR(0, 31, 11):
+            case WR_VAR(0, 31, 12):
+                count = read_variable(info, 4);
+                break;
+            default:
+                count = read_variable(info, info->len);
+                break;
+        }
+        if (count > INT_MAX)
+            in.parse_error("delayed replication factor is missing or negative");
+        return count;
     }
 };
 
diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index 1226109..e3256ef 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -53,12 +53,15 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
         }
         switch (info->code)
         {
+            case WR_VAR(0, 31, 0):
             case WR_VAR(0, 31, 1):
             case WR_VAR(0, 31, 2):
             case WR_VAR(0, 31, 11):
             case WR_VAR(0, 31, 12):
             {
                 unsigned count = var.enqi();
+                if (count > 9999)
+                    error_consistency::throwf("replication factor %u does not fit in 4 digits", count);
 
                 /* Encode the repetition count */
                 ob.raw_append(" ", 1);
-- 
2.43.0


From 932a297e21037572ca16d7b881ee11f54b040746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:57 +0000
Subject: [PATCH 42/48] fix: CREX encoder reads past its buffer when encoding
 long texts

---
 wreport/buffers/crex.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/wreport/buffers/crex.cc b/wreport/buffers/crex.cc
index e9bcf20..8a34335 100644
--- a/wreport/buffers/crex.cc
+++ b/wreport/buffers/crex.cc
@@ -179,10 +179,22 @@ void CrexOutput::raw_appendf(const char* fmt, ...)
     char sbuf[256];
     va_list ap;
     va_start(ap, fmt);
-    int len = vsnprintf(sbuf, 255, fmt, ap);
+    int len = vsnprintf(sbuf, sizeof(sbuf), fmt, ap);
     va_end(ap);
+    if (len < 0)
+        throw error_consistency("cannot format a value for a CREX message");
+    if (static_cast<size_t>(len) < sizeof(sbuf))
+    {
+        buf.append(sbuf, len);
+        return;
+    }
 
-    buf.append(sbuf, len);
+    // It did not fit in sbuf
+    std::string large(len + 1, 0);
+    va_start(ap, fmt);
+    vsnprintf(&large[0], len + 1, fmt, ap);
+    va_end(ap);
+    buf.append(large.data(), len);
 }
 
 void CrexOutput::encode_check_digit()
-- 
2.43.0


From fa8c769e0ff14cab4971bf2c38a3326332fd4938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:57 +0000
Subject: [PATCH 43/48] fix: CREX encoder loses check digits, and the separator
 of missing values

---
 wreport/buffers/crex.cc | 2 ++
 wreport/crex_encoder.cc | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/wreport/buffers/crex.cc b/wreport/buffers/crex.cc
index 8a34335..296ec7b 100644
--- a/wreport/buffers/crex.cc
+++ b/wreport/buffers/crex.cc
@@ -209,6 +209,8 @@ void CrexOutput::encode_check_digit()
 void CrexOutput::append_missing(Varinfo info)
 {
     // TRACE("encode_b missing len: %d\n", info->len);
+    raw_append(" ", 1);
+    encode_check_digit();
     for (unsigned i = 0; i < info->len; i++)
         raw_append("/", 1);
 }
diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index e3256ef..4eca9d7 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -80,7 +80,7 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
     }
 };
 
-void encode_sec1(const CrexBulletin& in, buffers::CrexOutput out)
+void encode_sec1(const CrexBulletin& in, buffers::CrexOutput& out)
 {
     if (in.data_subcategory == 0xff)
         out.raw_appendf("T%02hhd%02hhd%02hhd A%03hhd",
@@ -134,6 +134,7 @@ string CrexBulletin::encode() const
     std::string buf;
     buf.reserve(1024);
     buffers::CrexOutput out(buf);
+    out.has_check_digit = has_check_digit;
 
     // Encode section 0
     out.raw_append("CREX++\r\r\n", 9);
-- 
2.43.0


From f16d466baa0bd48a73f65fbf785141f64bd9530b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:57 +0000
Subject: [PATCH 44/48] fix: CREX encoder writes header values above 127 as
 negative numbers

---
 wreport/crex_encoder.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index 4eca9d7..d73567f 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -83,13 +83,13 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
 void encode_sec1(const CrexBulletin& in, buffers::CrexOutput& out)
 {
     if (in.data_subcategory == 0xff)
-        out.raw_appendf("T%02hhd%02hhd%02hhd A%03hhd",
+        out.raw_appendf("T%02hhu%02hhu%02hhu A%03hhu",
                 in.master_table_number,
                 in.edition_number,
                 in.master_table_version_number,
                 in.data_category);
     else
-        out.raw_appendf("T%02hhd%02hhd%02hhd A%03hhd%03hhd",
+        out.raw_appendf("T%02hhu%02hhu%02hhu A%03hhu%03hhu",
                 in.master_table_number,
                 in.edition_number,
                 in.master_table_version_number,
-- 
2.43.0


From 1a0cd8bb3f2a89cedaac4c4995e65a771dfca665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:57 +0000
Subject: [PATCH 45/48] fix: varcode_parse reads past the end of short strings

---
 wreport/varinfo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/varinfo.cc b/wreport/varinfo.cc
index 38a89d9..d1e5c9b 100644
--- a/wreport/varinfo.cc
+++ b/wreport/varinfo.cc
@@ -84,7 +84,7 @@ Varcode varcode_parse(const char* entry)
 
     // Ensure that B is followed by 5 integers
     for (unsigned i = 1; i < 6; ++i)
-        if (entry[i] and !isdigit(entry[i]))
+        if (!isdigit(static_cast<unsigned char>(entry[i])))
             error_consistency::throwf("cannot parse a Varcode out of '%s'", entry);
 
     return res + WR_STRING_TO_VAR(entry + 1);
-- 
2.43.0


From e1e334a052ca819e76f8fc2c7b5d9e7739242ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:20 +0000
Subject: [PATCH 46/48] fix: CREX decoder does not skip the blanks between
 subsets

---
 wreport/crex_decoder.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wreport/crex_decoder.cc b/wreport/crex_decoder.cc
index a882dda..4423b3b 100644
--- a/wreport/crex_decoder.cc
+++ b/wreport/crex_decoder.cc
@@ -228,6 +228,9 @@ void decode_data(buffers::CrexInput& in, CrexBulletin& out)
             ++in.cur;
             break;
         }
+
+        /* Go to the first value of the next subset */
+        in.skip_spaces();
     }
     in.skip_spaces();
 
-- 
2.43.0


From 7a249868741b575d4f7dc5f4b63033656f85fe68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:57 +0000
Subject: [PATCH 47/48] fix: do not skip messages preceded by the start of a
 signature

A message was not found when the character before it is the first character
of the signature, as in BBUFR.
---
 wreport/bulletin.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wreport/bulletin.cc b/wreport/bulletin.cc
index 5a91e27..74aa8a7 100644
--- a/wreport/bulletin.cc
+++ b/wreport/bulletin.cc
@@ -28,7 +28,8 @@ bool seek_past_signature(FILE* fd, const char* sig, unsigned sig_len, const char
         if (c == sig[got])
             got++;
         else
-            got = 0;
+            // This can still be the first character of the signature
+            got = c == sig[0] ? 1 : 0;
     }
 
     if (errno != 0)
-- 
2.43.0


From a7ae6900adadae16880a508e40783ba3b5fc74bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:57 +0000
Subject: [PATCH 48/48] fix: find the end of CREX messages after further +
 characters

The end of the message was missed when its ++ follows another +, or ++ and a
newline, as in the messages without data that we encode.
---
 wreport/bulletin.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wreport/bulletin.cc b/wreport/bulletin.cc
index 74aa8a7..4e3194f 100644
--- a/wreport/bulletin.cc
+++ b/wreport/bulletin.cc
@@ -644,6 +644,9 @@ bool CrexBulletin::read(FILE* fd, std::string& buf, const char* fname, off_t* of
                 got += 2;
             else if (c == target[got])
                 got++;
+            else if (c == '+')
+                // This can still be the start of the target
+                got = got == 2 ? 2 : 1;
             else
                 got = 0;
 
-- 
2.43.0

