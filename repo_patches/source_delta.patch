From 96ab92659728cfb4b366ee21ab8ce7d3ce1aacf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:17 +0000
Subject: [PATCH 01/19] fix: to_string wrote the minus sign before its buffer

The buffer had no room for the sign when the number of digits is a multiple
of 9 (e.g. -123456789012345678), and it leaked if the string could not be
allocated.
---
 src/BigInteger.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index a871090..e1f61ba 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -881,15 +881,15 @@ std::string BigInteger::to_string() const {
     // We'll pass the rgch buffer to native code, which is going to treat it like a string of digits, so it needs
     // to be null terminated.  Let's ensure that we can allocate a buffer of that size.
     int rgchBufSize;
-    if (cchMax == std::numeric_limits<int32_t>::max()) {
+    if (cchMax >= std::numeric_limits<int32_t>::max() - 1) {
         throw std::overflow_error("SR.Format_TooLarge");
     } else {
-        rgchBufSize = cchMax + 1;
+        rgchBufSize = cchMax + 2; // the sign and a terminator
     }
 
-//    char rgch[rgchBufSize];
-    char *rgch = new char[rgchBufSize];
-    int ichDst = cchMax;
+    std::vector<char> rgch(rgchBufSize);
+    const int ichEnd = cchMax + 1; // rgch[0] is for the sign when the digits fill all the groups
+    int ichDst = ichEnd;
     for (int iuDst = 0; iuDst < cuDst - 1; iuDst++) {
         uint32_t uDig = rguDst[iuDst];
         assert(uDig < kuBase);
@@ -910,9 +910,7 @@ std::string BigInteger::to_string() const {
             rgch[--ichDst] = negativeSign[i];
     }
 
-    auto s = std::string(&rgch[ichDst], cchMax - ichDst);
-    delete [] rgch;
-    return s;
+    return std::string(&rgch[ichDst], ichEnd - ichDst);
 }
 
 bool BigInteger::get_parts_for_bit_manipulation(const BigInteger& x, uint_array& xd, int& xl) {
-- 
2.43.0


From d46343b11f816848c4bad45039287b837a5b9876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:17 +0000
Subject: [PATCH 02/19] fix: div_rem lost the sign of the remainder for a
 one-limb divisor

-1 * rest was computed in uint32_t, so -5000000000 divrem 3 gave a
remainder of 2^32 - 2.
---
 src/BigInteger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index e1f61ba..3b4de4e 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -605,7 +605,7 @@ BigInteger BigInteger::div_rem(BigInteger& dividend, BigInteger& divisor, BigInt
         uint_array rbits = dividend.get_bits();
         uint_array bits = BigIntegerCalculator::divide(rbits, std::abs(divisor._sign), rest);
 
-        remainder = dividend._sign < 0 ? -1 * rest : rest;
+        remainder = dividend._sign < 0 ? -1 * static_cast<int64_t>(rest) : static_cast<int64_t>(rest);
         return BigInteger(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
     }
 
-- 
2.43.0


From da82501073df44ea789f1449e19b42a4d7150035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:17 +0000
Subject: [PATCH 03/19] fix: div_rem gave a wrong quotient when remainder
 aliases an operand

The quotient was built from dividend and divisor after remainder had been
assigned. C# allows DivRem(a, b, out a).
---
 src/BigInteger.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 3b4de4e..495d35b 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -589,8 +589,9 @@ BigInteger BigInteger::div_rem(BigInteger& dividend, BigInteger& divisor, BigInt
     if (trivialDividend && trivialDivisor) {
         if (divisor._sign == 0)
             throw DivideByZero();
+        BigInteger quotient = dividend._sign / divisor._sign;
         remainder = dividend._sign % divisor._sign;
-        return dividend._sign / divisor._sign;
+        return quotient;
     }
 
     if (trivialDividend) {
@@ -605,8 +606,9 @@ BigInteger BigInteger::div_rem(BigInteger& dividend, BigInteger& divisor, BigInt
         uint_array rbits = dividend.get_bits();
         uint_array bits = BigIntegerCalculator::divide(rbits, std::abs(divisor._sign), rest);
 
+        BigInteger quotient(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
         remainder = dividend._sign < 0 ? -1 * static_cast<int64_t>(rest) : static_cast<int64_t>(rest);
-        return BigInteger(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
+        return quotient;
     }
 
     if (dividend.get_bits().size() < divisor.get_bits().size()) {
@@ -618,8 +620,9 @@ BigInteger BigInteger::div_rem(BigInteger& dividend, BigInteger& divisor, BigInt
         uint_array rbits = divisor.get_bits();
         uint_array bits = BigIntegerCalculator::divide(lbits, rbits, rest);
 
+        BigInteger quotient(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
         remainder = BigInteger(rest, dividend._sign < 0);
-        return BigInteger(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
+        return quotient;
     }
 }
 
-- 
2.43.0


From e6b6c3f32d408661055324b39d0125b3c02ad181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:17 +0000
Subject: [PATCH 04/19] fix: mod_pow lost the sign of the result for a small
 modulus

-1 * bits was computed in uint32_t, so mod_pow(-2, 1, 5) gave 2^32 - 2.
---
 src/BigInteger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 495d35b..5ab6137 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -1596,7 +1596,7 @@ BigInteger BigInteger::mod_pow(const BigInteger& value, const BigInteger& expone
             else
                 bits = BigIntegerCalculator::pow(value._bits, exponent._bits, std::abs(modulus._sign));
         }
-        return value._sign < 0 && !exponent.is_even() ? -1 * bits : bits;
+        return value._sign < 0 && !exponent.is_even() ? -1 * static_cast<int64_t>(bits) : static_cast<int64_t>(bits);
     } else {
         uint_array bits;
         if (trivialValue && trivialExponent) {
-- 
2.43.0


From ab103b8512986d1544b57ad6dd246eff4085a404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:17 +0000
Subject: [PATCH 05/19] fix: mod_pow with modulus 0 and a large exponent
 divided by zero

mod_pow(2, 2^40, 0) ended the process with SIGFPE instead of throwing
DivideByZero as it does for a small exponent.
---
 src/BigIntegerCalculator/PowMod.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BigIntegerCalculator/PowMod.cpp b/src/BigIntegerCalculator/PowMod.cpp
index ef69c5e..b895345 100644
--- a/src/BigIntegerCalculator/PowMod.cpp
+++ b/src/BigIntegerCalculator/PowMod.cpp
@@ -89,6 +89,8 @@ uint32_t BigIntegerCalculator::pow(const uint_array& value, uint32_t power, uint
 }
 
 uint32_t BigIntegerCalculator::pow_core(const uint_array& power, uint32_t modulus, uint64_t value, uint64_t result) {
+    if (modulus == 0)
+        throw DivideByZero();
     for (int i = 0; i < power.size() - 1; i++) {
         unsigned int p = power[i];
         for (int j = 0; j < 32; j++) {
-- 
2.43.0


From a2965cc348d24cbb98be59dea2fea84b930f872c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:17 +0000
Subject: [PATCH 06/19] fix: mod_pow was wrong for moduli of 32 limbs and more

FastReducer reduced copies of its arguments and then cleared the wrong part
of them (C#: Array.Clear(left, leftLength, left.Length - leftLength)), the
most significant limb of a multi-limb exponent was applied twice, and the
scratch buffer was one limb short for a modulus that is a power of 2^32.
---
 include/FastReducer.h                    | 4 ++--
 src/BigIntegerCalculator/FastReducer.cpp | 8 ++++----
 src/BigIntegerCalculator/PowMod.cpp      | 3 ++-
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/FastReducer.h b/include/FastReducer.h
index 1737648..e504836 100644
--- a/include/FastReducer.h
+++ b/include/FastReducer.h
@@ -6,7 +6,7 @@ struct FastReducer {
 public:
     FastReducer(uint_array modulus);
 
-    int Reduce(uint_array, int length);
+    int Reduce(uint_array& value, int length);
 
 private:
     uint_array _modulus;
@@ -17,6 +17,6 @@ private:
 
     int DivMul(uint_array& left, int leftLength, uint_array& right, int rightLength, uint_array& bits, int k);
 
-    int SubMod(uint_array left, int leftLength, uint_array right, int rightLength, uint_array modulus, int k);
+    int SubMod(uint_array& left, int leftLength, uint_array& right, int rightLength, uint_array& modulus, int k);
 
 };
\ No newline at end of file
diff --git a/src/BigIntegerCalculator/FastReducer.cpp b/src/BigIntegerCalculator/FastReducer.cpp
index ef96902..fc5f23f 100644
--- a/src/BigIntegerCalculator/FastReducer.cpp
+++ b/src/BigIntegerCalculator/FastReducer.cpp
@@ -8,13 +8,13 @@ FastReducer::FastReducer(uint_array modulus) {
     _mu = BigIntegerCalculator::divide(r, modulus);
     _modulus = modulus;
 
-    _q1 = uint_array(modulus.size() * 2 + 2);
+    _q1 = uint_array(modulus.size() * 2 + 3); // mu has modulus.size() + 2 limbs for a power of the base
     _q2 = uint_array(modulus.size() * 2 + 1);
 
     _muLength = BigIntegerCalculator::actual_length(_mu);
 }
 
-int FastReducer::Reduce(uint_array value, int length) {
+int FastReducer::Reduce(uint_array& value, int length) {
     if (length < _modulus.size())
         return length;
 
@@ -42,7 +42,7 @@ int FastReducer::DivMul(uint_array& left, int leftLength, uint_array& right, int
     return 0;
 }
 
-int FastReducer::SubMod(uint_array left, int leftLength, uint_array right, int rightLength, uint_array modulus, int k) {
+int FastReducer::SubMod(uint_array& left, int leftLength, uint_array& right, int rightLength, uint_array& modulus, int k) {
     if (leftLength > k)
         leftLength = k;
 
@@ -61,6 +61,6 @@ int FastReducer::SubMod(uint_array left, int leftLength, uint_array right, int r
         leftLength = BigIntegerCalculator::actual_length(left, leftLength);
     }
 
-    std::fill(left.begin(), left.begin() + leftLength, left.size() - leftLength);
+    std::fill(left.begin() + leftLength, left.end(), 0);
     return leftLength;
 }
diff --git a/src/BigIntegerCalculator/PowMod.cpp b/src/BigIntegerCalculator/PowMod.cpp
index b895345..21d42da 100644
--- a/src/BigIntegerCalculator/PowMod.cpp
+++ b/src/BigIntegerCalculator/PowMod.cpp
@@ -214,7 +214,8 @@ uint_array BigIntegerCalculator::pow_core(const uint_array& power, const uint_ar
 void
 BigIntegerCalculator::pow_core(const uint_array& power, FastReducer& reducer, BitsBuffer& value, BitsBuffer& result,
                                BitsBuffer& temp) {
-    for (auto p : power) {
+    for (int i = 0; i < power.size() - 1; i++) {
+        unsigned int p = power[i];
         for (int j = 0; j < 32; j++) {
             if ((p & 1) == 1) {
                 result.MultiplySelf(value, temp);
-- 
2.43.0


From 14019ba84ddeed41641971fb9fec7117c69f6289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:17 +0000
Subject: [PATCH 07/19] fix: greatest_common_divisor was wrong or never
 returned for 3 limbs and more

lehmer_core worked on copies of the buffers, and the buffers cleared the
wrong limbs: C#'s Array.Clear(array, index, length) was turned into a
std::fill of another range with a non-zero value.
---
 include/BitsBuffer.h                    | 2 +-
 src/BigIntegerCalculator/BitsBuffer.cpp | 6 +++---
 src/BigIntegerCalculator/GcdInv.cpp     | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/BitsBuffer.h b/include/BitsBuffer.h
index 66f2918..b1894d3 100644
--- a/include/BitsBuffer.h
+++ b/include/BitsBuffer.h
@@ -27,7 +27,7 @@ public:
 
     void Overwrite(uint32_t value);
 
-    uint_array GetBits() { return _bits; }
+    uint_array& GetBits() { return _bits; }
 
     int GetSize() { return _bits.size(); }
 
diff --git a/src/BigIntegerCalculator/BitsBuffer.cpp b/src/BigIntegerCalculator/BitsBuffer.cpp
index f5bd7f7..c4845d0 100644
--- a/src/BigIntegerCalculator/BitsBuffer.cpp
+++ b/src/BigIntegerCalculator/BitsBuffer.cpp
@@ -55,7 +55,7 @@ void BitsBuffer::Reduce(BitsBuffer& modulus) {
 
 void BitsBuffer::Overwrite(uint64_t value) {
     if (_length > 2)
-        std::fill(_bits.begin(), _bits.begin() + (_length - 2), 2);
+        std::fill(_bits.begin() + 2, _bits.begin() + _length, 0);
     uint32_t lo = static_cast<uint32_t>(value); // unchecked()
     uint32_t hi = static_cast<uint32_t>(value >> 32);
     _bits[0] = lo;
@@ -65,14 +65,14 @@ void BitsBuffer::Overwrite(uint64_t value) {
 
 void BitsBuffer::Overwrite(uint32_t value) {
     if (_length > 1)
-        std::fill(_bits.begin(), _bits.begin() + (_length - 1), 1);
+        std::fill(_bits.begin() + 1, _bits.begin() + _length, 0);
     _bits[0] = value;
     _length = value != 0 ? 1 : 0;
 }
 
 void BitsBuffer::Refresh(int maxLength) {
     if (_length > maxLength)
-        std::fill(_bits.begin(), _bits.begin() + (_length - maxLength), maxLength);
+        std::fill(_bits.begin() + maxLength, _bits.begin() + _length, 0);
     _length = BigIntegerCalculator::actual_length(_bits, maxLength);
 }
 
diff --git a/src/BigIntegerCalculator/GcdInv.cpp b/src/BigIntegerCalculator/GcdInv.cpp
index 3f5936b..bf8a5e1 100644
--- a/src/BigIntegerCalculator/GcdInv.cpp
+++ b/src/BigIntegerCalculator/GcdInv.cpp
@@ -228,8 +228,8 @@ void BigIntegerCalculator::lehmer_core(BitsBuffer& xBuffer, BitsBuffer& yBuffer,
 
     // Executes the combined calculation of Lehmer's step.
 
-    uint_array x = xBuffer.GetBits();
-    uint_array y = yBuffer.GetBits();
+    uint_array& x = xBuffer.GetBits();
+    uint_array& y = yBuffer.GetBits();
 
     int length = yBuffer.GetLength();
 
-- 
2.43.0


From 745337477347e8446880600ba663ffbfb82de0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:17 +0000
Subject: [PATCH 08/19] fix: right shift of some negative values by whole limbs
 gave 0

When the limbs left after the shift are all zero in two's complement the
sign was lost: -(2^64 - 1) >> 32 gave 0 instead of -2^32.
---
 src/BigInteger.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 5ab6137..2b3e817 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -1076,6 +1076,8 @@ BigInteger& BigInteger::operator>>=(const int shift) {
     int zl = xl - digitShift;
     if (zl < 0) zl = 0;
     uint_array zd(zl, 0);
+    if (negx)
+        zd.push_back(0xFFFFFFFF); // the sign, the other limbs of the two's complement may all be zero
 
     if (smallShift == 0) {
         for (int i = xl - 1; i >= digitShift; i--) {
-- 
2.43.0


From e80f51695110e77fd3aca0e6e71022b6c38c8d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:17 +0000
Subject: [PATCH 09/19] fix: postfix ++ and -- returned the new value

Both in C# and in C++ x++ yields the value before the increment.
---
 include/public/bigintegercpp/BigInteger.h |  4 ++--
 src/BigInteger.cpp                        | 12 ++++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/public/bigintegercpp/BigInteger.h b/include/public/bigintegercpp/BigInteger.h
index 7b25672..dfb90ba 100644
--- a/include/public/bigintegercpp/BigInteger.h
+++ b/include/public/bigintegercpp/BigInteger.h
@@ -126,7 +126,7 @@ public:
     BigInteger& operator+=(const BigInteger& rhs);
 
     BigInteger& operator++(); // prefix
-    BigInteger& operator++(int unused); // postfix
+    BigInteger operator++(int unused); // postfix
 
     static BigInteger add(BigInteger& lhs, const BigInteger& rhs);
 
@@ -138,7 +138,7 @@ public:
     BigInteger& operator-=(const BigInteger& rhs);
 
     BigInteger& operator--(); // prefix
-    BigInteger& operator--(int unused); // postfix
+    BigInteger operator--(int unused); // postfix
     static BigInteger subtract(BigInteger& lhs, const BigInteger& rhs);
 
     BigInteger subtract(const uint_array& lhs, int lhsSign, const uint_array& rhs, int rhsSign);
diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 2b3e817..1e8f403 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -639,8 +639,10 @@ BigInteger& BigInteger::operator++() {
     return *this;
 }
 
-BigInteger& BigInteger::operator++(int dummy) {
-    return ++(*this);
+BigInteger BigInteger::operator++(int dummy) {
+    BigInteger old = *this;
+    ++(*this);
+    return old;
 }
 
 BigInteger& BigInteger::operator--() {
@@ -649,8 +651,10 @@ BigInteger& BigInteger::operator--() {
     return *this;
 }
 
-BigInteger& BigInteger::operator--(int unused) {
-    return --(*this);
+BigInteger BigInteger::operator--(int unused) {
+    BigInteger old = *this;
+    --(*this);
+    return old;
 }
 
 
-- 
2.43.0


From 5aa12aaa566d80fa0c494429bf27f7694f6ec6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:17 +0000
Subject: [PATCH 10/19] fix: undefined behaviour at the limits of int and
 int64_t

BigInteger(INT64_MIN) and the conversions to int and long of INT_MIN and
LONG_MIN negated the most negative value, and building a value from negative
bytes shifted a negative int to the left.
---
 src/BigInteger.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 1e8f403..4819584 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -51,7 +51,7 @@ BigInteger::BigInteger(int64_t value) {
     } else {
         uint64_t x = 0;
         if (value < 0) {
-            x = static_cast<uint64_t>(-value);
+            x = 0 - static_cast<uint64_t>(value);
             _sign = -1;
         } else {
             x = static_cast<uint64_t>(value);
@@ -133,11 +133,11 @@ BigInteger::BigInteger(byte_array value, bool isUnsigned, bool isBigEndian) {
 
         if (isBigEndian) {
             for (int i = 0; i < byteCount; i++) {
-                _sign = (_sign << 8) | value[i];
+                _sign = static_cast<int>((static_cast<uint32_t>(_sign) << 8) | value[i]);
             }
         } else {
             for (int i = byteCount - 1; i >= 0; i--) {
-                _sign = (_sign << 8) | value[i];
+                _sign = static_cast<int>((static_cast<uint32_t>(_sign) << 8) | value[i]);
             }
         }
 
@@ -1428,7 +1428,7 @@ BigInteger::operator int() {
     if (_bits[0] > kuMaskHighBit)
         throw std::overflow_error("SR.Overflow_Int32");
 
-    return -static_cast<int>(_bits[0]);
+    return static_cast<int>(0 - _bits[0]);
 }
 
 BigInteger::operator unsigned int() {
@@ -1459,7 +1459,7 @@ BigInteger::operator long() {
         uu = _bits[0];
     }
 
-    long ll = _sign > 0 ? static_cast<long>(uu) : -static_cast<long>(uu);
+    long ll = static_cast<long>(_sign > 0 ? uu : 0 - uu);
     if ((ll > 0 && _sign > 0) || (ll < 0 && _sign < 0))
         return ll;
     throw std::overflow_error("SR.Overflow_Int64");
-- 
2.43.0


From d9a4aa3512e44d063de197583ed67fcc34b063b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:17 +0000
Subject: [PATCH 11/19] fix: the Python constructor ignored the strides of a
 buffer

BigInteger(memoryview(b'...')[::2]) used the wrong bytes and [::-1] read
beyond the end of the buffer.
---
 bindings/python/python-bindings.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/python/python-bindings.cpp b/bindings/python/python-bindings.cpp
index 57abc12..210b770 100644
--- a/bindings/python/python-bindings.cpp
+++ b/bindings/python/python-bindings.cpp
@@ -93,7 +93,9 @@ PYBIND11_MODULE(pybiginteger, m) {
                   throw std::runtime_error("Incompatible buffer format!");
 
               auto data_ptr = static_cast<unsigned char *>(info.ptr);
-              std::vector<unsigned char> data(data_ptr, data_ptr + info.size);
+              std::vector<unsigned char> data(info.size);
+              for (py::ssize_t i = 0; i < info.size; i++)
+                  data[i] = data_ptr[i * info.strides[0]];
               return BigInteger(data);
             }), py::arg("value"))
             .def("__lt__", [](BigInteger& self, BigInteger& other) {
-- 
2.43.0


From 1a81cdcbbf443b2bdc95f6b27ebbe2c0c344af59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:12 +0000
Subject: [PATCH 12/19] fix: values built in another file's static initialiser
 could be wrong

The constructors copied the value of INT_MIN, -1, 0 and 1 from static objects that may not be constructed yet
when a static initialiser of another translation unit runs.
---
 include/public/bigintegercpp/BigInteger.h |  8 ++---
 src/BigInteger.cpp                        | 42 ++++++++++++-----------
 2 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/include/public/bigintegercpp/BigInteger.h b/include/public/bigintegercpp/BigInteger.h
index dfb90ba..7614614 100644
--- a/include/public/bigintegercpp/BigInteger.h
+++ b/include/public/bigintegercpp/BigInteger.h
@@ -187,10 +187,10 @@ private:
     int _sign;
     uint_array _bits;
 
-    static const BigInteger s_bnMinInt;
-    static const BigInteger s_bnOneInt;
-    static const BigInteger s_bnZeroInt;
-    static const BigInteger s_bnMinusOneInt;
+    static BigInteger s_bnMinInt();
+    static BigInteger s_bnOneInt();
+    static BigInteger s_bnZeroInt();
+    static BigInteger s_bnMinusOneInt();
 
     BigInteger(uint_array value);
 
diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 4819584..8d167f6 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -11,10 +11,12 @@
 #include <algorithm>
 #include "../include/BigIntegerCalculator.h"
 
-const BigInteger BigInteger::s_bnMinInt = BigInteger(-1, uint_array{kuMaskHighBit});
-const BigInteger BigInteger::s_bnOneInt = BigInteger(1);
-const BigInteger BigInteger::s_bnZeroInt = BigInteger(0);
-const BigInteger BigInteger::s_bnMinusOneInt = BigInteger(-1);
+// Functions rather than static objects: the constructors need these values, also when they run in the static
+// initialisers or destructors of another translation unit.
+BigInteger BigInteger::s_bnMinInt() { return BigInteger(-1, uint_array{kuMaskHighBit}); }
+BigInteger BigInteger::s_bnOneInt() { return BigInteger(1); }
+BigInteger BigInteger::s_bnZeroInt() { return BigInteger(0); }
+BigInteger BigInteger::s_bnMinusOneInt() { return BigInteger(-1); }
 
 
 BigInteger::BigInteger() {
@@ -24,7 +26,7 @@ BigInteger::BigInteger() {
 
 BigInteger::BigInteger(int32_t value) {
     if (value == std::numeric_limits<int32_t>::min()) {
-        *this = s_bnMinInt;
+        *this = s_bnMinInt();
     } else {
         _sign = value;
         _bits.clear();
@@ -47,7 +49,7 @@ BigInteger::BigInteger(int64_t value) {
     if (std::numeric_limits<int32_t>::min() < value && value <= std::numeric_limits<int32_t>::max()) {
         _sign = static_cast<int32_t>(value);
     } else if (value == std::numeric_limits<int32_t>::min()) {
-        *this = s_bnMinInt;
+        *this = s_bnMinInt();
     } else {
         uint64_t x = 0;
         if (value < 0) {
@@ -151,7 +153,7 @@ BigInteger::BigInteger(byte_array value, bool isUnsigned, bool isBigEndian) {
             _sign = +1;
         }
         if (_sign == std::numeric_limits<int>::min()) {
-            *this = s_bnMinInt;
+            *this = s_bnMinInt();
         }
     } else {
         int unalignedBytes = byteCount % 4;
@@ -216,11 +218,11 @@ BigInteger::BigInteger(byte_array value, bool isUnsigned, bool isBigEndian) {
             if (len == 1) {
                 switch (val[0]) {
                     case 1: // abs(-1)
-                        *this = s_bnMinusOneInt;
+                        *this = s_bnMinusOneInt();
                         return;
 
                     case kuMaskHighBit: // abs(Int32.MinValue)
-                        *this = s_bnMinInt;
+                        *this = s_bnMinInt();
                         return;
 
                     default:
@@ -260,7 +262,7 @@ BigInteger::BigInteger(uint_array value) {
 
     if (dwordCount == 0) {
         // BigInteger.zero
-        *this = BigInteger::s_bnZeroInt;
+        *this = BigInteger::s_bnZeroInt();
         assert_valid();
         return;
     }
@@ -271,7 +273,7 @@ BigInteger::BigInteger(uint_array value) {
         }
             // Handle the special cases where the BigInteger likely fits into _sign
         else if (std::numeric_limits<int>::min() == static_cast<int>(value[0])) {
-            *this = BigInteger::s_bnMinInt;
+            *this = BigInteger::s_bnMinInt();
         } else {
             _sign = static_cast<int>(value[0]);
         }
@@ -304,9 +306,9 @@ BigInteger::BigInteger(uint_array value) {
     // The number is represented by a single dword
     if (len == 1 && static_cast<int>((value[0])) > 0) {
         if (value[0] == 1 /* abs(-1) */) {
-            *this = s_bnMinusOneInt;
+            *this = s_bnMinusOneInt();
         } else if (value[0] == kuMaskHighBit /* abs(Int32.MinValue) */) {
-            *this = s_bnMinInt;
+            *this = s_bnMinInt();
         } else {
             _sign = (-1) * ((int) value[0]);
         }
@@ -335,14 +337,14 @@ BigInteger::BigInteger(uint_array value, bool negative) {
     for (len = value.size(); len > 0 && value[len - 1] == 0; len--);
 
     if (len == 0)
-        *this = s_bnZeroInt;
+        *this = s_bnZeroInt();
         // Values like (Int32.MaxValue+1) are stored as "0x80000000" and as such cannot be packed into _sign
     else if (len == 1 && value[0] < kuMaskHighBit) {
         _sign = (negative ? -(int) value[0] : (int) value[0]);
         _bits = uint_array();
         // Although Int32.MinValue fits in _sign, we represent this case differently for negate
         if (_sign == std::numeric_limits<int>::min())
-            *this = s_bnMinInt;
+            *this = s_bnMinInt();
     } else {
         _sign = negative ? -1 : +1;
         _bits.swap(value);
@@ -700,7 +702,7 @@ BigInteger& BigInteger::operator/=(const BigInteger& div) {
     if (trivialDividend) {
         // The divisor is non-trivial
         // and therefore the bigger one
-        *this = BigInteger::s_bnZeroInt;
+        *this = BigInteger::s_bnZeroInt();
         return *this;
     }
 
@@ -714,7 +716,7 @@ BigInteger& BigInteger::operator/=(const BigInteger& div) {
     assert(!dividend._bits.empty() && !divisor._bits.empty());
 
     if (dividend._bits.size() < divisor._bits.size()) {
-        *this = BigInteger::s_bnZeroInt;
+        *this = BigInteger::s_bnZeroInt();
         return *this;
     } else {
         uint_array bits = BigIntegerCalculator::divide(dividend._bits, divisor._bits);
@@ -1069,7 +1071,7 @@ BigInteger& BigInteger::operator>>=(const int shift) {
 
     if (negx) {
         if (shift >= (kcbitUint * xl)) {
-            *this = s_bnMinusOneInt;
+            *this = s_bnMinusOneInt();
             return *this;
         }
         uint_array temp = xd;
@@ -1554,7 +1556,7 @@ BigInteger BigInteger::pow(const BigInteger& value, int exponent) {
     value.assert_valid();
 
     if (exponent == 0)
-        return s_bnOneInt;
+        return s_bnOneInt();
     if (exponent == 1)
         return value;
 
@@ -1564,7 +1566,7 @@ BigInteger BigInteger::pow(const BigInteger& value, int exponent) {
         if (value._sign == 1)
             return value;
         if (value._sign == -1)
-            return (exponent & 1) != 0 ? value : s_bnOneInt;
+            return (exponent & 1) != 0 ? value : s_bnOneInt();
         if (value._sign == 0)
             return value;
     }
-- 
2.43.0


From c50557a4db51ec7220967086f659e449f58bde0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 13/19] fix: a BigInteger and the int it equals had different
 hashes in Python

---
 bindings/python/python-bindings.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bindings/python/python-bindings.cpp b/bindings/python/python-bindings.cpp
index 210b770..83ab110 100644
--- a/bindings/python/python-bindings.cpp
+++ b/bindings/python/python-bindings.cpp
@@ -117,9 +117,8 @@ PYBIND11_MODULE(pybiginteger, m) {
                 return self == to_biginteger(other);
             })
             .def("__hash__", [](BigInteger& self) {
-                auto h = 2166136261;
-                h = (h * 16777619) ^ self.get_hash_code();
-                return h;
+                // equal to an int, so the hash has to be that of the int
+                return py::hash(to_py_int(self));
             })
             .def("__gt__", [](BigInteger& self, BigInteger& other) {
                 return self > other;
-- 
2.43.0


From 6e0a5160bd8a2edd1a48d4189f902069dab8377b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:30 +0000
Subject: [PATCH 14/19] fix: divmod(int, BigInteger) failed in Python for
 results of more than 4300 digits

The results were passed through their decimal text, which Python refuses
to turn into an int beyond its digit limit; hand them over as bytes like
the other reflected operators do.
---
 bindings/python/python-bindings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/python-bindings.cpp b/bindings/python/python-bindings.cpp
index 83ab110..c34eeee 100644
--- a/bindings/python/python-bindings.cpp
+++ b/bindings/python/python-bindings.cpp
@@ -195,7 +195,7 @@ PYBIND11_MODULE(pybiginteger, m) {
                 BigInteger remainder;
                 auto big_self = to_biginteger(self);
                 auto div = BigInteger::div_rem(big_self, other, remainder);
-                return py::make_tuple(py::int_(py::str(div.to_string())), py::int_(py::str(remainder.to_string())));
+                return py::make_tuple(to_py_int(div), to_py_int(remainder));
             })
             .def("__pow__", [](BigInteger& base, BigInteger& exp) {
                 return BigInteger::pow(base, exp);
-- 
2.43.0


From 204a66399943aee9a4c972aebffe184bf36f67c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:43 +0000
Subject: [PATCH 15/19] fix: right shift of a negative value of 2^31 bits or
 more gave -1

32 * length overflowed int; compare whole limbs instead.
---
 src/BigInteger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 8d167f6..a31e388 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -1070,7 +1070,7 @@ BigInteger& BigInteger::operator>>=(const int shift) {
     negx = get_parts_for_bit_manipulation(*this, xd, xl);
 
     if (negx) {
-        if (shift >= (kcbitUint * xl)) {
+        if (digitShift >= xl) { // shift >= kcbitUint * xl, which may not fit in an int
             *this = s_bnMinusOneInt();
             return *this;
         }
-- 
2.43.0


From ee11bbaa2a62e1fcdf96886788e00337a7d6a53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:24 +0000
Subject: [PATCH 16/19] fix: to_byte_array of zero wrote through its default
 argument, a null pointer

---
 src/BigInteger.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index a31e388..2e08420 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -1268,10 +1268,12 @@ byte_array BigInteger::to_byte_array(GetBytesMode mode, bool isUnsigned, bool is
     if (sign == 0) {
         switch (mode) {
             case GetBytesMode::Count:
-                *bytesWritten = 1;
+                if (bytesWritten != nullptr)
+                    *bytesWritten = 1;
                 return byte_array();
             default:
-                *bytesWritten = 1;
+                if (bytesWritten != nullptr)
+                    *bytesWritten = 1;
                 return byte_array(1, 0);
         }
     }
@@ -1340,7 +1342,8 @@ byte_array BigInteger::to_byte_array(GetBytesMode mode, bool isUnsigned, bool is
     byte_array destination;
     switch (mode) {
         case GetBytesMode::Count:
-            *bytesWritten = length;
+            if (bytesWritten != nullptr)
+                *bytesWritten = length;
             return byte_array();
         default:
             destination = byte_array(length);
-- 
2.43.0


From 72d6b986544f2f09a8ebeaaeba408972553e575e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:14 +0000
Subject: [PATCH 17/19] fix: byte arrays of 2^31 bytes and more were read as 0
 and could not be written

---
 src/BigInteger.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 2e08420..a718e65 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -93,7 +93,7 @@ BigInteger::BigInteger(int n, uint_array value) {
 }
 
 BigInteger::BigInteger(byte_array value, bool isUnsigned, bool isBigEndian) {
-    int byteCount = value.size();
+    int64_t byteCount = value.size();
 
     bool isNegative;
     if (byteCount > 0) {
@@ -103,7 +103,7 @@ BigInteger::BigInteger(byte_array value, bool isUnsigned, bool isBigEndian) {
         if (mostSignificantByte == 0) {
             // Try to conserve space as much as possible by checking for wasted leading byte[] entries
             if (isBigEndian) {
-                int offset = 1;
+                int64_t offset = 1;
 
                 while (offset < byteCount && value[offset] == 0) {
                     offset++;
@@ -138,7 +138,7 @@ BigInteger::BigInteger(byte_array value, bool isUnsigned, bool isBigEndian) {
                 _sign = static_cast<int>((static_cast<uint32_t>(_sign) << 8) | value[i]);
             }
         } else {
-            for (int i = byteCount - 1; i >= 0; i--) {
+            for (int64_t i = byteCount - 1; i >= 0; i--) {
                 _sign = static_cast<int>((static_cast<uint32_t>(_sign) << 8) | value[i]);
             }
         }
@@ -156,13 +156,14 @@ BigInteger::BigInteger(byte_array value, bool isUnsigned, bool isBigEndian) {
             *this = s_bnMinInt();
         }
     } else {
-        int unalignedBytes = byteCount % 4;
-        int dwordCount = byteCount / 4 + (unalignedBytes == 0 ? 0 : 1);
+        int unalignedBytes = static_cast<int>(byteCount % 4);
+        int dwordCount = static_cast<int>(byteCount / 4) + (unalignedBytes == 0 ? 0 : 1);
         uint_array val(dwordCount);
-        int byteCountMinus1 = byteCount - 1;
+        int64_t byteCountMinus1 = byteCount - 1;
 
         // Copy all dwords, except don't do the last one if it's not a full four bytes
-        int curDword, curByte;
+        int curDword;
+        int64_t curByte;
 
         if (isBigEndian) {
             curByte = byteCount - sizeof(int);
@@ -1334,23 +1335,25 @@ byte_array BigInteger::to_byte_array(GetBytesMode mode, bool isUnsigned, bool is
 
     // Ensure high bit is 0 if positive, 1 if negative
     bool needExtraByte = (msb & 0x80) != (highByte & 0x80) && !isUnsigned;
-    int length = msbIndex + 1 + (needExtraByte ? 1 : 0);
+    int64_t length = msbIndex + 1 + (needExtraByte ? 1 : 0);
     if (bits.size() != 0) {
-        length = 4 * (bits.size() - 1) + length;
+        length = 4 * static_cast<int64_t>(bits.size() - 1) + length;
     }
 
     byte_array destination;
     switch (mode) {
         case GetBytesMode::Count:
+            if (length > std::numeric_limits<int>::max())
+                throw std::overflow_error("the number of bytes does not fit an int");
             if (bytesWritten != nullptr)
-                *bytesWritten = length;
+                *bytesWritten = static_cast<int>(length);
             return byte_array();
         default:
             destination = byte_array(length);
             break;
     }
 
-    int curByte = isBigEndian ? length - 1 : 0;
+    int64_t curByte = isBigEndian ? length - 1 : 0;
     int increment = isBigEndian ? -1 : 1;
 
     if (bits.size() != 0) {
-- 
2.43.0


From 47d716ec95b7c3897947b4a958f6b5d413169136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:10 +0000
Subject: [PATCH 18/19] fix: shifting zero left by a large amount allocated and
 cleared memory for the whole shift

---
 src/BigInteger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index a718e65..34d1db0 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -943,7 +943,7 @@ BigInteger operator<<(BigInteger lhs, const int shift) {
 }
 
 BigInteger& BigInteger::operator<<=(const int shift) {
-    if (shift == 0) {
+    if (shift == 0 || is_zero()) {
         return *this;
     } else if (shift == std::numeric_limits<int>::min()) {
         *this = ((*this >> std::numeric_limits<int>::max()) >> 1);
-- 
2.43.0


From 6682378f5768c802042e39d045b56ca8931a31cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:34 +0000
Subject: [PATCH 19/19] fix: only the last of several legacy notations on a
 stub line was rewritten

---
 tools/fix-stubs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/fix-stubs.py b/tools/fix-stubs.py
index a96ddd7..081090e 100644
--- a/tools/fix-stubs.py
+++ b/tools/fix-stubs.py
@@ -16,7 +16,7 @@ def main():
     for i, line in enumerate(lines):
         for pattern in patterns:
             if pattern[0] in line:  # type: str
-                lines[i] = line.replace(pattern[0], pattern[1])
+                lines[i] = line = line.replace(pattern[0], pattern[1])
 
     # add missing import
     if 'neo3vm' in sys.argv[1]:
-- 
2.43.0

