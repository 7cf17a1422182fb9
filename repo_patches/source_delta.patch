From b90b31f7a5b5c2fb446841704f77066b06d89c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 01/16] fix: let a stream's exception leave Aeu::writeBinary
 instead of terminating the process

---
 include/AesiMultiprecision/Aeu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 5773baf..e5528ce 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1453,7 +1453,7 @@ public:
      * @details Writes number in stream using .write method. Accepts STD streams based on char or wchar_t.
      */
     template <typename Char> requires (std::is_same_v<Char, char> || std::is_same_v<Char, wchar_t>)
-    constexpr auto writeBinary(std::basic_ostream<Char>& os, bool bigEndian = true) const noexcept -> void {
+    constexpr auto writeBinary(std::basic_ostream<Char>& os, bool bigEndian = true) const -> void {
         if(bigEndian) {
             for(auto it = blocks.rbegin(); it != blocks.rend(); ++it)
                 if(!os.write(reinterpret_cast<const char*>(&*it), sizeof(block))) break;
-- 
2.43.0


From 1da3b56526d470616f12942188842c38db820313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 02/16] fix: make readBinary and writeBinary usable with
 wchar_t streams, as documented

---
 include/AesiMultiprecision/Aeu.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index e5528ce..522e5cd 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1438,10 +1438,10 @@ public:
         blocks = {};
         if(bigEndian) {
             for(auto it = blocks.rbegin(); it != blocks.rend(); ++it)
-                if(!is.read(reinterpret_cast<char*>(&*it), sizeof(block))) break;
+                if(!is.read(reinterpret_cast<Char*>(&*it), sizeof(block) / sizeof(Char))) break;
         } else {
             for(auto& tBlock: blocks)
-                if(!is.read(reinterpret_cast<char*>(&tBlock), sizeof(block))) break;
+                if(!is.read(reinterpret_cast<Char*>(&tBlock), sizeof(block) / sizeof(Char))) break;
         }
     }
 
@@ -1456,10 +1456,10 @@ public:
     constexpr auto writeBinary(std::basic_ostream<Char>& os, bool bigEndian = true) const -> void {
         if(bigEndian) {
             for(auto it = blocks.rbegin(); it != blocks.rend(); ++it)
-                if(!os.write(reinterpret_cast<const char*>(&*it), sizeof(block))) break;
+                if(!os.write(reinterpret_cast<const Char*>(&*it), sizeof(block) / sizeof(Char))) break;
         } else {
             for(auto& block: blocks)
-                if(!os.write(reinterpret_cast<const char*>(&block), sizeof(block))) break;
+                if(!os.write(reinterpret_cast<const Char*>(&block), sizeof(block) / sizeof(Char))) break;
         }
     }
     /* ----------------------------------------------------------------------- */
-- 
2.43.0


From 09cab023561a8cebb2e4832059f5a296e83f5267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 03/16] fix: keep the stream's formatting state and locale out
 of Aeu's text output

---
 include/AesiMultiprecision/Aeu.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 522e5cd..c03f530 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1387,7 +1387,7 @@ public:
                     } else {
                         return tBase == 8 ? L"0o" : L"0x";
                     }
-                } () << std::noshowbase ;
+                } ();
             return tBase;
         } (flags & std::ios::basefield, os, flags & std::ios::showbase);
 
@@ -1399,11 +1399,15 @@ public:
             for(; iter > 0 && number.blocks[iter] == 0; --iter)
                 ;
 
-            os << number.blocks[iter];
-            for (; iter-- > 0;) {
-                os.fill([] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ());
-                os.width(8); os << std::right << number.blocks[iter];
-            }
+            /* Digits are produced here, not by the stream: its locale may group them, and its fill, width and adjustment belong to the user. */
+            const auto* const digits = (flags & std::ios::uppercase) ? "0123456789ABCDEF" : "0123456789abcdef";
+            const auto digitAt = [&number, digits] (std::size_t idx) { return digits[(number.blocks[idx / 8] >> (idx % 8 * 4)) & 0xfu]; };
+
+            std::size_t position = iter * 8 + 7;
+            for(; digitAt(position) == '0'; --position)
+                ;
+            for(++position; position-- > 0;)
+                os << static_cast<Char>(digitAt(position));
         } else {
             /* Well, here we use a pre-calculated magic number to ratio the length of numbers in decimal or octal notation according to bitness.
              * * It is 2.95-98 for octal and 3.2 for decimal. */
-- 
2.43.0


From 47588d2df1af98d26b1b4c91e15dbdb54ef1e30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:47 +0000
Subject: [PATCH 04/16] fix: keep getString inside the caller's buffer,
 NUL-terminated and cut at the end of the text

---
 include/AesiMultiprecision/Aesi.h | 40 ++++------------------------
 include/AesiMultiprecision/Aeu.h  | 44 ++++++++++++++-----------------
 2 files changed, 25 insertions(+), 59 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 960e459..561a1e7 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -1062,46 +1062,16 @@ public:
         using enum Sign;
 
         if(sign != Zero) {
-            if(sign == Negative && bufferSize > 0) {
+            if(sign == Negative) {
+                if(bufferSize < 2) return 0;
                 *buffer++ = [] { if constexpr (std::is_same_v<Char, char>) { return '-'; } else { return L'-'; } } ();
-                --bufferSize;
+                *buffer = Char {};
+                return 1 + base.template getString<notation, hexUppercase, Char>(buffer, bufferSize - 1, showBase);
             }
             return base.template getString<notation, hexUppercase, Char>(buffer, bufferSize, showBase);
         }
 
-        if(showBase) {
-            switch(notation) {
-                case 2: {
-                    if(bufferSize < 3) return 0;
-                    buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
-                    buffer[1] = [] { if constexpr (std::is_same_v<Char, char>) { return 'b'; } else { return L'b'; } } ();
-                    buffer[2] = buffer[0];
-                    return 3;
-                }
-                case 8: {
-                    if(bufferSize < 3) return 0;
-                    buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
-                    buffer[1] = [] { if constexpr (std::is_same_v<Char, char>) { return 'o'; } else { return L'o'; } } ();
-                    buffer[2] = buffer[0];
-                    return 3;
-                }
-                case 16: {
-                    if(bufferSize < 3) return 0;
-                    buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
-                    buffer[1] = [] { if constexpr (std::is_same_v<Char, char>) { return 'x'; } else { return L'x'; } } ();
-                    buffer[2] = buffer[0];
-                    return 3;
-                }
-                default: {
-                    if(bufferSize < 1) return 0;
-                    buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
-                    return 1;
-                }
-            }
-        }
-
-        buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
-        return 1;
+        return Base {}.template getString<notation, hexUppercase, Char>(buffer, bufferSize, showBase);
     }
 
     /**
diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index c03f530..529193a 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1283,7 +1283,7 @@ public:
 
         std::size_t position = 0;
 
-        if (showBase && bufferSize > 3) {
+        if (showBase && bufferSize > 2) {
             if constexpr (base == 2) {
                 if constexpr (std::is_same_v<Char, char>) {
                     buffer[0] = '0'; buffer[1] = 'b';
@@ -1309,7 +1309,9 @@ public:
         }
 
         if(isZero()) {
-            buffer[position++] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; }}();
+            if(position + 1 < bufferSize)
+                buffer[position++] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; }}();
+            buffer[position++] = Char {};
             return position;
         }
 
@@ -1318,33 +1320,27 @@ public:
             for (; iter > 0 && blocks[iter] == 0; --iter)
                 ;
 
-            if constexpr (std::is_same_v<Char, char>) {
-                if constexpr (hexUppercase) {
-                    position += static_cast<std::size_t>(snprintf(buffer + position, bufferSize - position, "%X", blocks[iter]));
-                    for (; iter-- > 0;)
-                        position += static_cast<std::size_t>(snprintf(buffer + position, bufferSize - position, "%08X", blocks[iter]));
-                } else {
-                    position += static_cast<std::size_t>(snprintf(buffer + position, bufferSize - position, "%x", blocks[iter]));
-                    for (; iter-- > 0;)
-                        position += static_cast<std::size_t>(snprintf(buffer + position, bufferSize - position, "%08x", blocks[iter]));
-                }
-            } else {
-                if constexpr (hexUppercase) {
-                    position += static_cast<std::size_t>(swprintf(buffer + position, bufferSize - position, L"%X", blocks[iter]));
-                    for (; iter-- > 0;)
-                        position += static_cast<std::size_t>(swprintf(buffer + position, bufferSize - position, L"%08X", blocks[iter]));
-                } else {
-                    position += static_cast<std::size_t>(swprintf(buffer + position, bufferSize - position, L"%x", blocks[iter]));
-                    for (; iter-- > 0;)
-                        position += static_cast<std::size_t>(swprintf(buffer + position, bufferSize - position, L"%08x", blocks[iter]));
-                }
-            }
+            const auto* const digits = hexUppercase ? "0123456789ABCDEF" : "0123456789abcdef";
+            const auto digitAt = [this, digits] (std::size_t idx) { return digits[(blocks[idx / 8] >> (idx % 8 * 4)) & 0xfu]; };
+
+            std::size_t idx = iter * 8 + 7;
+            for (; digitAt(idx) == '0'; --idx)
+                ;
+            for (++idx; idx-- > 0 && position + 1 < bufferSize;)
+                buffer[position++] = static_cast<Char>(digitAt(idx));
         } else {
             const auto startPosition = position;
 
             Aeu copy = *this;
-            while (!copy.isZero() && position < bufferSize) {
+            while (!copy.isZero()) {
                 auto [quotient, remainder] = divide(copy, base);
+                if(position + 1 >= bufferSize) {
+                    /* Buffer is full: lower digits are dropped, as the text is to be cut at its end */
+                    if(position == startPosition) break;
+                    for (std::size_t i = startPosition; i + 1 < position; ++i)
+                        buffer[i] = buffer[i + 1];
+                    --position;
+                }
                 if constexpr (std::is_same_v<Char, char>) {
                     buffer[position++] = static_cast<Char>('0' + remainder.template integralCast<byte>());
                 } else {
-- 
2.43.0


From aa1824d79037e580d0d9367cf1fb319492e7a8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 05/16] fix: let bad_alloc leave the equality operators against
 GMP expressions

---
 include/AesiMultiprecision/Aesi.h | 2 +-
 include/AesiMultiprecision/Aeu.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 561a1e7..b58c8a5 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -632,7 +632,7 @@ public:
          * @return bool
          */
         template <typename T, typename U>
-        constexpr friend auto operator==(const Aesi& our, const __gmp_expr<T, U>& other) noexcept -> bool {
+        constexpr friend auto operator==(const Aesi& our, const __gmp_expr<T, U>& other) -> bool {
             return our == Aesi(mpz_class(other));
         }
 #endif
diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 529193a..c115be9 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -750,7 +750,7 @@ public:
          * @return Boolean
          */
         template <typename T, typename U>
-        constexpr friend auto operator==(const Aeu& our, const __gmp_expr<T, U>& other) noexcept -> bool {
+        constexpr friend auto operator==(const Aeu& our, const __gmp_expr<T, U>& other) -> bool {
             return our == Aeu(mpz_class(other));
         }
 #endif
-- 
2.43.0


From dde36bd4817718012725c309f1bf9359629b58a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 06/16] fix: make tryAtomicExchange compile and give the
 previous value back, sign included

---
 include/AesiMultiprecision/Aesi.h | 4 ++--
 include/AesiMultiprecision/Aeu.h  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index b58c8a5..97206b5 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -1115,9 +1115,9 @@ public:
      * @note Method itself is not fully-atomic. There may be race conditions between two consecutive atomic calls on number blocks.
      * This method is an interface for exchanging encapsulated class members atomically one by one
      */
-    __device__ constexpr auto tryAtomicExchange(const Aesi& value) noexcept -> void {
+    __device__ constexpr auto tryAtomicExchange(Aesi& value) noexcept -> void {
         base.tryAtomicExchange(value.base);
-        sign = value.sign; /* TODO: Make enum substitution using existing CUDA atomics */
+        const Sign tSign = sign; sign = value.sign; value.sign = tSign; /* TODO: Make enum substitution using existing CUDA atomics */
     }
 #endif
 };
diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index c115be9..65f8889 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1517,7 +1517,7 @@ public:
      * @note Method itself is not fully-atomic. There may be race conditions between two consecutive atomic calls on number blocks.
      * This method is an interface for exchanging encapsulated class members atomically one by one
      */
-    __device__ constexpr auto tryAtomicExchange(const Aeu& value) noexcept -> void {
+    __device__ constexpr auto tryAtomicExchange(Aeu& value) noexcept -> void {
         for(std::size_t i = 0; i < blocksNumber; ++i)
             atomicExch(&value.blocks[i], atomicExch(&blocks[i], value.blocks[i]));
     }
-- 
2.43.0


From cc66aa99093a36642c7c2ae9281e481d3e10a2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 07/16] fix: make comparison operators usable in CUDA and
 PRE_CPP_20 builds

---
 include/AesiMultiprecision/Aesi.h | 16 ++++++++--------
 include/AesiMultiprecision/Aeu.h  | 10 +++++-----
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 97206b5..6897a8f 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -729,20 +729,20 @@ public:
         /**
          * @brief Oldstyle comparison operator(s). Used inside CUDA cause it does not support <=> operator.
          */
-        gpu constexpr auto operator!=(const Aeu<bitness>& value) const noexcept -> bool {
-            return !this->operator==(value);
+        template <typename Object> gpu constexpr auto operator!=(const Object& value) const noexcept -> bool {
+            return !(*this == value);
         }
-        gpu constexpr auto operator<(const Aeu<bitness>& value) const noexcept -> bool {
+        template <typename Object> gpu constexpr auto operator<(const Object& value) const noexcept -> bool {
             return this->compareTo(value) == Comparison::less;
         }
-        gpu constexpr auto operator<=(const Aeu<bitness>& value) const noexcept -> bool {
-            return !this->operator>(value);
+        template <typename Object> gpu constexpr auto operator<=(const Object& value) const noexcept -> bool {
+            return !(*this > value);
         }
-        gpu constexpr auto operator>(const Aeu<bitness>& value) const noexcept -> bool {
+        template <typename Object> gpu constexpr auto operator>(const Object& value) const noexcept -> bool {
             return this->compareTo(value) == Comparison::greater;
         }
-        gpu constexpr auto operator>=(const Aeu<bitness>& value) const noexcept -> bool {
-            return !this->operator<(value);
+        template <typename Object> gpu constexpr auto operator>=(const Object& value) const noexcept -> bool {
+            return !(*this < value);
         }
 #else
         /**
diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 65f8889..3c2b58f 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -835,11 +835,11 @@ public:
         /**
          * @brief Oldstyle comparison operator(s). Used inside CUDA because it does not support <=> on preCpp20
          */
-        gpu constexpr auto operator!=(const Aeu& value) const noexcept -> bool { return !this->operator==(value); }
-        gpu constexpr auto operator<(const Aeu& value) const noexcept -> bool { return this->compareTo(value) == Comparison::less; }
-        gpu constexpr auto operator<=(const Aeu& value) const noexcept -> bool { return !this->operator>(value); }
-        gpu constexpr auto operator>(const Aeu& value) const noexcept -> bool { return this->compareTo(value) == Comparison::greater; }
-        gpu constexpr auto operator>=(const Aeu& value) const noexcept -> bool { return !this->operator<(value); }
+        template <typename Object> gpu constexpr auto operator!=(const Object& value) const noexcept -> bool { return !(*this == value); }
+        template <typename Object> gpu constexpr auto operator<(const Object& value) const noexcept -> bool { return this->compareTo(value) == Comparison::less; }
+        template <typename Object> gpu constexpr auto operator<=(const Object& value) const noexcept -> bool { return !(*this > value); }
+        template <typename Object> gpu constexpr auto operator>(const Object& value) const noexcept -> bool { return this->compareTo(value) == Comparison::greater; }
+        template <typename Object> gpu constexpr auto operator>=(const Object& value) const noexcept -> bool { return !(*this < value); }
 #else
         /**
          * @brief Three-way comparison operator
-- 
2.43.0


From 367cca40dd13102e2b3a57bc8c4d5e9fa0aaeae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 08/16] fix: make every signed zero the same zero

---
 include/AesiMultiprecision/Aesi.h | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 6897a8f..5cf8bc4 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -148,7 +148,7 @@ public:
      * @brief Unsigned integer conversion
      * @param value Aeu&
      */
-    explicit gpu constexpr Aesi(const Aeu<bitness>& value) : sign(Sign::Positive), base(value) {}
+    explicit gpu constexpr Aesi(const Aeu<bitness>& value) : sign(value.isZero() ? Sign::Zero : Sign::Positive), base(value) {}
 
 
 #ifdef AESI_GMP_INTEGRATION
@@ -289,7 +289,7 @@ public:
                         return addition;
                     }
                     default: {
-                        lSign = Zero;
+                        lSign = Zero; lBase = {};
                         return addition;
                     }
                 }
@@ -306,7 +306,7 @@ public:
                         return addition;
                     }
                     default: {
-                        lSign = Zero;
+                        lSign = Zero; lBase = {};
                         return addition;
                     }
                 }
@@ -359,7 +359,7 @@ public:
                             return subtraction;
                         }
                         default: {
-                            lSign = Zero;
+                            lSign = Zero; lBase = {};
                             return subtraction;
                         }
                     }
@@ -381,7 +381,7 @@ public:
                             return subtraction;
                         }
                         default: {
-                            lSign = Zero;
+                            lSign = Zero; lBase = {};
                             return subtraction;
                         }
                     }
@@ -426,7 +426,7 @@ public:
         gpu constexpr friend auto operator*=(Aesi& multiplication, Integral factor) noexcept -> Aesi& {
             using enum Sign;
             if(factor == 0) {
-                multiplication.sign = Zero;
+                multiplication.sign = Zero; multiplication.base = {};
             } else {
                 if(factor < 0) {
                     multiplication.inverse();
@@ -446,7 +446,7 @@ public:
         gpu constexpr friend auto operator*=(Aesi& multiplication, const Aesi& factor) noexcept -> Aesi& {
             using enum Sign;
             if(factor.isZero()) {
-                multiplication.sign = Zero;
+                multiplication.sign = Zero; multiplication.base = {};
             } else {
                 if(factor.isNegative())
                     multiplication.inverse();
@@ -492,7 +492,7 @@ public:
         gpu constexpr friend auto operator/=(Aesi& division, Integral divisor) noexcept -> Aesi& {
             using enum Sign;
             if(divisor == 0) {
-                division.sign = Zero;
+                division.sign = Zero; division.base = {};
             } else {
                 if(divisor < 0) {
                     division.inverse();
@@ -514,7 +514,7 @@ public:
         gpu constexpr friend auto operator/=(Aesi& division, const Aesi& divisor) noexcept -> Aesi& {
             using enum Sign;
             if(divisor.isZero()) {
-                division.sign = Zero;
+                division.sign = Zero; division.base = {};
             } else {
                 if(divisor.isNegative())
                     division.inverse();
@@ -562,13 +562,14 @@ public:
         gpu constexpr friend auto operator%=(Aesi& modulation, Integral modulo) noexcept -> Aesi& {
             using enum Sign;
             if(modulo == 0) {
-                modulation.sign = Zero;
+                modulation.sign = Zero; modulation.base = {};
             } else {
                 if(modulo < 0) {
                     modulation.inverse();
                     modulo = static_cast<Integral>(-modulo);
                 }
                 modulation.base %= static_cast<unsigned long long>(modulo);
+                if(modulation.base.isZero()) modulation.sign = Zero;
             }
             return modulation;
         }
@@ -942,8 +943,8 @@ public:
     gpu static constexpr auto divide(const Aesi& number, const Aesi& divisor, Aesi& quotient, Aesi& remainder) noexcept -> void {
         using enum Sign;
         if(number.sign == Zero || divisor.sign == Zero) {
-            quotient.sign = Zero;
-            remainder.sign = Zero;
+            quotient = Aesi {};
+            remainder = Aesi {};
             return;
         }
 
@@ -1031,6 +1032,8 @@ public:
             for(std::size_t blockIdx = 0; blockIdx < blockBoarder; ++blockIdx)
                 result.setBlock(blockIdx, getBlock(blockIdx));
 
+            if(result.filledBlocksNumber() == 0)
+                return Aesi<newBitness> {};
             if(sign == Negative)
                 result.inverse();
 
-- 
2.43.0


From 1cd06bd57560e3a242494fc0c32b79d2e5fb6ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 09/16] fix: keep the carry of additions of and multiplications
 by 64-bit integers

---
 include/AesiMultiprecision/Aeu.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 3c2b58f..48c0093 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -361,9 +361,10 @@ public:
          */
         template <typename Unsigned> requires (std::is_unsigned_v<Unsigned>)
         gpu constexpr friend auto operator+=(Aeu& addition, Unsigned addendum) noexcept -> Aeu& {
+            uint64_t rest = static_cast<uint64_t>(addendum);
             for(std::size_t i = 0; i < blocksNumber; ++i) {
-                const auto currentSum = static_cast<uint64_t>(addition.blocks[i]) + static_cast<uint64_t>(addendum);
-                addendum = static_cast<Unsigned>(currentSum / blockBase); addition.blocks[i] = static_cast<block>(currentSum % blockBase);
+                const auto currentSum = static_cast<uint64_t>(addition.blocks[i]) + rest % blockBase;
+                rest = rest / blockBase + currentSum / blockBase; addition.blocks[i] = static_cast<block>(currentSum % blockBase);
             }
             return addition;
         }
@@ -436,7 +437,7 @@ public:
          */
         template <typename Unsigned> requires (std::is_unsigned_v<Unsigned>)
         gpu constexpr friend auto operator*=(Aeu& multiplication, Unsigned factor) noexcept -> Aeu& {
-            if constexpr (std::is_same_v<Unsigned, uint64_t>) {
+            if constexpr (sizeof(Unsigned) >= sizeof(uint64_t)) {
                 const auto longerLength = multiplication.filledBlocksNumber();
                 const auto smallerLength = (factor > blockMax ? 2UL : 1UL);
                 blockLine buffer {};
-- 
2.43.0


From 2c4d4228c1580a88c49a73a53e76a141ba153610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 10/16] fix: reject the byte index one past the number's last
 byte

---
 include/AesiMultiprecision/Aeu.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 48c0093..ab25197 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -930,7 +930,7 @@ public:
      */
     gpu constexpr auto setByte(std::size_t index, byte byte) noexcept -> void {
 #ifndef AESI_UNSAFE
-        if(index > blocksNumber * sizeof(block)) return;
+        if(index >= blocksNumber * sizeof(block)) return;
 #endif
         const std::size_t blockNumber = index / sizeof(block), byteInBlock = index % sizeof(block), shift = byteInBlock * bitsInByte;
         assert(blockNumber < blocksNumber && byteInBlock < sizeof(block));
@@ -946,7 +946,7 @@ public:
     [[nodiscard]]
     gpu constexpr auto getByte(std::size_t index) const noexcept -> byte {
 #ifndef AESI_UNSAFE
-        if(index > blocksNumber * sizeof(block)) return 0;
+        if(index >= blocksNumber * sizeof(block)) return 0;
 #endif
         const std::size_t blockNumber = index / sizeof(block), byteInBlock = index % sizeof(block), shift = byteInBlock * bitsInByte;
         assert(blockNumber < blocksNumber && byteInBlock < sizeof(block));
-- 
2.43.0


From 8e26917f0f7bf7014495614633ae0df94221ea1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 11/16] fix: take the magnitude of the lowest value of a signed
 built-in type correctly

---
 include/AesiMultiprecision/Aesi.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 5cf8bc4..699a86e 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -100,7 +100,7 @@ public:
     gpu constexpr Aesi(Integral value) noexcept {
         using enum Sign;
         if(value < 0) {
-            base = Base(static_cast<unsigned long long>(-value));
+            base = Base(0ull - static_cast<unsigned long long>(value));
             sign = Negative;
         } else if(value > 0) {
             base = Base(static_cast<unsigned long long>(value));
@@ -428,11 +428,12 @@ public:
             if(factor == 0) {
                 multiplication.sign = Zero; multiplication.base = {};
             } else {
+                auto magnitude = static_cast<unsigned long long>(factor);
                 if(factor < 0) {
                     multiplication.inverse();
-                    factor = static_cast<Integral>(-factor);
+                    magnitude = 0ull - magnitude;
                 }
-                multiplication.base *= static_cast<unsigned long long>(factor);
+                multiplication.base *= magnitude;
             }
             return multiplication;
         }
@@ -494,11 +495,12 @@ public:
             if(divisor == 0) {
                 division.sign = Zero; division.base = {};
             } else {
+                auto magnitude = static_cast<unsigned long long>(divisor);
                 if(divisor < 0) {
                     division.inverse();
-                    divisor = static_cast<Integral>(-divisor);
+                    magnitude = 0ull - magnitude;
                 }
-                division.base /= static_cast<unsigned long long>(divisor);
+                division.base /= magnitude;
                 if(division.base.isZero()) division.sign = Zero;
             }
             return division;
@@ -564,11 +566,12 @@ public:
             if(modulo == 0) {
                 modulation.sign = Zero; modulation.base = {};
             } else {
+                auto magnitude = static_cast<unsigned long long>(modulo);
                 if(modulo < 0) {
                     modulation.inverse();
-                    modulo = static_cast<Integral>(-modulo);
+                    magnitude = 0ull - magnitude;
                 }
-                modulation.base %= static_cast<unsigned long long>(modulo);
+                modulation.base %= magnitude;
                 if(modulation.base.isZero()) modulation.sign = Zero;
             }
             return modulation;
-- 
2.43.0


From d254755e03f63e8a7f174c3f3d11691fce0b8767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:03 +0000
Subject: [PATCH 12/16] fix: print all digits of 64-bit numbers in octal
 notation

The buffer for digits was too short for them: 64 / 2.95 is 21, and the text takes 22.
---
 include/AesiMultiprecision/Aeu.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index ab25197..f9c3b7e 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1406,9 +1406,8 @@ public:
             for(++position; position-- > 0;)
                 os << static_cast<Char>(digitAt(position));
         } else {
-            /* Well, here we use a pre-calculated magic number to ratio the length of numbers in decimal or octal notation according to bitness.
-             * * It is 2.95-98 for octal and 3.2 for decimal. */
-            constexpr auto bufferSize = static_cast<std::size_t>(static_cast<double>(bitness) / 2.95);
+            /* Octal digit takes exactly 3 bits and decimal one takes more, so the octal notation is the longest of the two. */
+            constexpr std::size_t bufferSize = (bitness + 2) / 3;
             Char buffer [bufferSize] {}; std::size_t filled = 0;
 
             Aeu copy = number;
-- 
2.43.0


From ab98c78b69321cf3daf1545b00ec93a0196b049e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:58 +0000
Subject: [PATCH 13/16] fix: compare numbers of different precision by value

---
 include/AesiMultiprecision/Aesi.h | 12 ++++++------
 include/AesiMultiprecision/Aeu.h  | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 699a86e..f138718 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -621,11 +621,7 @@ public:
          */
         template <std::size_t otherBitness>
         gpu constexpr friend auto operator==(const Aesi& our, const Aesi<otherBitness>& other) noexcept -> bool {
-            if constexpr (bitness == otherBitness) {
-                return our.compareTo(other) == Comparison::equal;
-            } else {
-                return our.precisionCast<otherBitness>() == other;
-            }
+            return our.compareTo(other) == Comparison::equal;
         }
 
 #ifdef AESI_GMP_INTEGRATION
@@ -687,7 +683,11 @@ public:
          */
         template <std::size_t otherBitness = bitness> [[nodiscard]]
         gpu constexpr auto compareTo(const Aesi<otherBitness>& value) const noexcept -> Comparison {
-            return precisionCast<otherBitness>().compareTo(value);
+            if constexpr (otherBitness > bitness) {
+                return precisionCast<otherBitness>().compareTo(value);
+            } else {
+                return compareTo(value.template precisionCast<bitness>());
+            }
         }
 
         /**
diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index f9c3b7e..4c32820 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -807,12 +807,6 @@ public:
             using enum Comparison;
 
             const auto lowerBlockBorder = (blocksNumber < other.totalBlocksNumber() ? blocksNumber : other.totalBlocksNumber());
-            for(std::size_t i = lowerBlockBorder; i-- > 0;) {
-                const block thisBlock = blocks[i], otherBlock = other.getBlock(i);
-                if(thisBlock != otherBlock)
-                    return (thisBlock > otherBlock ? greater : less);
-            }
-
             if constexpr (otherBitness != blocksNumber * blockBitLength) {
                 using enum Comparison;
                 if (other.totalBlocksNumber() > blocksNumber) {
@@ -826,6 +820,12 @@ public:
                 }
             }
 
+            for(std::size_t i = lowerBlockBorder; i-- > 0;) {
+                const block thisBlock = blocks[i], otherBlock = other.getBlock(i);
+                if(thisBlock != otherBlock)
+                    return (thisBlock > otherBlock ? greater : less);
+            }
+
             return equal;
         }
     /* --------------------------------------------------------------------------- */
-- 
2.43.0


From 6c87fb541539521506e54626034494552dad76c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:27 +0000
Subject: [PATCH 14/16] fix: zero raised to a power other than zero is zero

---
 include/AesiMultiprecision/Aeu.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 4c32820..f6a75ff 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1202,8 +1202,6 @@ public:
     gpu static constexpr auto powm(const Aeu& base, const Aeu<powerBitness>& power, const Aeu& modulo) noexcept -> Aeu {
         if(base == 1u)
             return base;
-        if(base == 0u)
-            return { 1u };
 
         Aeu output = 1u;
         auto [_, b] = divide(base, modulo);
-- 
2.43.0


From eae9ec7f871d79205dac424b07d6a4629fa43471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:27 +0000
Subject: [PATCH 15/16] fix: the remainder of a signed division takes the sign
 of the dividend

---
 include/AesiMultiprecision/Aesi.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index f138718..7b16786 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -567,10 +567,8 @@ public:
                 modulation.sign = Zero; modulation.base = {};
             } else {
                 auto magnitude = static_cast<unsigned long long>(modulo);
-                if(modulo < 0) {
-                    modulation.inverse();
+                if(modulo < 0)
                     magnitude = 0ull - magnitude;
-                }
                 modulation.base %= magnitude;
                 if(modulation.base.isZero()) modulation.sign = Zero;
             }
@@ -589,8 +587,6 @@ public:
             if(modulo.isZero())
                 return modulation;
 
-            if(modulo.isNegative())
-                modulation.inverse();
             modulation.base %= modulo.base;
             if(modulation.base.isZero())
                 modulation.sign = Sign::Zero;
-- 
2.43.0


From ed2dc0039b2527b9dc215a237300e9cfdb77c063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:54 +0000
Subject: [PATCH 16/16] fix: zero of a signed number is printed with its base
 prefix, as an unsigned zero is

---
 include/AesiMultiprecision/Aesi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 7b16786..7ee1bed 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -1095,7 +1095,7 @@ public:
                 os << [] { if constexpr (std::is_same_v<Char, char>) { return '-'; } else { return L'-'; } } ();
             return os << number.base;
         }
-        return os << '0';
+        return os << Base {};
     }
     /* ----------------------------------------------------------------------- */
 
-- 
2.43.0

