From 9b3ffdc0f251bf7c810210f7a89cd31d209557b4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:50 +0000
Subject: [PATCH 01/71] fix: BigInteger order and difference of two negative
 numbers

---
 include/Caitlyn/__Numeric/Types/BigInteger.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/Caitlyn/__Numeric/Types/BigInteger.h b/include/Caitlyn/__Numeric/Types/BigInteger.h
index 6daacbe..c53c294 100644
--- a/include/Caitlyn/__Numeric/Types/BigInteger.h
+++ b/include/Caitlyn/__Numeric/Types/BigInteger.h
@@ -161,12 +161,12 @@ public:
         {
             return BigInteger{"0"};
         }
-        const bool result_is_negative = LessThan(other);
-        const BigInteger& larger = result_is_negative ? other : *this;
-        const BigInteger& smaller = result_is_negative ? *this : other;
+        const bool is_smaller = Abs().LessThan(other.Abs());
+        const BigInteger& larger = is_smaller ? other : *this;
+        const BigInteger& smaller = is_smaller ? *this : other;
 
         BigInteger result;
-        result.is_negative_ = result_is_negative;
+        result.is_negative_ = is_smaller != is_negative_;
         result.digits_.resize(larger.digits_.size(), 0);
 
         int borrow = 0;
@@ -353,13 +353,13 @@ public:
         }
         if (digits_.size() != other.digits_.size())
         {
-            return digits_.size() < other.digits_.size();
+            return (digits_.size() < other.digits_.size()) != is_negative_;
         }
         for (SizeType i = digits_.size(); i > 0; --i)
         {
             if (digits_[i - 1] != other.digits_[i - 1])
             {
-                return digits_[i - 1] < other.digits_[i - 1];
+                return (digits_[i - 1] < other.digits_[i - 1]) != is_negative_;
             }
         }
         return false;
-- 
2.43.0


From ba4fea63a23f7aeeaf1f4614f8df5c51e80095ce Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:50 +0000
Subject: [PATCH 02/71] fix: BigInteger sum and difference of operands with
 different signs

---
 include/Caitlyn/__Numeric/Types/BigInteger.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Numeric/Types/BigInteger.h b/include/Caitlyn/__Numeric/Types/BigInteger.h
index c53c294..34bb622 100644
--- a/include/Caitlyn/__Numeric/Types/BigInteger.h
+++ b/include/Caitlyn/__Numeric/Types/BigInteger.h
@@ -142,10 +142,13 @@ public:
 
         if (abs_this.GreaterThan(abs_other))
         {
-            return abs_this.Subtract(abs_other);
+            BigInteger result = abs_this.Subtract(abs_other);
+            result.is_negative_ = is_negative_;
+            return result;
         }
         BigInteger result = abs_other.Subtract(abs_this);
         result.is_negative_ = other.is_negative_;
+        result.RemoveLeadingZeros();
         return result;
     }
 
@@ -153,9 +156,9 @@ public:
     {
         if (this->is_negative_ != other.is_negative_)
         {
-            BigInteger result = Add(other);
-            result.is_negative_ = this->is_negative_;
-            return result;
+            BigInteger negated = other;
+            negated.is_negative_ = this->is_negative_;
+            return Add(negated);
         }
         if (Equal(other))
         {
-- 
2.43.0


From 51961be30d4323fa3b15b266a59c9d143f3d4376 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:50 +0000
Subject: [PATCH 03/71] fix: BigInteger remainder zero of a negative number is
 zero, not -0

---
 include/Caitlyn/__Numeric/Types/BigInteger.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/Caitlyn/__Numeric/Types/BigInteger.h b/include/Caitlyn/__Numeric/Types/BigInteger.h
index 34bb622..fbaee5a 100644
--- a/include/Caitlyn/__Numeric/Types/BigInteger.h
+++ b/include/Caitlyn/__Numeric/Types/BigInteger.h
@@ -261,12 +261,7 @@ public:
 
     BigInteger Modulo(const BigInteger& other) const
     {
-        BigInteger result = Subtract(Divide(other).Multiply(other));
-        if (result.is_negative_ != is_negative_)
-        {
-            result.is_negative_ = is_negative_;
-        }
-        return result;
+        return Subtract(Divide(other).Multiply(other));
     }
 
 public:
-- 
2.43.0


From e260a21c19a7d28f84b2370e197b43402d1a929d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:50 +0000
Subject: [PATCH 04/71] fix: BigInteger refuses a lone sign and non-ASCII
 digits

---
 include/Caitlyn/__Numeric/Types/BigInteger.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Numeric/Types/BigInteger.h b/include/Caitlyn/__Numeric/Types/BigInteger.h
index fbaee5a..b062681 100644
--- a/include/Caitlyn/__Numeric/Types/BigInteger.h
+++ b/include/Caitlyn/__Numeric/Types/BigInteger.h
@@ -68,9 +68,13 @@ public:
                 start = 1;
             }
         }
+        if (start == number.size())
+        {
+            throw std::invalid_argument{"Invalid number format"};
+        }
         for (SizeType i = start; i < number.size(); ++i)
         {
-            if (!IsDigit(number[i].GetCodePoint()))
+            if (number[i].GetCodePoint() < '0' || number[i].GetCodePoint() > '9')
             {
                 throw std::invalid_argument{"Invalid number format"};
             }
-- 
2.43.0


From f409ceb94156933d68238f4da16a9f9de0526ab0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:55 +0000
Subject: [PATCH 05/71] fix: do not read past the end of a truncated UTF-8
 sequence

---
 include/Caitlyn/__Core/String/String.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index b192a9e..77305a9 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -999,6 +999,13 @@ private:
         {
             throw std::runtime_error("Invalid UTF-8 sequence");
         }
+        for (SizeType i = 1; i < len; ++i)
+        {
+            if ((static_cast<Byte>(cstr[i]) & 0xC0) != 0x80)
+            {
+                throw std::runtime_error("Invalid UTF-8 sequence");
+            }
+        }
         return CharType{BasicString(cstr, len)};
     }
 
-- 
2.43.0


From a73bbbc1cd383c8b825a5f4867e722d30df4bcfd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:55 +0000
Subject: [PATCH 06/71] fix: String::ReverseFind returns where the match starts

---
 include/Caitlyn/__Core/String/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 77305a9..55ddf0e 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -412,7 +412,7 @@ public:
             data_.rend(),
             substr.rbegin(),
             substr.rend());
-        return (it != data_.rend()) ? size() - 1 - std::distance(data_.rbegin(), it) : NPosition;
+        return (it != data_.rend()) ? size() - substr.size() - std::distance(data_.rbegin(), it) : NPosition;
     }
 
     // Substring method
-- 
2.43.0


From afdc15ad41f85915c336574bbad83182149a6dd7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:55 +0000
Subject: [PATCH 07/71] fix: String::Find with a start position past the end
 finds nothing

---
 include/Caitlyn/__Core/String/String.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 55ddf0e..21e8e5e 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -391,6 +391,10 @@ public:
     // Method to find the first occurrence of a substring
     SizeType Find(const String& substr, const SizeType pos = 0) const
     {
+        if (pos > size())
+        {
+            return NPosition;
+        }
         const auto it =
             std::search(data_.begin() + static_cast<DifferenceType>(pos), data_.end(), substr.begin(), substr.end());
         return (it != data_.end()) ? std::distance(data_.begin(), it) : NPosition;
-- 
2.43.0


From 327b5c8481770706e85843a65d2a799815464b76 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:55 +0000
Subject: [PATCH 08/71] fix: a String can be inserted into or appended to
 itself

---
 include/Caitlyn/__Core/String/String.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 21e8e5e..fba0b10 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -289,10 +289,11 @@ public:
 
     void Append(const SizeType count, const CharType& pattern)
     {
+        const CharType ch = pattern;
         SizeType i = 0;
         while (i < count)
         {
-            data_.emplace_back(pattern);
+            data_.emplace_back(ch);
             ++i;
         }
     }
@@ -507,7 +508,8 @@ public:
         {
             throw std::out_of_range("Position out of range");
         }
-        data_.insert(data_.begin() + static_cast<DifferenceType>(pos), str.data_.begin(), str.data_.end());
+        const DataType temp_data = str.data_;
+        data_.insert(data_.begin() + static_cast<DifferenceType>(pos), temp_data.begin(), temp_data.end());
     }
 
     void Insert(const SizeType pos, const SizeType count, const CharType& ch)
-- 
2.43.0


From 12da974ff6ced771422b7306ea615bf7c5c30439 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:55 +0000
Subject: [PATCH 09/71] fix: Format gives each placeholder its own argument and
 never reads past them

---
 include/Caitlyn/__Core/String/String.h | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index fba0b10..df015ee 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -591,7 +591,7 @@ public:
                         throw Formatter::FormatError{"Mismatched braces in format string"};
                     }
                     const auto spec = formatter.Substring(pos + 1, end - pos - 1);
-                    SizeType arg_index = 0;
+                    SizeType arg_index = arguments.size() == 1 ? 0 : auto_index;
                     constexpr SizeType spec_begin = 0;
 
                     if (spec.NotEmpty() && IsDigit(spec[spec_begin].GetCodePoint()))
@@ -609,7 +609,7 @@ public:
                         {
                             throw Formatter::FormatError{"Invalid argument index"};
                         }
-                        if (arg_index > arguments.size() - 1)
+                        if (arg_index >= arguments.size())
                         {
                             throw Formatter::FormatError{"Argument index out of range"};
                         }
@@ -620,7 +620,7 @@ public:
                             if (format_spec[0] == Def::Colon)
                             {
                                 auto parsed_spec = Formatter::MakeSpacifier(format_spec);
-                                result << Formatter::Process(arguments[auto_index], parsed_spec).str();
+                                result << Formatter::Process(arguments[arg_index], parsed_spec).str();
                             }
                         }
                         else
@@ -628,22 +628,20 @@ public:
                             result << arguments[arg_index].str();
                         }
                     }
+                    else if (arg_index >= arguments.size())
+                    {
+                        throw Formatter::FormatError{"Missing argument index in format string"};
+                    }
                     else if (spec.NotEmpty() && spec[spec_begin] == Def::Colon)
                     {
+                        ++auto_index;
                         auto parsed_spec = Formatter::MakeSpacifier(spec);
                         result << Formatter::Process(arguments[arg_index], parsed_spec).str();
                     }
-                    else if (arguments.size() == 1)
-                    {
-                        result << arguments[0].str();
-                    }
-                    else if (arguments.size() > 1)
-                    {
-                        result << arguments[auto_index++].str();
-                    }
                     else
                     {
-                        throw Formatter::FormatError{"Missing argument index in format string"};
+                        ++auto_index;
+                        result << arguments[arg_index].str();
                     }
                     pos = end + 1;
                 }
-- 
2.43.0


From 3798d1b7b57025fc69237a8b0c6b7d4ee2e66b4b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:55 +0000
Subject: [PATCH 10/71] fix: an empty format specification is not read past its
 end

---
 include/Caitlyn/__Core/String/String.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index df015ee..1d0a198 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -768,6 +768,10 @@ private:
 
         static void ParseAlignment(const String& config, FormatSpecifier& spec, SizeType& pos)
         {
+            if (pos >= config.size())
+            {
+                return;
+            }
             if (pos + 1 < config.size() &&
                 (config[pos + 1] == Def::LessThanSign || config[pos + 1] == Def::GreaterThanSign ||
                  config[pos + 1] == Def::CircumflexAccent))
-- 
2.43.0


From 112f3cb78ac9dde759f67b581fb1ee1a044e0830 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:55 +0000
Subject: [PATCH 11/71] fix: floating format without precision keeps the value
 and precision 0 shows no point

---
 include/Caitlyn/__Core/String/String.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 1d0a198..8896470 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -920,12 +920,13 @@ private:
             std::ostringstream oss;
             const auto dot_index = value.Find(Def::FullStop);
 
-            if (dot_index != NPosition)
+            if (dot_index != NPosition && spec.precision >= 0)
             {
-                oss << value.Substring(0, dot_index + 1).str();
+                oss << value.Substring(0, dot_index).str();
 
                 if (spec.precision > 0)
                 {
+                    oss << Def::FullStop;
                     const SizeType limit = dot_index + 1 + spec.precision;
                     SizeType index = dot_index + 1;
 
-- 
2.43.0


From 48dde194d9abfa3a678991cf220f893d64675485 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:20 +0000
Subject: [PATCH 12/71] fix: repeating a text zero times gives the empty text

---
 include/Caitlyn/__Core/String/Utility.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/String/Utility.h b/include/Caitlyn/__Core/String/Utility.h
index 1533432..bce120e 100644
--- a/include/Caitlyn/__Core/String/Utility.h
+++ b/include/Caitlyn/__Core/String/Utility.h
@@ -42,7 +42,7 @@ inline std::vector<std::string> Split(const std::string& text, const char delim)
 
 inline std::string Repeat(const std::string& str, const size_t count)
 {
-    if (count < 2)
+    if (count == 1)
     {
         return str;
     }
-- 
2.43.0


From ad3340fb02b6a683bbd6635b95ed101c8df68d77 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:20 +0000
Subject: [PATCH 13/71] fix: FindLastNonSpace considers the first character

---
 include/Caitlyn/__Core/String/Utility.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Core/String/Utility.h b/include/Caitlyn/__Core/String/Utility.h
index bce120e..8d0b8c9 100644
--- a/include/Caitlyn/__Core/String/Utility.h
+++ b/include/Caitlyn/__Core/String/Utility.h
@@ -166,11 +166,11 @@ inline size_t FindFirstNonSpace(const String& str)
 
 inline size_t FindLastNonSpace(const String& str)
 {
-    for (size_t i = str.size() - 1; i > 0; --i)
+    for (size_t i = str.size(); i > 0; --i)
     {
-        if (!IsSpace(str[i].GetCodePoint()))
+        if (!IsSpace(str[i - 1].GetCodePoint()))
         {
-            return i;
+            return i - 1;
         }
     }
     return str.size();
-- 
2.43.0


From 54537767c3f1ce7a33a902ff685c450fa3aaea54 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:20 +0000
Subject: [PATCH 14/71] fix: EscapeString keeps unknown escapes unchanged and
 decodes \u to the UTF-8 character

---
 include/Caitlyn/__Core/String/Utility.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Core/String/Utility.h b/include/Caitlyn/__Core/String/Utility.h
index 8d0b8c9..984f065 100644
--- a/include/Caitlyn/__Core/String/Utility.h
+++ b/include/Caitlyn/__Core/String/Utility.h
@@ -119,23 +119,25 @@ inline String EscapeString(const String& str)
             }
             else if (str[i + 1] == Def::LatinSmallLetterU)
             {
-                if (i + 5 < str.size())
+                const auto hex = str.Substring(i + 2, 4).str();
+                if (hex.size() == 4 && hex.find_first_not_of("0123456789abcdefABCDEF") == std::string::npos)
                 {
-                    auto hex = str.Substring(i + 2, 4).str();
                     // Convert the hexadecimal representation to a character
-                    oss << static_cast<char>(std::stoi(hex, nullptr, 16));
+                    oss << Char{static_cast<CodePoint>(std::stoul(hex, nullptr, 16))};
                     i += 5; // Skip the escaped sequence
                 }
                 else
                 {
                     // Incomplete escape sequence, handle it as an error
                     oss << Def::ReverseSolidus << str[i + 1];
+                    ++i;
                 }
             }
             else
             {
                 // Invalid escape sequence, handle it as an error
                 oss << Def::ReverseSolidus << str[i + 1];
+                ++i;
             }
         }
         else
-- 
2.43.0


From 9725d0371f1cd7dfce5c039d0de2bec106117e56 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:20 +0000
Subject: [PATCH 15/71] fix: appending to a copied StringBuilder no longer
 overwrites its text

---
 include/Caitlyn/__Core/String/StringBuilder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/String/StringBuilder.h b/include/Caitlyn/__Core/String/StringBuilder.h
index abd42e6..7b9737c 100644
--- a/include/Caitlyn/__Core/String/StringBuilder.h
+++ b/include/Caitlyn/__Core/String/StringBuilder.h
@@ -51,7 +51,7 @@ public:
         data_ << String::Format(str, std::forward<Args>(args)...);
     }
 
-    StringBuilder(const StringBuilder& other) : data_{other.data_.str()}
+    StringBuilder(const StringBuilder& other) : data_{other.data_.str(), std::ios_base::ate}
     {
     }
 
-- 
2.43.0


From d0a38fc0f444da8219725566393eb65fb12c9bcb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:20 +0000
Subject: [PATCH 16/71] fix: kmp finds the empty pattern in the empty text

---
 include/Caitlyn/__Core/String/Algorithms/Kmp.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Caitlyn/__Core/String/Algorithms/Kmp.h b/include/Caitlyn/__Core/String/Algorithms/Kmp.h
index daf313b..12098f5 100644
--- a/include/Caitlyn/__Core/String/Algorithms/Kmp.h
+++ b/include/Caitlyn/__Core/String/Algorithms/Kmp.h
@@ -51,6 +51,10 @@ inline bool kmp(const std::string& pattern, const std::string& text)
     const size_t pattern_size = pattern.size();
     const auto failure = __Detail::get_kmp_failure_vec(pattern);
 
+    if (pattern_size == 0)
+    {
+        return true;
+    }
     for (size_t i = 0, j = 0; i < text_size; ++i)
     {
         while (j != std::string::npos && pattern[j] != text[i])
-- 
2.43.0


From 6bcf0eab132d678f555efd6059fb287f2946ffeb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:05 +0000
Subject: [PATCH 17/71] fix: case mapping offsets of the Greek Extended block

---
 include/Caitlyn/__Core/Char/Utility.h | 62 +++++++++++++++++++--------
 1 file changed, 45 insertions(+), 17 deletions(-)

diff --git a/include/Caitlyn/__Core/Char/Utility.h b/include/Caitlyn/__Core/Char/Utility.h
index 8e8b51a..2b95baf 100644
--- a/include/Caitlyn/__Core/Char/Utility.h
+++ b/include/Caitlyn/__Core/Char/Utility.h
@@ -167,51 +167,67 @@ inline CodePoint ToUppercase(const CodePoint codePoint)
     // Additional
     if (codePoint >= 0x1F00 && codePoint <= 0x1F07)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F10 && codePoint <= 0x1F15)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F20 && codePoint <= 0x1F27)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F30 && codePoint <= 0x1F37)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F40 && codePoint <= 0x1F45)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F60 && codePoint <= 0x1F67)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F70 && codePoint <= 0x1F71)
     {
-        return codePoint + 0x56;
+        return codePoint + 0x4A;
     }
     if (codePoint >= 0x1F72 && codePoint <= 0x1F75)
     {
-        return codePoint + 0x64;
+        return codePoint + 0x56;
     }
     if (codePoint >= 0x1F76 && codePoint <= 0x1F77)
     {
-        return codePoint + 0x80;
+        return codePoint + 0x64;
     }
     if (codePoint >= 0x1F78 && codePoint <= 0x1F79)
     {
-        return codePoint + 0x7E;
+        return codePoint + 0x80;
     }
     if (codePoint >= 0x1F7A && codePoint <= 0x1F7B)
     {
-        return codePoint + 0x7C;
+        return codePoint + 0x70;
     }
     if (codePoint >= 0x1F7C && codePoint <= 0x1F7D)
     {
-        return codePoint + 0x7A;
+        return codePoint + 0x7E;
+    }
+    if (codePoint >= 0x1FB0 && codePoint <= 0x1FB1)
+    {
+        return codePoint + 0x08;
+    }
+    if (codePoint >= 0x1FD0 && codePoint <= 0x1FD1)
+    {
+        return codePoint + 0x08;
+    }
+    if (codePoint >= 0x1FE0 && codePoint <= 0x1FE1)
+    {
+        return codePoint + 0x08;
+    }
+    if (codePoint == 0x1FE5)
+    {
+        return codePoint + 0x07;
     }
     // Ranges for Latin characters with diacritics
     if (codePoint >= 0x0100 && codePoint <= 0x012F)
@@ -311,27 +327,39 @@ inline CodePoint ToLowercase(const CodePoint codePoint)
     }
     if (codePoint >= 0x1FBA && codePoint <= 0x1FBB)
     {
-        return codePoint - 0x08;
+        return codePoint - 0x4A;
     }
     if (codePoint >= 0x1FC8 && codePoint <= 0x1FCB)
     {
-        return codePoint - 0x08;
+        return codePoint - 0x56;
     }
     if (codePoint >= 0x1FD8 && codePoint <= 0x1FD9)
     {
         return codePoint - 0x08;
     }
+    if (codePoint >= 0x1FDA && codePoint <= 0x1FDB)
+    {
+        return codePoint - 0x64;
+    }
     if (codePoint >= 0x1FE8 && codePoint <= 0x1FE9)
     {
         return codePoint - 0x08;
     }
     if (codePoint >= 0x1FEA && codePoint <= 0x1FEB)
     {
-        return codePoint - 0x08;
+        return codePoint - 0x70;
     }
-    if (codePoint >= 0x1FEC)
+    if (codePoint == 0x1FEC)
     {
-        return codePoint - 0x08;
+        return codePoint - 0x07;
+    }
+    if (codePoint >= 0x1FF8 && codePoint <= 0x1FF9)
+    {
+        return codePoint - 0x80;
+    }
+    if (codePoint >= 0x1FFA && codePoint <= 0x1FFB)
+    {
+        return codePoint - 0x7E;
     }
     // Ranges for Latin characters with diacritics
     if (codePoint >= 0x0100 && codePoint <= 0x012F)
-- 
2.43.0


From 3eb76086bad6359672a2238ef499ecab42b5e444 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:05 +0000
Subject: [PATCH 18/71] fix: case of the Latin letters U+0139..U+0148 was
 inverted

---
 include/Caitlyn/__Core/Char/Utility.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Char/Utility.h b/include/Caitlyn/__Core/Char/Utility.h
index 2b95baf..55d6ad9 100644
--- a/include/Caitlyn/__Core/Char/Utility.h
+++ b/include/Caitlyn/__Core/Char/Utility.h
@@ -248,7 +248,7 @@ inline CodePoint ToUppercase(const CodePoint codePoint)
     }
     if (codePoint >= 0x0139 && codePoint <= 0x0148)
     {
-        if (codePoint % 2 == 0)
+        if (codePoint % 2 != 0)
         {
             return codePoint;
         }
@@ -380,7 +380,7 @@ inline CodePoint ToLowercase(const CodePoint codePoint)
     }
     if (codePoint >= 0x0139 && codePoint <= 0x0148)
     {
-        if (codePoint % 2 != 0)
+        if (codePoint % 2 == 0)
         {
             return codePoint;
         }
-- 
2.43.0


From cb7cf7a290b1a5119b64b0995aab1be519cd440d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:51 +0000
Subject: [PATCH 19/71] fix: SharedPtr destroys its object with the last owner,
 and empty pointers can be copied and assigned to

---
 include/Caitlyn/__Core/Memory/Types/SharedPointer.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index e7160ec..e532c95 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -43,7 +43,10 @@ public:
 
     SharedPtr(const SharedPtr& other) : data_{other.data_}, ref_count_{other.ref_count_}
     {
-        ref_count_->fetch_add(1, std::memory_order_relaxed);
+        if (ref_count_)
+        {
+            ref_count_->fetch_add(1, std::memory_order_relaxed);
+        }
     }
 
     SharedPtr(SharedPtr&& other) noexcept : data_{other.data_}, ref_count_{other.ref_count_}
@@ -60,7 +63,7 @@ public:
 public:
     SharedPtr& operator=(Pointer data)
     {
-        reset(data);
+        Reset(data);
         return *this;
     }
 
@@ -152,7 +155,7 @@ public:
 private:
     void Release() const
     {
-        if (ref_count_ && ref_count_->fetch_sub(1, std::memory_order_relaxed) == 0)
+        if (ref_count_ && ref_count_->fetch_sub(1, std::memory_order_acq_rel) == 1)
         {
             delete data_;
             delete ref_count_;
-- 
2.43.0


From 83b976fd744e7c37273fb6d8ed674cf32adc0988 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:51 +0000
Subject: [PATCH 20/71] fix: a SharedPtr can be assigned from a pointer inside
 the object it releases

---
 .../Caitlyn/__Core/Memory/Types/SharedPointer.h   | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index e532c95..86aed90 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -71,9 +71,11 @@ public:
     {
         if (this != &other)
         {
+            // Releasing may destroy other
+            const SharedPtr copy{other};
             Release();
-            data_ = other.data_;
-            ref_count_ = other.ref_count_;
+            data_ = copy.data_;
+            ref_count_ = copy.ref_count_;
             if (ref_count_)
             {
                 ref_count_->fetch_add(1);
@@ -86,11 +88,14 @@ public:
     {
         if (this != &other)
         {
-            Release();
-            data_ = other.data_;
-            ref_count_ = other.ref_count_;
+            // Releasing may destroy other
+            const Pointer data = other.data_;
+            Counter* const ref_count = other.ref_count_;
             other.data_ = nullptr;
             other.ref_count_ = nullptr;
+            Release();
+            data_ = data;
+            ref_count_ = ref_count;
         }
         return *this;
     }
-- 
2.43.0


From 329a24c7533cae719bd6fa82ad389a9a8cf1207a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:52 +0000
Subject: [PATCH 21/71] fix: UniquePtr assignment from a pointer and Release
 compile

---
 include/Caitlyn/__Core/Memory/Types/UniquePointer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
index ba2d065..2777572 100644
--- a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
@@ -18,6 +18,8 @@
 #ifndef CAITLYN_CORE_MEMORY_TYPES_UNIQUEPOINTER_H
 #define CAITLYN_CORE_MEMORY_TYPES_UNIQUEPOINTER_H
 
+#include <stdexcept>
+
 #include "Caitlyn/__Base.h"
 
 __CAITLYN_GLOBAL_NAMESPACE_BEGIN
@@ -53,7 +55,7 @@ public:
 public:
     UniquePtr& operator=(Pointer data)
     {
-        reset(data);
+        Reset(data);
         return *this;
     }
 
@@ -126,7 +128,7 @@ public:
 
     Pointer Release()
     {
-        ConstPointer tmp = data_;
+        const Pointer tmp = data_;
         data_ = nullptr;
         return tmp;
     }
-- 
2.43.0


From 3926798319df0c44ac446d896cd5d9c2cfde9915 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:52 +0000
Subject: [PATCH 22/71] fix: a UniquePtr can be assigned from a pointer inside
 the object it deletes

---
 include/Caitlyn/__Core/Memory/Types/UniquePointer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
index 2777572..2fbeee3 100644
--- a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
@@ -63,9 +63,11 @@ public:
     {
         if (this != &other)
         {
-            delete data_;
+            // Deleting may destroy other
+            const Pointer old_data = data_;
             data_ = other.data_;
             other.data_ = nullptr;
+            delete old_data;
         }
         return *this;
     }
-- 
2.43.0


From ddc66e8310e4d7ea272316e48ee6e178a6b01e4c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:52 +0000
Subject: [PATCH 23/71] fix: resetting a Ptr to the pointer it holds keeps the
 object

---
 include/Caitlyn/__Core/Memory/Types/RawPointer.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/RawPointer.h b/include/Caitlyn/__Core/Memory/Types/RawPointer.h
index a79d64d..ef17765 100644
--- a/include/Caitlyn/__Core/Memory/Types/RawPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/RawPointer.h
@@ -105,8 +105,11 @@ public:
 public:
     void Reset(Pointer new_data = nullptr)
     {
-        delete data_;
-        data_ = new_data;
+        if (data_ != new_data)
+        {
+            delete data_;
+            data_ = new_data;
+        }
     }
 
     void Destroy()
-- 
2.43.0


From 8d95773ef6159f81efae218ba33454c24f94171d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:43 +0000
Subject: [PATCH 24/71] fix: public headers compile on case-sensitive file
 systems

---
 include/Caitlyn/__Caitlyn.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Caitlyn.h b/include/Caitlyn/__Caitlyn.h
index 754ffb6..2ebaa2c 100644
--- a/include/Caitlyn/__Caitlyn.h
+++ b/include/Caitlyn/__Caitlyn.h
@@ -18,6 +18,6 @@
 #ifndef CAITLYN_CAITLYN_H_
 #define CAITLYN_CAITLYN_H_
 
-#include "caitlyn/__caitlyn/application.h"
+#include "Caitlyn/__Caitlyn/Application.h"
 
 #endif // CAITLYN_CAITLYN_H_
-- 
2.43.0


From 10df51d057c73eeea42c6381ed325ee7f549c103 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:43 +0000
Subject: [PATCH 25/71] fix: public headers can be included in several sources
 of one program

---
 include/Caitlyn/__Caitlyn/Application.h | 28 ++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/include/Caitlyn/__Caitlyn/Application.h b/include/Caitlyn/__Caitlyn/Application.h
index aa3100c..686b46c 100644
--- a/include/Caitlyn/__Caitlyn/Application.h
+++ b/include/Caitlyn/__Caitlyn/Application.h
@@ -28,8 +28,28 @@
 
 __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 
-class Application
+__CAITLYN_DETAIL_NAMESPACE_BEGIN
+
+// Static members of a class template may be defined in a header that several sources include
+template <typename T>
+struct ApplicationState
+{
+    static T* application_;
+    static bool initialized_;
+};
+
+template <typename T>
+T* ApplicationState<T>::application_ = new T();
+
+template <typename T>
+bool ApplicationState<T>::initialized_ = false;
+
+__CAITLYN_DETAIL_NAMESPACE_END
+
+class Application : private __Detail::ApplicationState<Application>
 {
+    friend struct __Detail::ApplicationState<Application>;
+
 public:
     static const Application* Initialise()
     {
@@ -117,18 +137,12 @@ private:
     }
 
 private:
-    static Application* application_;
-    static bool initialized_;
-
     const char* lib_version_;
     const char* system_name_;
     const char* compiler_;
     std::vector<const char*> args_{};
 };
 
-Application* Application::application_ = new Application();
-bool Application::initialized_ = false;
-
 __CAITLYN_GLOBAL_NAMESPACE_END
 
 #endif // CAITLYN_APPLICATION_H_
-- 
2.43.0


From 20279ab5ed9bb4727ed76e8353eeb9608cade18a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:43 +0000
Subject: [PATCH 26/71] fix: a WeakPtr does not keep its object alive

---
 .../__Core/Memory/Types/SharedPointer.h       | 33 +++++++--
 .../Caitlyn/__Core/Memory/Types/WeakPointer.h | 73 ++++++++++++++-----
 2 files changed, 82 insertions(+), 24 deletions(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index 86aed90..ca5cc17 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -25,19 +25,30 @@
 
 __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 
+template <typename T>
+class WeakPtr;
+
 template <typename T>
 class SharedPtr
 {
+    friend class WeakPtr<T>;
+
 public:
     using ValueType = T;
     using Pointer = T*;
     using Reference = T&;
-    using Counter = std::atomic_size_t;
+
+    // Owners of the object; observers of the counter, all owners together being one of them
+    struct Counter
+    {
+        std::atomic_size_t strong{1};
+        std::atomic_size_t weak{1};
+    };
 
 public:
     SharedPtr() = default;
 
-    SharedPtr(Pointer data) : data_{data}, ref_count_{data ? new Counter(1) : nullptr}
+    SharedPtr(Pointer data) : data_{data}, ref_count_{data ? new Counter() : nullptr}
     {
     }
 
@@ -45,7 +56,7 @@ public:
     {
         if (ref_count_)
         {
-            ref_count_->fetch_add(1, std::memory_order_relaxed);
+            ref_count_->strong.fetch_add(1, std::memory_order_relaxed);
         }
     }
 
@@ -78,7 +89,7 @@ public:
             ref_count_ = copy.ref_count_;
             if (ref_count_)
             {
-                ref_count_->fetch_add(1);
+                ref_count_->strong.fetch_add(1);
             }
         }
         return *this;
@@ -153,17 +164,25 @@ public:
         {
             Release();
             data_ = data;
-            ref_count_ = data ? new Counter(1) : nullptr;
+            ref_count_ = data ? new Counter() : nullptr;
         }
     }
 
 private:
     void Release() const
     {
-        if (ref_count_ && ref_count_->fetch_sub(1, std::memory_order_acq_rel) == 1)
+        if (ref_count_ && ref_count_->strong.fetch_sub(1, std::memory_order_acq_rel) == 1)
         {
             delete data_;
-            delete ref_count_;
+            ReleaseWeak(ref_count_);
+        }
+    }
+
+    static void ReleaseWeak(Counter* ref_count)
+    {
+        if (ref_count && ref_count->weak.fetch_sub(1, std::memory_order_acq_rel) == 1)
+        {
+            delete ref_count;
         }
     }
 
diff --git a/include/Caitlyn/__Core/Memory/Types/WeakPointer.h b/include/Caitlyn/__Core/Memory/Types/WeakPointer.h
index ba06cc9..12ca9a1 100644
--- a/include/Caitlyn/__Core/Memory/Types/WeakPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/WeakPointer.h
@@ -18,6 +18,8 @@
 #ifndef CAITLYN_CORE_MEMORY_TYPES_WEAKPOINTER_H
 #define CAITLYN_CORE_MEMORY_TYPES_WEAKPOINTER_H
 
+#include <utility>
+
 #include "Caitlyn/__Core/Memory/Types/SharedPointer.h"
 
 __CAITLYN_GLOBAL_NAMESPACE_BEGIN
@@ -30,47 +32,58 @@ public:
     using Pointer = T*;
     using Reference = T&;
     using Resource = SharedPtr<T>;
+    using Counter = typename Resource::Counter;
 
 public:
-    WeakPtr() : data_(nullptr)
+    WeakPtr() = default;
+
+    WeakPtr(const Resource& resource) : data_{resource.data_}, ref_count_{resource.ref_count_}
     {
+        Retain();
     }
 
-    WeakPtr(const Resource& resource) : data_{resource}
+    WeakPtr(const WeakPtr& other) : data_{other.data_}, ref_count_{other.ref_count_}
     {
+        Retain();
     }
 
-    WeakPtr(const WeakPtr& other) : data_{other.data_}
+    WeakPtr(WeakPtr&& other) noexcept : data_{other.data_}, ref_count_{other.ref_count_}
     {
+        other.data_ = nullptr;
+        other.ref_count_ = nullptr;
     }
 
-    WeakPtr(WeakPtr&& other) noexcept : data_{std::move(other.data_)}
+    ~WeakPtr()
     {
+        Resource::ReleaseWeak(ref_count_);
     }
 
 public:
     WeakPtr& operator=(const WeakPtr& other)
     {
-        data_ = other.data_;
+        WeakPtr copy{other};
+        Swap(copy);
         return *this;
     }
 
     WeakPtr& operator=(const Resource& sp)
     {
-        this->data_ = sp;
+        WeakPtr copy{sp};
+        Swap(copy);
         return *this;
     }
 
     WeakPtr& operator=(WeakPtr&& other) noexcept
     {
-        data_ = std::move(other.data_);
+        WeakPtr moved{std::move(other)};
+        Swap(moved);
         return *this;
     }
 
 public:
     Reference operator*() const
     {
-        if (data_ == nullptr || !data_.Get())
+        if (expired())
         {
             throw std::runtime_error{"Dereferencing null or expired weak pointer."};
         }
@@ -79,11 +92,11 @@ public:
 
     Pointer operator->() const
     {
-        if (data_ == nullptr || !data_.Get())
+        if (expired())
         {
             throw std::runtime_error{"Dereferencing null or expired weak pointer."};
         }
-        return data_.Get();
+        return data_;
     }
 
 public:
@@ -99,32 +112,58 @@ public:
 
     bool operator==(NullPtr) const
     {
-        return data_ == nullptr;
+        return expired();
     }
 
     bool operator!=(NullPtr) const
     {
-        return data_ != nullptr;
+        return !expired();
     }
 
 public:
     Resource lock() const
     {
-        if (data_ == nullptr || !data_.Get())
+        Resource resource;
+        if (ref_count_)
         {
-            return Resource();
+            SizeType owners = ref_count_->strong.load(std::memory_order_relaxed);
+            while (owners != 0)
+            {
+                if (ref_count_->strong.compare_exchange_weak(owners, owners + 1, std::memory_order_acq_rel))
+                {
+                    resource.data_ = data_;
+                    resource.ref_count_ = ref_count_;
+                    break;
+                }
+            }
         }
-        return data_;
+        return resource;
     }
 
 public:
     bool expired() const
     {
-        return data_ == nullptr || !data_.Get();
+        return ref_count_ == nullptr || ref_count_->strong.load(std::memory_order_acquire) == 0;
+    }
+
+private:
+    void Retain() const
+    {
+        if (ref_count_)
+        {
+            ref_count_->weak.fetch_add(1, std::memory_order_relaxed);
+        }
+    }
+
+    void Swap(WeakPtr& other) noexcept
+    {
+        std::swap(data_, other.data_);
+        std::swap(ref_count_, other.ref_count_);
     }
 
 private:
-    Resource data_;
+    Pointer data_{};
+    Counter* ref_count_{};
 };
 
 __CAITLYN_GLOBAL_NAMESPACE_END
-- 
2.43.0


From efc6d0ef5dba661141ab2079d72626956bed08d4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:03 +0000
Subject: [PATCH 27/71] fix: cmp_ne, cmp_greater, cmp_le and cmp_ge call
 functions that exist

---
 include/Caitlyn/__Core/Utility/Comparators.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Core/Utility/Comparators.h b/include/Caitlyn/__Core/Utility/Comparators.h
index 4fbff51..e85b205 100644
--- a/include/Caitlyn/__Core/Utility/Comparators.h
+++ b/include/Caitlyn/__Core/Utility/Comparators.h
@@ -18,6 +18,8 @@
 #ifndef CAITLYN_CORE_UTILITY_COMPARATORS_H_
 #define CAITLYN_CORE_UTILITY_COMPARATORS_H_
 
+#include <type_traits>
+
 #include "Caitlyn/__Base.h"
 
 __CAITLYN_GLOBAL_NAMESPACE_BEGIN
@@ -42,7 +44,7 @@ bool cmp_eq(T t, U u) noexcept
 template <typename T, typename U>
 constexpr bool cmp_ne(T t, U u) noexcept
 {
-    return !compare_equal(t, u);
+    return !cmp_eq(t, u);
 }
 
 template <typename T, typename U>
@@ -65,19 +67,19 @@ bool cmp_less(T t, U u) noexcept
 template <typename T, typename U>
 constexpr bool cmp_greater(T t, U u) noexcept
 {
-    return compare_less(u, t);
+    return cmp_less(u, t);
 }
 
 template <typename T, typename U>
 constexpr bool cmp_le(T t, U u) noexcept
 {
-    return !compare_greater(t, u);
+    return !cmp_greater(t, u);
 }
 
 template <typename T, typename U>
 constexpr bool cmp_ge(T t, U u) noexcept
 {
-    return !compare_less(t, u);
+    return !cmp_less(t, u);
 }
 
 __CAITLYN_GLOBAL_NAMESPACE_END
-- 
2.43.0


From f14482f259f681632cd0c6b0789b9e55288f9c2d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:14 +0000
Subject: [PATCH 28/71] fix: Expected::UnwrapOrDefault compiles

---
 include/Caitlyn/__Core/Error/Expected.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Error/Expected.h b/include/Caitlyn/__Core/Error/Expected.h
index a37d5cd..a5792c5 100644
--- a/include/Caitlyn/__Core/Error/Expected.h
+++ b/include/Caitlyn/__Core/Error/Expected.h
@@ -220,12 +220,12 @@ public:
     const ValueType& UnwrapOrDefault() const
     {
         static ValueType default_value{};
-        return unwrap_or(default_value);
+        return UnwrapOrDefault(default_value);
     }
 
     const ValueType& UnwrapOrDefault(const ValueType& default_value) const
     {
-        return unwrap_or(default_value);
+        return hasValue_ ? data_.value : default_value;
     }
 
     const ValueType& Expect(const String& message) const
-- 
2.43.0


From 62309ab1d3869ad8d667211edeabf87fabad258d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:14 +0000
Subject: [PATCH 29/71] fix: Expected::Filter compiles and keeps the error of
 an error result

---
 include/Caitlyn/__Core/Error/Expected.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Error/Expected.h b/include/Caitlyn/__Core/Error/Expected.h
index a5792c5..ab19901 100644
--- a/include/Caitlyn/__Core/Error/Expected.h
+++ b/include/Caitlyn/__Core/Error/Expected.h
@@ -250,11 +250,11 @@ public:
     template <typename Func>
     auto Filter(Func func) const -> Expected
     {
-        if (hasValue_ && func(data_.value))
+        if (!hasValue_ || func(data_.value))
         {
             return *this;
         }
-        return result_t(Unexpected<ErrorType>{});
+        return Expected{Unexpected<ErrorType>{ErrorType{}}};
     }
 
     template <typename U, typename Func>
-- 
2.43.0


From 993b09e4a0147a232bfd0c6824625d2bc2dca760 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:14 +0000
Subject: [PATCH 30/71] fix: Expected::MapError to another error type compiles

---
 include/Caitlyn/__Core/Error/Expected.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Error/Expected.h b/include/Caitlyn/__Core/Error/Expected.h
index ab19901..4462f49 100644
--- a/include/Caitlyn/__Core/Error/Expected.h
+++ b/include/Caitlyn/__Core/Error/Expected.h
@@ -174,7 +174,7 @@ public:
         {
             return Expected<ValueType, result_error_type>(Unexpected<result_error_type>(func(data_.error.Get())));
         }
-        return *this;
+        return Expected<ValueType, result_error_type>(data_.value);
     }
 
     template <typename Func>
-- 
2.43.0


From 392a581dd6ab90a2d4d371b95f81468684e01ce6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:14 +0000
Subject: [PATCH 31/71] fix: Expected keeps its content when an assignment
 throws

---
 include/Caitlyn/__Core/Error/Expected.h | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/include/Caitlyn/__Core/Error/Expected.h b/include/Caitlyn/__Core/Error/Expected.h
index 4462f49..4104839 100644
--- a/include/Caitlyn/__Core/Error/Expected.h
+++ b/include/Caitlyn/__Core/Error/Expected.h
@@ -71,16 +71,8 @@ public:
     {
         if (this != &other)
         {
-            DestroyUnion();
-            hasValue_ = other.hasValue_;
-            if (hasValue_)
-            {
-                new (&data_.value) ValueType{other.data_.value};
-            }
-            else
-            {
-                new (&data_.error) Unexpected<ErrorType>{other.data_.error};
-            }
+            // Copying may throw: nothing is destroyed before it is done
+            *this = Expected{other};
         }
         return *this;
     }
-- 
2.43.0


From be6cac34253e72c69d9645ba262f4b0d90bd4744 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:14 +0000
Subject: [PATCH 32/71] fix: opening a File again does not break its stream

---
 include/Caitlyn/__Core/File/File.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index 21c18a9..89f966d 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -60,6 +60,7 @@ public:
         {
             throw std::ios_base::failure{"Filename is empty"};
         }
+        Close();
         file_.open(GetFilename(), std::ios::in | std::ios::out | std::ios::app | std::ios::binary);
         if (!file_.is_open())
         {
-- 
2.43.0


From 0703d5d9d6c9f1190c8cc7bc0ab2fe666602520f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:14 +0000
Subject: [PATCH 33/71] fix: File::Read returns exactly the content, also of an
 empty file and after the end was reached

---
 include/Caitlyn/__Core/File/File.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index 89f966d..110fd9c 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -122,6 +122,7 @@ public:
         {
             Open();
         }
+        file_.clear();
         file_.seekg(0, std::ios::end);
         const std::streamsize size = file_.tellg();
         file_.seekg(0, std::ios::beg);
@@ -129,7 +130,7 @@ public:
         std::vector<char> buffer(size);
         if (file_.read(buffer.data(), size))
         {
-            return buffer.data();
+            return std::basic_string<char>(buffer.data(), buffer.size());
         }
         return {};
     }
-- 
2.43.0


From 6832ee6aa9af740fe8c59bcfd791edb5ea64828d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:14 +0000
Subject: [PATCH 34/71] fix: a File that was read to its end can be written and
 read further

---
 include/Caitlyn/__Core/File/File.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index 110fd9c..f2976ef 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -66,6 +66,7 @@ public:
         {
             throw std::ios_base::failure{"Failed to open file for writing."};
         }
+        eof_ = false;
     }
 
     void Close()
@@ -90,17 +91,18 @@ public:
 
     bool IsEof() const
     {
-        return file_.eof();
+        return eof_;
     }
 
     explicit operator bool() const noexcept
     {
-        return !file_.eof();
+        return !eof_;
     }
 
     void SetPosition(const std::streampos& position)
     {
         currentPosition_ = position;
+        eof_ = false;
         file_.clear();
         file_.seekg(currentPosition_, std::ios::beg);
         if (file_.fail())
@@ -141,16 +143,13 @@ public:
         {
             Open();
         }
-        if (file_.eof())
-        {
-            return {};
-        }
         if (file_.fail() || file_.bad())
         {
             throw std::ios_base::failure{"Stream error encountered before reading."};
         }
         file_.clear();
         file_.seekg(currentPosition_, std::ios::beg);
+        eof_ = false;
 
         std::ostringstream result;
         char ch;
@@ -165,6 +164,9 @@ public:
         }
         if (file_.eof())
         {
+            // The stream stays usable for writing
+            file_.clear();
+            eof_ = true;
             currentPosition_ = file_.tellg();
             return result.str();
         }
@@ -453,6 +455,7 @@ private:
     String filename_;
     std::basic_fstream<char> file_;
     std::streampos currentPosition_{};
+    bool eof_{};
 };
 
 inline File MakeFile(const String& filename)
-- 
2.43.0


From f6a9e0f804dbadd6c73ded08f88a72f47e0b8b4a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:14 +0000
Subject: [PATCH 35/71] fix: File::Erase restarts reading at the beginning

---
 include/Caitlyn/__Core/File/File.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index f2976ef..95848ee 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -87,6 +87,7 @@ public:
         }
         clearFile.close();
         Open();
+        currentPosition_ = 0;
     }
 
     bool IsEof() const
-- 
2.43.0


From a75977edc23b69f192d4409c9ba848078c691546 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:14 +0000
Subject: [PATCH 36/71] fix: InputStream::ReadChar on an empty line

---
 include/Caitlyn/__Core/IO/Stream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/IO/Stream.h b/include/Caitlyn/__Core/IO/Stream.h
index 7db32f4..b92e766 100644
--- a/include/Caitlyn/__Core/IO/Stream.h
+++ b/include/Caitlyn/__Core/IO/Stream.h
@@ -49,7 +49,8 @@ public:
 
     static Char ReadChar(const String& message = String::Empty())
     {
-        return ReadLine(message)[0];
+        const String line = ReadLine(message);
+        return line.IsEmpty() ? Char{} : line[0];
     }
 
     template <typename... Args>
-- 
2.43.0


From 60b12bbb83576261a58abd79436e6d8b790ad9ee Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:14 +0000
Subject: [PATCH 37/71] fix: every run of the test registry counts its own
 results

---
 include/Caitlyn/__Testing/Types/TestRegistry.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/Caitlyn/__Testing/Types/TestRegistry.h b/include/Caitlyn/__Testing/Types/TestRegistry.h
index fc2c323..0b4251f 100644
--- a/include/Caitlyn/__Testing/Types/TestRegistry.h
+++ b/include/Caitlyn/__Testing/Types/TestRegistry.h
@@ -54,6 +54,8 @@ public:
     {
         LogStart();
 
+        passed_ = 0;
+        failed_ = 0;
         startGlobalTime_ = std::chrono::steady_clock::now();
 
         for (auto& suite : tests_)
-- 
2.43.0


From 8f658be36eda0d3f427f418c18f300b88dd0327b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:14 +0000
Subject: [PATCH 38/71] fix: a test failing with a message that is not UTF-8
 does not end the run

---
 include/Caitlyn/__Testing/Types/TestRegistry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Testing/Types/TestRegistry.h b/include/Caitlyn/__Testing/Types/TestRegistry.h
index 0b4251f..5d28bc2 100644
--- a/include/Caitlyn/__Testing/Types/TestRegistry.h
+++ b/include/Caitlyn/__Testing/Types/TestRegistry.h
@@ -140,7 +140,7 @@ private:
         }
     }
 
-    void LogTestFailure(const TestCase& test, const String& message) const
+    void LogTestFailure(const TestCase& test, const char* message) const
     {
         std::cout << "[     FAIL ] " << test.suite_name << '.' << test.test_name << " (" << localDiff_.count()
                   << " ms)\n"
-- 
2.43.0


From 9006f46c63b7269c48c654e015c3d2c315dfbc85 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:14 +0000
Subject: [PATCH 39/71] fix: ASSERT_STREQ fails the test instead of ending the
 process

---
 include/Caitlyn/__Testing/Macro/Assert.h | 27 +++++++++++-------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/include/Caitlyn/__Testing/Macro/Assert.h b/include/Caitlyn/__Testing/Macro/Assert.h
index a386cd8..c25ed3d 100644
--- a/include/Caitlyn/__Testing/Macro/Assert.h
+++ b/include/Caitlyn/__Testing/Macro/Assert.h
@@ -18,6 +18,8 @@
 #ifndef CAITLYN_TEST_MACRO_ASSERT_H_
 #define CAITLYN_TEST_MACRO_ASSERT_H_
 
+#include <cstring>
+
 #include "Caitlyn/__Core/Traits.h"
 #include "Caitlyn/__Testing/Types.h"
 
@@ -93,25 +95,20 @@
 #define ASSERT_STREQ(expected, actual)                                                                                 \
     do                                                                                                                 \
     {                                                                                                                  \
-        if ((expected) == nullptr && (actual) == nullptr)                                                              \
+        const char* const caitlyn_expected = (expected);                                                               \
+        const char* const caitlyn_actual = (actual);                                                                   \
+        if (caitlyn_expected == nullptr && caitlyn_actual == nullptr)                                                  \
         {                                                                                                              \
             break;                                                                                                     \
         }                                                                                                              \
-        else if ((expected) == nullptr)                                                                                \
-        {                                                                                                              \
-            std::cerr << "Assertion failed: Expected nullptr, but got \"" << (actual) << "\"" << std::endl;            \
-            std::abort();                                                                                              \
-        }                                                                                                              \
-        else if ((actual) == nullptr)                                                                                  \
-        {                                                                                                              \
-            std::cerr << "Assertion failed: Expected \"" << (expected) << "\", but got nullptr" << std::endl;          \
-            std::abort();                                                                                              \
-        }                                                                                                              \
-        else if (std::strcmp((expected), (actual)) != 0)                                                               \
+        if (caitlyn_expected == nullptr || caitlyn_actual == nullptr ||                                                \
+            std::strcmp(caitlyn_expected, caitlyn_actual) != 0)                                                        \
         {                                                                                                              \
-            std::cerr << "Assertion failed: Expected \"" << (expected) << "\", but got \"" << (actual) << "\""         \
-                      << std::endl;                                                                                    \
-            std::abort();                                                                                              \
+            std::ostringstream oss;                                                                                    \
+            oss << "Assertion failed: " #expected " == " #actual << " (\""                                             \
+                << (caitlyn_expected ? caitlyn_expected : "nullptr") << "\" != \""                                     \
+                << (caitlyn_actual ? caitlyn_actual : "nullptr") << "\")";                                             \
+            throw std::runtime_error(oss.str());                                                                       \
         }                                                                                                              \
     }                                                                                                                  \
     while (false)
-- 
2.43.0


From 263890ad6b58dc040663bc52299002d244f2354b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:12 +0000
Subject: [PATCH 40/71] fix: BigFloat computes with signs, leading fractional
 zeros and different scales

---
 include/Caitlyn/__Numeric/Types/BigFloat.h | 236 +++++++--------------
 1 file changed, 82 insertions(+), 154 deletions(-)

diff --git a/include/Caitlyn/__Numeric/Types/BigFloat.h b/include/Caitlyn/__Numeric/Types/BigFloat.h
index 0d9027a..92e2bbc 100644
--- a/include/Caitlyn/__Numeric/Types/BigFloat.h
+++ b/include/Caitlyn/__Numeric/Types/BigFloat.h
@@ -54,17 +54,25 @@ public:
             String integer_str = number.Substring(0, point_pos);
             String fractional_str = number.Substring(point_pos + 1);
 
-            if (integer_str.IsEmpty())
+            if (integer_str.IsEmpty() || integer_str == "-" || integer_str == "+")
             {
-                integer_str = Def::DigitZero;
+                integer_str += Def::DigitZero;
             }
             if (fractional_str.IsEmpty())
             {
                 fractional_str = Def::DigitZero;
             }
+            if (fractional_str[0] == '-' || fractional_str[0] == '+')
+            {
+                throw std::invalid_argument{"Invalid number format"};
+            }
             integerPart_ = BigInteger{integer_str};
-            fractionalPart_ = BigInteger{fractional_str};
+            BigInteger{fractional_str}; // Refuses anything but digits
+            fractionalPart_ = fractional_str;
         }
+        isNegative_ = number[0] == '-';
+        integerPart_ = integerPart_.Abs();
+        Normalize();
     }
 
     BigFloat(const BigFloat& other) = default;
@@ -104,96 +112,27 @@ public:
 public:
     BigFloat Add(const BigFloat& other) const
     {
-        BigInteger this_fractional = fractionalPart_;
-        BigInteger other_fractional = other.fractionalPart_;
-
-        // Normalize fractional part lengths by adding leading zeros
-        while (this_fractional.Size() < other_fractional.Size())
-        {
-            this_fractional = this_fractional.Multiply(BigInteger{"10"});
-        }
-        while (other_fractional.Size() < this_fractional.Size())
-        {
-            other_fractional = other_fractional.Multiply(BigInteger{"10"});
-        }
-        BigInteger fractional_result = this_fractional.Add(other_fractional);
-        bool carry = false;
-
-        // If the result of fractional addition exceeds the fractional limit, carry
-        // over to integer part
-        if (fractional_result.Size() > this_fractional.Size())
-        {
-            carry = true;
-            fractional_result = fractional_result.Subtract(BigInteger{"10"}.Multiply(this_fractional.Size()));
-        }
-        BigInteger integer_result = integerPart_.Add(other.integerPart_);
-        if (carry)
-        {
-            integer_result = integer_result.Add(BigInteger{Def::DigitOne});
-        }
-        return BigFloat{integer_result.ToString() + Def::FullStop + fractional_result.ToString()};
+        const SizeType scale = std::max(fractionalPart_.size(), other.fractionalPart_.size());
+        return FromUnscaled(Unscaled(scale).Add(other.Unscaled(scale)), scale);
     }
 
     BigFloat Subtract(const BigFloat& other) const
     {
-        BigInteger this_fractional = fractionalPart_;
-        BigInteger other_fractional = other.fractionalPart_;
-
-        // Normalize fractional part lengths by adding leading zeros
-        while (this_fractional.Size() < other_fractional.Size())
-        {
-            this_fractional = this_fractional.Multiply(BigInteger{"10"});
-        }
-        while (other_fractional.Size() < this_fractional.Size())
-        {
-            other_fractional = other_fractional.Multiply(BigInteger{"10"});
-        }
-
-        bool borrow = false;
-        if (this_fractional.LessThan(other_fractional))
-        {
-            borrow = true;
-            this_fractional = this_fractional.Add(BigInteger{"10"}.Multiply(this_fractional.Size()));
-        }
-        const BigInteger fractional_result = this_fractional.Subtract(other_fractional);
-
-        BigInteger integer_result = integerPart_.Subtract(other.integerPart_);
-        if (borrow)
-        {
-            integer_result = integer_result.Subtract(BigInteger{"1"});
-        }
-        return BigFloat{integer_result.ToString() + "." + fractional_result.ToString()};
+        const SizeType scale = std::max(fractionalPart_.size(), other.fractionalPart_.size());
+        return FromUnscaled(Unscaled(scale).Subtract(other.Unscaled(scale)), scale);
     }
 
     BigFloat Multiply(const BigFloat& other) const
     {
-        // Convert both numbers to their full string representation without the
-        // decimal point
-        const String this_full = integerPart_.ToString() + fractionalPart_.ToString();
-        const String other_full = other.integerPart_.ToString() + other.fractionalPart_.ToString();
-
         // Count the number of digits after the decimal point in both numbers
-        const size_t this_frac_size = fractionalPart_.Size();
-        const size_t other_frac_size = other.fractionalPart_.Size();
+        const size_t this_frac_size = fractionalPart_.size();
+        const size_t other_frac_size = other.fractionalPart_.size();
 
-        // Perform the multiplication on the full strings
-        const BigInteger result_full = BigInteger{this_full}.Multiply(BigInteger{other_full});
+        // Perform the multiplication on the full numbers without the decimal point
+        const BigInteger result_full = Unscaled(this_frac_size).Multiply(other.Unscaled(other_frac_size));
 
         // The total number of fractional digits in the result
-        const size_t total_frac_size = this_frac_size + other_frac_size;
-
-        // Convert the result back to a string
-        String result_str = result_full.ToString();
-
-        // Insert the decimal point at the correct position
-        if (total_frac_size >= result_str.size())
-        {
-            result_str.Insert(0, String(total_frac_size - result_str.size() + 1, '0'));
-        }
-        result_str.Insert(result_str.size() - total_frac_size, 1, '.');
-
-        // Construct and return the BigFloat result
-        return BigFloat{result_str};
+        return FromUnscaled(result_full, this_frac_size + other_frac_size);
     }
 
     BigFloat Divide(const BigFloat& other) const
@@ -202,34 +141,15 @@ public:
         {
             throw std::invalid_argument{"Division by zero"};
         }
-        // Convert both numbers to their full string representation without the
-        // decimal point
-        const String this_full = integerPart_.ToString() + fractionalPart_.ToString();
-
-        const String other_full = other.integerPart_.ToString() + other.fractionalPart_.ToString();
-
         // Count the number of digits after the decimal point in both numbers
-        const size_t this_frac_size = fractionalPart_.Size();
-        const size_t other_frac_size = other.fractionalPart_.Size();
+        const size_t this_frac_size = std::max(fractionalPart_.size(), other.fractionalPart_.size());
+        const size_t other_frac_size = other.fractionalPart_.size();
 
-        // Perform the division on the full strings
-        const BigInteger result_full = BigInteger{this_full}.Divide(BigInteger{other_full});
+        // Perform the division on the full numbers without the decimal point
+        const BigInteger result_full = Unscaled(this_frac_size).Divide(other.Unscaled(other_frac_size));
 
         // The total number of fractional digits in the result
-        const size_t total_frac_size = this_frac_size - other_frac_size;
-
-        // Convert the result back to a string
-        String result_str = result_full.ToString();
-
-        // Insert the decimal point at the correct position
-        if (total_frac_size >= result_str.size())
-        {
-            result_str.Insert(0, String(total_frac_size - result_str.size() + 1, '0'));
-        }
-        result_str.Insert(result_str.size() - total_frac_size, 1, '.');
-
-        // Construct and return the BigFloat result
-        return BigFloat{result_str};
+        return FromUnscaled(result_full, this_frac_size - other_frac_size);
     }
 
 public:
@@ -272,61 +192,27 @@ public:
         {
             throw std::invalid_argument{"Square root of negative number"};
         }
-        if (this->Equal(BigFloat{"0"}) || this->Equal(BigFloat{"1"}))
-        {
-            return *this;
-        }
-        BigFloat low{"1"};
-        BigFloat high = *this;
-        BigFloat squared{};
-
-        while (low.LessThan(high) || low.Equal(high))
-        {
-            BigFloat mid = low.Add(high).Divide(BigFloat{"2"});
-            squared = mid.Sqr();
-            if (squared.Equal(*this))
-            {
-                return mid;
-            }
-            if (squared.LessThan(*this))
-            {
-                low = mid.Add(BigFloat{"1"});
-            }
-            else
-            {
-                high = mid.Subtract(BigFloat{"1"});
-            }
-        }
-        return high;
+        // The root is truncated to as many fractional digits as the operand has
+        const SizeType scale = fractionalPart_.size();
+        return FromUnscaled(Unscaled(2 * scale).Sqrt(), scale);
     }
 
 public:
     SizeType Size() const
     {
-        return integerPart_.Size() + fractionalPart_.Size();
+        return integerPart_.Size() + fractionalPart_.size();
     }
 
     bool Equal(const BigFloat& other) const
     {
-        return integerPart_.Equal(other.integerPart_) && fractionalPart_.Equal(other.fractionalPart_) &&
+        return integerPart_.Equal(other.integerPart_) && fractionalPart_ == other.fractionalPart_ &&
                isNegative_ == other.isNegative_;
     }
 
     bool LessThan(const BigFloat& other) const
     {
-        if (isNegative_ != other.isNegative_)
-        {
-            return isNegative_;
-        }
-        if (integerPart_.LessThan(other.integerPart_))
-        {
-            return true;
-        }
-        if (integerPart_.GreaterThan(other.integerPart_))
-        {
-            return false;
-        }
-        return fractionalPart_.LessThan(other.fractionalPart_);
+        const SizeType scale = std::max(fractionalPart_.size(), other.fractionalPart_.size());
+        return Unscaled(scale).LessThan(other.Unscaled(scale));
     }
 
     bool GreaterThan(const BigFloat& other) const
@@ -336,25 +222,67 @@ public:
 
     String ToString() const
     {
-        String result = integerPart_.ToString();
-        if (!fractionalPart_.ToString().IsEmpty() && fractionalPart_.ToString() != "0")
+        String result;
+        if (isNegative_)
+        {
+            result.PushBack('-');
+        }
+        result += integerPart_.ToString();
+        if (!fractionalPart_.IsEmpty())
         {
             result.PushBack('.');
-            result += fractionalPart_.ToString();
+            result += fractionalPart_;
         }
         return result;
     }
 
 private:
-    void RemoveLeadingZeros()
+    // The number times 10^scale, which has to be an integer
+    BigInteger Unscaled(const SizeType scale) const
     {
-        integerPart_.RemoveLeadingZeros();
-        fractionalPart_.RemoveLeadingZeros();
+        String digits = integerPart_.ToString() + fractionalPart_ + String(scale - fractionalPart_.size(), '0');
+        if (isNegative_)
+        {
+            digits.Insert(0, 1, '-');
+        }
+        return BigInteger{digits};
+    }
+
+    // The number divided by 10^scale
+    static BigFloat FromUnscaled(const BigInteger& number, const SizeType scale)
+    {
+        String result_str = number.Abs().ToString();
+
+        // Insert the decimal point at the correct position
+        if (scale >= result_str.size())
+        {
+            result_str.Insert(0, String(scale - result_str.size() + 1, '0'));
+        }
+        result_str.Insert(result_str.size() - scale, 1, '.');
+        if (number.LessThan(BigInteger{"0"}))
+        {
+            result_str.Insert(0, 1, '-');
+        }
+        return BigFloat{result_str};
+    }
+
+    void Normalize()
+    {
+        SizeType size = fractionalPart_.size();
+        while (size > 0 && fractionalPart_[size - 1] == '0')
+        {
+            --size;
+        }
+        fractionalPart_ = fractionalPart_.Substring(0, size);
+        if (fractionalPart_.IsEmpty() && integerPart_.Equal(BigInteger{"0"}))
+        {
+            isNegative_ = false;
+        }
     }
 
 private:
-    BigInteger integerPart_;
-    BigInteger fractionalPart_;
+    BigInteger integerPart_;  // Magnitude
+    String fractionalPart_;   // Digits after the point, without trailing zeros
     SignFlag isNegative_ = false;
 };
 
-- 
2.43.0


From 85da57185741a395fa97079c514ac572925ff978 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:01 +0000
Subject: [PATCH 41/71] fix: a String can be added to itself with +=

---
 include/Caitlyn/__Core/String/String.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 8896470..1d2f3c4 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -241,7 +241,8 @@ public:
 public:
     String& operator+=(const String& str)
     {
-        data_.insert(data_.end(), str.data_.begin(), str.data_.end());
+        const DataType temp_data = str.data_;
+        data_.insert(data_.end(), temp_data.begin(), temp_data.end());
         return *this;
     }
 
-- 
2.43.0


From a96f7c5e0aca40d30b5b17b8a1b571acc1768f28 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:43 +0000
Subject: [PATCH 42/71] fix: a SharedPtr can be reset by or inside the object
 it owns alone

---
 .../__Core/Memory/Types/SharedPointer.h       | 36 +++++++++----------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index ca5cc17..b84a850 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -20,6 +20,7 @@
 
 #include <atomic>
 #include <stdexcept>
+#include <utility>
 
 #include "Caitlyn/__Base.h"
 
@@ -82,15 +83,9 @@ public:
     {
         if (this != &other)
         {
-            // Releasing may destroy other
-            const SharedPtr copy{other};
-            Release();
-            data_ = copy.data_;
-            ref_count_ = copy.ref_count_;
-            if (ref_count_)
-            {
-                ref_count_->strong.fetch_add(1);
-            }
+            // Releasing may destroy other and this
+            SharedPtr copy{other};
+            Swap(copy);
         }
         return *this;
     }
@@ -99,14 +94,9 @@ public:
     {
         if (this != &other)
         {
-            // Releasing may destroy other
-            const Pointer data = other.data_;
-            Counter* const ref_count = other.ref_count_;
-            other.data_ = nullptr;
-            other.ref_count_ = nullptr;
-            Release();
-            data_ = data;
-            ref_count_ = ref_count;
+            // Releasing may destroy other and this
+            SharedPtr moved{std::move(other)};
+            Swap(moved);
         }
         return *this;
     }
@@ -162,13 +152,19 @@ public:
     {
         if (data_ != data)
         {
-            Release();
-            data_ = data;
-            ref_count_ = data ? new Counter() : nullptr;
+            // Releasing may destroy this
+            SharedPtr created{data};
+            Swap(created);
         }
     }
 
 private:
+    void Swap(SharedPtr& other) noexcept
+    {
+        std::swap(data_, other.data_);
+        std::swap(ref_count_, other.ref_count_);
+    }
+
     void Release() const
     {
         if (ref_count_ && ref_count_->strong.fetch_sub(1, std::memory_order_acq_rel) == 1)
-- 
2.43.0


From 7a39159da9b9944662ae66a4e2c92a97eeb209e5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:43 +0000
Subject: [PATCH 43/71] fix: a UniquePtr can be reset inside the object it owns

---
 include/Caitlyn/__Core/Memory/Types/UniquePointer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
index 2fbeee3..ece3281 100644
--- a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
@@ -123,8 +123,10 @@ public:
     {
         if (data_ != new_data)
         {
-            delete data_;
+            // Deleting may destroy this
+            const Pointer old_data = data_;
             data_ = new_data;
+            delete old_data;
         }
     }
 
-- 
2.43.0


From 304a1aba1857413d3f1a374de0c844166f6a62b1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:43 +0000
Subject: [PATCH 44/71] fix: a Ptr can be reset or destroyed inside its object

---
 include/Caitlyn/__Core/Memory/Types/RawPointer.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/RawPointer.h b/include/Caitlyn/__Core/Memory/Types/RawPointer.h
index ef17765..1d236d8 100644
--- a/include/Caitlyn/__Core/Memory/Types/RawPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/RawPointer.h
@@ -107,15 +107,18 @@ public:
     {
         if (data_ != new_data)
         {
-            delete data_;
+            // Deleting may destroy this
+            const Pointer old_data = data_;
             data_ = new_data;
+            delete old_data;
         }
     }
 
     void Destroy()
     {
-        delete data_;
+        const Pointer old_data = data_;
         data_ = nullptr;
+        delete old_data;
     }
 
 private:
-- 
2.43.0


From faf2b0a197214ea4b8b7605dee991d52f87dbd24 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:05 +0000
Subject: [PATCH 45/71] fix: [C08] JSON strings keep the characters after an
 escape and decode \uXXXX and \/

---
 .../__Serializing/Json/Types/JsonParser.h     | 62 ++++++++++++++-----
 1 file changed, 47 insertions(+), 15 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 4f39650..3f83e6a 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -278,6 +278,10 @@ private:
                 {
                     escaped_stream << Def::ReverseSolidus;
                 }
+                else if (json_[position_] == Def::Solidus)
+                {
+                    escaped_stream << Def::Solidus;
+                }
                 else if (json_[position_] == Def::LatinSmallLetterB)
                 {
                     escaped_stream << Def::Backspace;
@@ -300,25 +304,14 @@ private:
                 }
                 else if (json_[position_] == Def::LatinSmallLetterU)
                 {
-                    if (position_ + 4 >= json_.size())
-                    {
-                        SetError(JsonError::InvalidEscapeSequence);
-                        SetErrorPosition(position_);
-                        return JsonData{};
-                    }
-                    String hex_code = json_.Substring(position_ + 1, 4);
-                    try
-                    {
-                        const uint32_t code_point = std::stoul(hex_code.str(), nullptr, 16);
-                        escaped_stream << static_cast<char>(code_point);
-                    }
-                    catch (const std::exception&)
+                    CodePoint code_point = 0;
+                    if (!ParseHexCode(code_point))
                     {
                         SetError(JsonError::InvalidEscapeSequence);
                         SetErrorPosition(position_);
                         return JsonData{};
                     }
-                    position_ += 4;
+                    escaped_stream << Char{code_point};
                 }
                 else
                 {
@@ -326,7 +319,6 @@ private:
                     SetErrorPosition(position_);
                     return JsonData{};
                 }
-                Next();
             }
             else
             {
@@ -344,6 +336,46 @@ private:
         return JsonData{};
     }
 
+    // At the letter u of an escape sequence; ends at its last character
+    bool ParseHexCode(CodePoint& code_point)
+    {
+        CodePoint unit = 0;
+        if (!ParseHexUnit(unit))
+        {
+            return false;
+        }
+        code_point = unit;
+        if (unit >= 0xD800 && unit <= 0xDFFF)
+        {
+            // A character outside of the Basic Multilingual Plane takes two units
+            if (unit >= 0xDC00 || position_ + 2 >= json_.size() || json_[position_ + 1] != Def::ReverseSolidus ||
+                json_[position_ + 2] != Def::LatinSmallLetterU)
+            {
+                return false;
+            }
+            Next(2);
+            CodePoint low = 0;
+            if (!ParseHexUnit(low) || low < 0xDC00 || low > 0xDFFF)
+            {
+                return false;
+            }
+            code_point = 0x10000 + ((unit - 0xD800) << 10) + (low - 0xDC00);
+        }
+        return true;
+    }
+
+    bool ParseHexUnit(CodePoint& unit)
+    {
+        const auto hex = json_.Substring(position_ + 1, 4).str();
+        if (hex.size() != 4 || hex.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos)
+        {
+            return false;
+        }
+        unit = static_cast<CodePoint>(std::stoul(hex, nullptr, 16));
+        Next(4);
+        return true;
+    }
+
     JsonData ParseBoolean()
     {
         if (json_.str().compare(position_, 4, String::ValueOf(true)) == 0)
-- 
2.43.0


From 5e631d1c87aef385e92ebce82583182f0c54da97 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:05 +0000
Subject: [PATCH 46/71] fix: [C08] JSON member names decode escapes

---
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 3f83e6a..7a28b56 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -134,18 +134,11 @@ private:
             }
             if (json_[position_] == Def::QuotationMark)
             {
-                Next();
-                const auto key_end = json_.Find(Def::QuotationMark, position_);
-
-                if (key_end == String::NPosition)
+                const String key = ParseString().GetString();
+                if (HasError())
                 {
-                    SetError(JsonError::UnterminatedString);
-                    SetErrorPosition(position_);
                     return JsonData{};
                 }
-                String key = json_.Substring(position_, key_end - position_);
-                position_ = key_end + 1;
-
                 SkipSpace();
                 if (json_[position_] != Def::Colon)
                 {
-- 
2.43.0


From 4dd36797451e2e6e243130b91b374423dccbd640 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:05 +0000
Subject: [PATCH 47/71] fix: [C08] JSON numbers keep their fraction, and
 malformed or too large ones are refused

---
 .../__Serializing/Json/Types/JsonParser.h     | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 7a28b56..c68b4a3 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -18,6 +18,9 @@
 #ifndef CAITLYN_SERIALIZING_JSON_TYPES_PARSER_H_
 #define CAITLYN_SERIALIZING_JSON_TYPES_PARSER_H_
 
+#include <cmath>
+#include <limits>
+
 #include "Caitlyn/__Core/String.h"
 #include "Caitlyn/__Serializing/Json/Types/JsonData.h"
 #include "Caitlyn/__Serializing/Json/Types/JsonError.h"
@@ -400,15 +403,26 @@ private:
         const String number_str = json_.Substring(position_, end_number - position_);
         try
         {
-            if (number_str.Find(Def::PlusSign) != String::NPosition ||
+            const std::string number = number_str.str();
+            size_t parsed = 0;
+            if (number_str.Find(Def::FullStop) != String::NPosition ||
                 number_str.Find(Def::LatinSmallLetterE) != String::NPosition ||
                 number_str.Find(Def::LatinCapitalLetterE) != String::NPosition)
             {
-                result = std::stod(number_str.str());
+                const double value = std::stod(number, &parsed);
+                if (std::fabs(value) > std::numeric_limits<JsonData::FloatingType>::max())
+                {
+                    throw std::out_of_range{"Number out of range"};
+                }
+                result = value;
             }
             else
             {
-                result = std::stoll(number_str.str());
+                result = std::stoll(number, &parsed);
+            }
+            if (parsed != number.size())
+            {
+                throw std::invalid_argument{"Invalid number"};
             }
         }
         catch (const std::out_of_range&)
-- 
2.43.0


From 8b3cbbe51c3007525c5e508ec1d4af8660f0a746 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:05 +0000
Subject: [PATCH 48/71] fix: [C08] JSON parsing never reads past the text and
 refuses content after the document

---
 .../__Serializing/Json/Types/JsonParser.h     | 51 +++++++++++++------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index c68b4a3..e154a2a 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -45,7 +45,7 @@ public:
         const auto first = FindFirstNonSpace(json);
         const auto last = FindLastNonSpace(json);
 
-        if (json[first] != Def::LeftCurlyBracket)
+        if (first == json.size() || json[first] != Def::LeftCurlyBracket)
         {
             parser.SetError(JsonError::InvalidJson);
             parser.SetErrorPosition(first);
@@ -58,6 +58,12 @@ public:
             return parser;
         }
         parser.data_ = parser.ParseValue();
+        parser.SkipSpace();
+        if (!parser.HasError() && parser.position_ < json.size())
+        {
+            parser.SetError(JsonError::UnexpectedCharacter);
+            parser.SetErrorPosition(parser.position_);
+        }
         return parser;
     }
 
@@ -87,6 +93,8 @@ private:
 
         if (position_ >= json_.size())
         {
+            SetError(JsonError::UnexpectedCharacter);
+            SetErrorPosition(position_);
             return JsonData{};
         }
         const auto current_char = json_[position_];
@@ -130,12 +138,12 @@ private:
         {
             SkipSpace();
 
-            if (json_[position_] == Def::RightCurlyBracket)
+            if (IsAt(Def::RightCurlyBracket))
             {
                 Next();
                 return result;
             }
-            if (json_[position_] == Def::QuotationMark)
+            if (IsAt(Def::QuotationMark))
             {
                 const String key = ParseString().GetString();
                 if (HasError())
@@ -143,7 +151,7 @@ private:
                     return JsonData{};
                 }
                 SkipSpace();
-                if (json_[position_] != Def::Colon)
+                if (!IsAt(Def::Colon))
                 {
                     SetError(JsonError::MissingColon);
                     SetErrorPosition(position_);
@@ -152,21 +160,25 @@ private:
                 Next();
                 SkipSpace();
                 result[key] = ParseValue();
+                if (HasError())
+                {
+                    return JsonData{};
+                }
 
                 SkipSpace();
-                if (json_[position_] == Def::Comma)
+                if (IsAt(Def::Comma))
                 {
                     Next();
                     SkipSpace();
 
-                    if (json_[position_] == Def::RightCurlyBracket)
+                    if (IsAt(Def::RightCurlyBracket))
                     {
                         SetError(JsonError::TrailingComma);
                         SetErrorPosition(position_);
                         return JsonData{};
                     }
                 }
-                else if (json_[position_] == Def::RightCurlyBracket)
+                else if (IsAt(Def::RightCurlyBracket))
                 {
                     Next();
                     return result;
@@ -200,28 +212,32 @@ private:
         {
             SkipSpace();
 
-            if (json_[position_] == Def::RightSquareBracket)
+            if (IsAt(Def::RightSquareBracket))
             {
                 Next();
                 return result;
             }
             const JsonData value = ParseValue();
+            if (HasError())
+            {
+                return JsonData{};
+            }
             result.Append(value);
 
             SkipSpace();
-            if (json_[position_] == Def::Comma)
+            if (IsAt(Def::Comma))
             {
                 Next();
                 SkipSpace();
 
-                if (json_[position_] == Def::RightSquareBracket)
+                if (IsAt(Def::RightSquareBracket))
                 {
                     SetError(JsonError::TrailingComma);
                     SetErrorPosition(position_);
                     return JsonData{};
                 }
             }
-            else if (json_[position_] == Def::RightSquareBracket)
+            else if (IsAt(Def::RightSquareBracket))
             {
                 Next();
                 return result;
@@ -240,7 +256,7 @@ private:
 
     JsonData ParseNull()
     {
-        if (json_.str().compare(position_, 4, String::ValueOf(nullptr)) == 0)
+        if (json_.Substring(position_, 4) == String::ValueOf(nullptr))
         {
             Next(4);
             return MakeNull();
@@ -322,7 +338,7 @@ private:
             }
             Next();
         }
-        if (json_[position_] == Def::QuotationMark)
+        if (IsAt(Def::QuotationMark))
         {
             Next();
             return escaped_stream.str();
@@ -374,12 +390,12 @@ private:
 
     JsonData ParseBoolean()
     {
-        if (json_.str().compare(position_, 4, String::ValueOf(true)) == 0)
+        if (json_.Substring(position_, 4) == String::ValueOf(true))
         {
             Next(4);
             return true;
         }
-        if (json_.str().compare(position_, 5, String::ValueOf(false)) == 0)
+        if (json_.Substring(position_, 5) == String::ValueOf(false))
         {
             Next(5);
             return false;
@@ -449,6 +465,11 @@ private:
         }
     }
 
+    bool IsAt(const char* character) const
+    {
+        return position_ < json_.size() && json_[position_] == character;
+    }
+
     void Next(const SizeType count = 1)
     {
         position_ += count;
-- 
2.43.0


From 154850e0f92b2dc740f5c0167b33848a51b0878e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 49/71] fix: [C09] JSON output escapes strings and member names

---
 .../__Serializing/Json/Types/JsonData.h       | 50 ++++++++++++++++++-
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index b5d8a48..9be4fa2 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -386,7 +386,8 @@ private:
                         {
                             oss << indent_str;
                         }
-                        oss << Def::QuotationMark << member.first << Def::QuotationMark << Def::Colon;
+                        MakeStringOutput(oss, member.first);
+                        oss << Def::Colon;
                         if (mangling)
                         {
                             oss << Def::Space;
@@ -447,7 +448,7 @@ private:
                 break;
             }
             case JsonClass::String:
-                oss << Def::QuotationMark << data_.string_value << Def::QuotationMark;
+                MakeStringOutput(oss, data_.string_value);
                 break;
             case JsonClass::Floating:
                 oss << data_.floating_value;
@@ -466,6 +467,51 @@ private:
         }
     }
 
+    static void MakeStringOutput(std::ostringstream& oss, const StringType& value)
+    {
+        static const char hex_digits[] = "0123456789abcdef";
+
+        oss << Def::QuotationMark;
+        for (const char byte : value.str())
+        {
+            switch (byte)
+            {
+                case '"':
+                    oss << "\\\"";
+                    break;
+                case '\\':
+                    oss << "\\\\";
+                    break;
+                case '\b':
+                    oss << "\\b";
+                    break;
+                case '\f':
+                    oss << "\\f";
+                    break;
+                case '\n':
+                    oss << "\\n";
+                    break;
+                case '\r':
+                    oss << "\\r";
+                    break;
+                case '\t':
+                    oss << "\\t";
+                    break;
+                default:
+                    if (byte >= 0 && byte < ' ')
+                    {
+                        oss << "\\u00" << hex_digits[byte / 16] << hex_digits[byte % 16];
+                    }
+                    else
+                    {
+                        oss << byte;
+                    }
+                    break;
+            }
+        }
+        oss << Def::QuotationMark;
+    }
+
     void CopyUnion(const JsonData& other)
     {
         switch (other.type_)
-- 
2.43.0


From 22ea0135020f657bd656d209ec06c5bb0b8f0338 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 50/71] fix: [C09] whole floating numbers of JSON output are
 read back as floating

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 9be4fa2..b16bbf8 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -451,8 +451,17 @@ private:
                 MakeStringOutput(oss, data_.string_value);
                 break;
             case JsonClass::Floating:
-                oss << data_.floating_value;
+            {
+                std::ostringstream number;
+                number << data_.floating_value;
+                oss << number.str();
+                if (number.str().find_first_not_of("-0123456789") == std::string::npos)
+                {
+                    // A whole number stays a floating one when it is read again
+                    oss << ".0";
+                }
                 break;
+            }
             case JsonClass::Integral:
                 oss << data_.integral_value;
                 break;
-- 
2.43.0


From a331253ce7c734982c76a1ffb8d21526be9f9f00 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 51/71] fix: [C10] a JSON value can be assigned from one of its
 own parts

---
 .../Caitlyn/__Serializing/Json/Types/JsonData.h   | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index b16bbf8..1b8a450 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -99,22 +99,19 @@ public:
 public:
     JsonData& operator=(const JsonData& other)
     {
-        if (this != &other)
-        {
-            DestroyUnion();
-            type_ = other.type_;
-            CopyUnion(other);
-        }
-        return *this;
+        // The other one may be part of this one
+        return *this = JsonData(other);
     }
 
     JsonData& operator=(JsonData&& other) noexcept
     {
         if (this != &other)
         {
+            // The other one may be part of this one
+            JsonData moved(std::move(other));
             DestroyUnion();
-            type_ = other.type_;
-            MoveUnion(std::move(other));
+            type_ = moved.type_;
+            MoveUnion(std::move(moved));
         }
         return *this;
     }
-- 
2.43.0


From 205b973c9c680764cb93746c64843eeb94482016 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 52/71] fix: [C10] writing past the end of a JSON array fills
 it with null

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 1b8a450..9ab95cb 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -173,11 +173,10 @@ public:
         auto& array = data_.array_value;
         if (index >= array.size())
         {
-            array.resize(index + 1, nullptr);
-        }
-        if (!array[index])
-        {
-            new (array[index]) JsonData{};
+            while (array.size() <= index)
+            {
+                array.emplace_back(new JsonData());
+            }
         }
         return *array[index];
     }
-- 
2.43.0


From 35b30354c214fc8dbb570c1d5923b966e9bd9767 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 53/71] fix: [C10] reading a member or element of another kind
 of JSON value is refused

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 9ab95cb..2f151ed 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -189,6 +189,10 @@ public:
 
     const JsonData& At(const StringType& key) const
     {
+        if (type_ != JsonClass::Object)
+        {
+            throw std::out_of_range{"Key not found"};
+        }
         const auto& object = data_.object_value;
         const auto it = std::find_if(
             object.begin(),
@@ -209,6 +213,10 @@ public:
 
     const JsonData& At(const SizeType index) const
     {
+        if (type_ != JsonClass::Array)
+        {
+            throw std::out_of_range{"Index out of range"};
+        }
         return *data_.array_value.at(index);
     }
 
-- 
2.43.0


From 67021383d0962c2e71bded739eeaab82fec03b3c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 54/71] fix: [C10] JSON values free their strings and
 moved-from containers

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 2f151ed..1c0a8e2 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -591,8 +591,7 @@ private:
             default:
                 break;
         }
-        other.type_ = JsonClass::Null;
-        new (&other.data_.null_value) NullType{};
+        other.SetType(JsonClass::Null);
     }
 
     void DestroyUnion()
@@ -613,6 +612,9 @@ private:
                 }
                 data_.object_value.~ObjectType();
                 break;
+            case JsonClass::String:
+                data_.string_value.~StringType();
+                break;
             default:
                 break;
         }
-- 
2.43.0


From 1cf903ad39ba38b001003f740a60ae07c3f50dad Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 55/71] fix: [C10] MakeFloating, MakeIntegral and MakeBoolean
 make values of their kind

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 1c0a8e2..20085a1 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -715,17 +715,17 @@ inline __Detail::JsonData MakeString(const std::string& value)
 
 inline __Detail::JsonData MakeFloating(const __Detail::JsonData::FloatingType value)
 {
-    return __Detail::JsonData{std::to_string(value)};
+    return __Detail::JsonData{value};
 }
 
 inline __Detail::JsonData MakeIntegral(const __Detail::JsonData::IntegralType value)
 {
-    return __Detail::JsonData{std::to_string(value)};
+    return __Detail::JsonData{value};
 }
 
 inline __Detail::JsonData MakeBoolean(const __Detail::JsonData::BooleanType value)
 {
-    return __Detail::JsonData{std::to_string(value)};
+    return __Detail::JsonData{value};
 }
 
 __CAITLYN_JSON_NAMESPACE_END
-- 
2.43.0


From ae6387dcffa0214c514b1a2a0f430341fe2afbca Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 56/71] fix: [C10] removing a JSON member frees its value

---
 include/Caitlyn/__Serializing/Json/Types/Json.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/Caitlyn/__Serializing/Json/Types/Json.h b/include/Caitlyn/__Serializing/Json/Types/Json.h
index f4cff9a..1c383b7 100644
--- a/include/Caitlyn/__Serializing/Json/Types/Json.h
+++ b/include/Caitlyn/__Serializing/Json/Types/Json.h
@@ -136,6 +136,13 @@ public:
         if (root_.HasMember(key))
         {
             auto& obj = root_.GetData();
+            for (const auto& member : obj)
+            {
+                if (member.first == key)
+                {
+                    delete member.second;
+                }
+            }
             obj.erase(
                 std::remove_if(
                     obj.begin(),
-- 
2.43.0


From e2ab6158948c42cbf508cef46d0d52b4d7a89cc3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 57/71] fix: [C11] JSON errors of escapes and number ranges
 have a message

---
 include/Caitlyn/__Serializing/Json/Utility.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Caitlyn/__Serializing/Json/Utility.h b/include/Caitlyn/__Serializing/Json/Utility.h
index b6a6ecc..52bd9ad 100644
--- a/include/Caitlyn/__Serializing/Json/Utility.h
+++ b/include/Caitlyn/__Serializing/Json/Utility.h
@@ -43,6 +43,10 @@ inline const char* GetErrorString(const JsonError error)
             return "Unterminated array.";
         case JsonError::InvalidNumber:
             return "Invalid number.";
+        case JsonError::InvalidEscapeSequence:
+            return "Invalid escape sequence.";
+        case JsonError::OutOfRangeError:
+            return "Number out of range.";
         case JsonError::NumberConversionError:
             return "Number conversion error.";
         case JsonError::InvalidValue:
-- 
2.43.0


From 75b5951b9bcc3d3e0241765a643e25ad0bcb685f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:08 +0000
Subject: [PATCH 58/71] fix: [C24] assertions print operands named oss and
 operands with operators of low precedence

---
 include/Caitlyn/__Testing/Macro/Assert.h | 48 ++++++++++++------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/include/Caitlyn/__Testing/Macro/Assert.h b/include/Caitlyn/__Testing/Macro/Assert.h
index c25ed3d..bd068da 100644
--- a/include/Caitlyn/__Testing/Macro/Assert.h
+++ b/include/Caitlyn/__Testing/Macro/Assert.h
@@ -34,49 +34,49 @@
 #define ASSERT_EQ(val1, val2)                                                                                          \
     if (!((val1) == (val2)))                                                                                           \
     {                                                                                                                  \
-        std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " == " #val2 << " (" << val1 << " != " << val2 << ")";                       \
-        throw std::runtime_error(oss.str());                                                                           \
+        std::ostringstream caitlyn_oss;                                                                                \
+        caitlyn_oss << "Assertion failed: " #val1 " == " #val2 << " (" << (val1) << " != " << (val2) << ")";           \
+        throw std::runtime_error(caitlyn_oss.str());                                                                   \
     }
 
 #define ASSERT_NE(val1, val2)                                                                                          \
     if (!((val1) != (val2)))                                                                                           \
     {                                                                                                                  \
-        std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " != " #val2 << " (" << val1 << " == " << val2 << ")";                       \
-        throw std::runtime_error(oss.str());                                                                           \
+        std::ostringstream caitlyn_oss;                                                                                \
+        caitlyn_oss << "Assertion failed: " #val1 " != " #val2 << " (" << (val1) << " == " << (val2) << ")";           \
+        throw std::runtime_error(caitlyn_oss.str());                                                                   \
     }
 
 #define ASSERT_LT(val1, val2)                                                                                          \
     if (!((val1) < (val2)))                                                                                            \
     {                                                                                                                  \
-        std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " < " #val2 << " (" << val1 << " >= " << val2 << ")";                        \
-        throw std::runtime_error(oss.str());                                                                           \
+        std::ostringstream caitlyn_oss;                                                                                \
+        caitlyn_oss << "Assertion failed: " #val1 " < " #val2 << " (" << (val1) << " >= " << (val2) << ")";            \
+        throw std::runtime_error(caitlyn_oss.str());                                                                   \
     }
 
 #define ASSERT_LE(val1, val2)                                                                                          \
     if (!((val1) <= (val2)))                                                                                           \
     {                                                                                                                  \
-        std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " <= " #val2 << " (" << val1 << " > " << val2 << ")";                        \
-        throw std::runtime_error(oss.str());                                                                           \
+        std::ostringstream caitlyn_oss;                                                                                \
+        caitlyn_oss << "Assertion failed: " #val1 " <= " #val2 << " (" << (val1) << " > " << (val2) << ")";            \
+        throw std::runtime_error(caitlyn_oss.str());                                                                   \
     }
 
 #define ASSERT_GT(val1, val2)                                                                                          \
     if (!((val1) > (val2)))                                                                                            \
     {                                                                                                                  \
-        std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " > " #val2 << " (" << val1 << " <= " << val2 << ")";                        \
-        throw std::runtime_error(oss.str());                                                                           \
+        std::ostringstream caitlyn_oss;                                                                                \
+        caitlyn_oss << "Assertion failed: " #val1 " > " #val2 << " (" << (val1) << " <= " << (val2) << ")";            \
+        throw std::runtime_error(caitlyn_oss.str());                                                                   \
     }
 
 #define ASSERT_GE(val1, val2)                                                                                          \
     if (!((val1) >= (val2)))                                                                                           \
     {                                                                                                                  \
-        std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " >= " #val2 << " (" << val1 << " < " << val2 << ")";                        \
-        throw std::runtime_error(oss.str());                                                                           \
+        std::ostringstream caitlyn_oss;                                                                                \
+        caitlyn_oss << "Assertion failed: " #val1 " >= " #val2 << " (" << (val1) << " < " << (val2) << ")";            \
+        throw std::runtime_error(caitlyn_oss.str());                                                                   \
     }
 
 #define ASSERT_EQ_PRINTABLE(val1, val2)                                                                                \
@@ -87,9 +87,9 @@
                 Caitlyn::HasOStreamOperatorType<decltype(val2)>::Value,                                                \
             "Types must be printable to use ASSERT_EQ_PRINTABLE");                                                     \
                                                                                                                        \
-        std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " == " #val2 << " (" << val1 << " != " << val2 << ")";                       \
-        throw std::runtime_error(oss.str());                                                                           \
+        std::ostringstream caitlyn_oss;                                                                                \
+        caitlyn_oss << "Assertion failed: " #val1 " == " #val2 << " (" << (val1) << " != " << (val2) << ")";           \
+        throw std::runtime_error(caitlyn_oss.str());                                                                   \
     }
 
 #define ASSERT_STREQ(expected, actual)                                                                                 \
@@ -104,11 +104,11 @@
         if (caitlyn_expected == nullptr || caitlyn_actual == nullptr ||                                                \
             std::strcmp(caitlyn_expected, caitlyn_actual) != 0)                                                        \
         {                                                                                                              \
-            std::ostringstream oss;                                                                                    \
-            oss << "Assertion failed: " #expected " == " #actual << " (\""                                             \
+            std::ostringstream caitlyn_oss;                                                                            \
+            caitlyn_oss << "Assertion failed: " #expected " == " #actual << " (\""                                     \
                 << (caitlyn_expected ? caitlyn_expected : "nullptr") << "\" != \""                                     \
                 << (caitlyn_actual ? caitlyn_actual : "nullptr") << "\")";                                             \
-            throw std::runtime_error(oss.str());                                                                       \
+            throw std::runtime_error(caitlyn_oss.str());                                                               \
         }                                                                                                              \
     }                                                                                                                  \
     while (false)
-- 
2.43.0


From 16e28824e14c5190538c834bf86f5c14f4fde437 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:14 +0000
Subject: [PATCH 59/71] fix: [C24] ASSERT_TRUE and ASSERT_FALSE do not take the
 else of an if around them

---
 include/Caitlyn/__Testing/Macro/Assert.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Testing/Macro/Assert.h b/include/Caitlyn/__Testing/Macro/Assert.h
index bd068da..c147eef 100644
--- a/include/Caitlyn/__Testing/Macro/Assert.h
+++ b/include/Caitlyn/__Testing/Macro/Assert.h
@@ -24,12 +24,20 @@
 #include "Caitlyn/__Testing/Types.h"
 
 #define ASSERT_TRUE(condition)                                                                                         \
-    if (!(condition))                                                                                                  \
-    throw std::runtime_error("Assertion failed: " #condition)
+    do                                                                                                                 \
+    {                                                                                                                  \
+        if (!(condition))                                                                                              \
+            throw std::runtime_error("Assertion failed: " #condition);                                                 \
+    }                                                                                                                  \
+    while (false)
 
 #define ASSERT_FALSE(condition)                                                                                        \
-    if (condition)                                                                                                     \
-    throw std::runtime_error("Assertion failed: " #condition)
+    do                                                                                                                 \
+    {                                                                                                                  \
+        if (condition)                                                                                                 \
+            throw std::runtime_error("Assertion failed: " #condition);                                                 \
+    }                                                                                                                  \
+    while (false)
 
 #define ASSERT_EQ(val1, val2)                                                                                          \
     if (!((val1) == (val2)))                                                                                           \
-- 
2.43.0


From 1fa856f8acaaccc85945d618691fe03256e8b05e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:28 +0000
Subject: [PATCH 60/71] fix: [C24] texts, characters, big numbers and JSON
 documents are printable for ASSERT_EQ_PRINTABLE

---
 include/Caitlyn/__Core/Char/Char.h              |  6 +++---
 include/Caitlyn/__Core/String/String.h          |  8 ++++----
 include/Caitlyn/__Numeric/Types/BigFloat.h      | 12 ++++++------
 include/Caitlyn/__Numeric/Types/BigInteger.h    | 12 ++++++------
 include/Caitlyn/__Serializing/Json/Types/Json.h |  7 ++++---
 5 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/include/Caitlyn/__Core/Char/Char.h b/include/Caitlyn/__Core/Char/Char.h
index 80d0836..0373427 100644
--- a/include/Caitlyn/__Core/Char/Char.h
+++ b/include/Caitlyn/__Core/Char/Char.h
@@ -286,14 +286,14 @@ private:
     DataType data_;
 };
 
-__CAITLYN_GLOBAL_NAMESPACE_END
-
-inline std::ostream& operator<<(std::ostream& os, const Caitlyn::Char& c)
+inline std::ostream& operator<<(std::ostream& os, const Char& c)
 {
     os << c.data();
     return os;
 }
 
+__CAITLYN_GLOBAL_NAMESPACE_END
+
 inline Caitlyn::Char operator""_char(const char* str, const std::size_t)
 {
     return Caitlyn::Char{str};
diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 1d2f3c4..b656670 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -1023,9 +1023,7 @@ private:
     DataType data_;
 };
 
-__CAITLYN_GLOBAL_NAMESPACE_END
-
-inline std::istream& operator>>(std::istream& is, Caitlyn::String& str)
+inline std::istream& operator>>(std::istream& is, String& str)
 {
     if (is.good())
     {
@@ -1036,12 +1034,14 @@ inline std::istream& operator>>(std::istream& is, Caitlyn::String& str)
     return is;
 }
 
-inline std::ostream& operator<<(std::ostream& os, const Caitlyn::String& str)
+inline std::ostream& operator<<(std::ostream& os, const String& str)
 {
     os << str.str();
     return os;
 }
 
+__CAITLYN_GLOBAL_NAMESPACE_END
+
 inline Caitlyn::String operator""_str(const char* str, const Caitlyn::SizeType)
 {
     return Caitlyn::String{str};
diff --git a/include/Caitlyn/__Numeric/Types/BigFloat.h b/include/Caitlyn/__Numeric/Types/BigFloat.h
index 92e2bbc..4b82fc3 100644
--- a/include/Caitlyn/__Numeric/Types/BigFloat.h
+++ b/include/Caitlyn/__Numeric/Types/BigFloat.h
@@ -286,6 +286,12 @@ private:
     SignFlag isNegative_ = false;
 };
 
+inline std::ostream& operator<<(std::ostream& os, const BigFloat& number)
+{
+    os << number.ToString();
+    return os;
+}
+
 __CAITLYN_GLOBAL_NAMESPACE_END
 
 inline bool operator<(const Caitlyn::BigFloat& lhs, const Caitlyn::BigFloat& rhs)
@@ -338,12 +344,6 @@ inline Caitlyn::BigFloat operator/(const Caitlyn::BigFloat& lhs, const Caitlyn::
     return lhs.Divide(rhs);
 }
 
-inline std::ostream& operator<<(std::ostream& os, const Caitlyn::BigFloat& number)
-{
-    os << number.ToString();
-    return os;
-}
-
 inline Caitlyn::BigFloat operator""_bigfloat(const char* number, const size_t)
 {
     return Caitlyn::BigFloat{number};
diff --git a/include/Caitlyn/__Numeric/Types/BigInteger.h b/include/Caitlyn/__Numeric/Types/BigInteger.h
index b062681..5ecf667 100644
--- a/include/Caitlyn/__Numeric/Types/BigInteger.h
+++ b/include/Caitlyn/__Numeric/Types/BigInteger.h
@@ -408,6 +408,12 @@ private:
     SignFlag is_negative_ = false;
 };
 
+inline std::ostream& operator<<(std::ostream& os, const BigInteger& number)
+{
+    os << number.ToString();
+    return os;
+}
+
 __CAITLYN_GLOBAL_NAMESPACE_END
 
 inline bool operator<(const Caitlyn::BigInteger& lhs, const Caitlyn::BigInteger& rhs)
@@ -465,12 +471,6 @@ inline Caitlyn::BigInteger operator%(const Caitlyn::BigInteger& lhs, const Caitl
     return lhs.Modulo(rhs);
 }
 
-inline std::ostream& operator<<(std::ostream& os, const Caitlyn::BigInteger& number)
-{
-    os << number.ToString();
-    return os;
-}
-
 inline Caitlyn::BigInteger operator""_bigint(const char* number, const size_t)
 {
     return Caitlyn::BigInteger{number};
diff --git a/include/Caitlyn/__Serializing/Json/Types/Json.h b/include/Caitlyn/__Serializing/Json/Types/Json.h
index 1c383b7..9b2e2e1 100644
--- a/include/Caitlyn/__Serializing/Json/Types/Json.h
+++ b/include/Caitlyn/__Serializing/Json/Types/Json.h
@@ -221,9 +221,8 @@ inline JsonDocument MakeDocument(const std::ifstream& stream)
 }
 
 __CAITLYN_JSON_NAMESPACE_END
-__CAITLYN_GLOBAL_NAMESPACE_END
 
-inline std::istream& operator>>(std::istream& is, Caitlyn::JsonDocument& value)
+inline std::istream& operator>>(std::istream& is, JsonDocument& value)
 {
     std::ostringstream buffer;
     buffer << is.rdbuf();
@@ -231,10 +230,12 @@ inline std::istream& operator>>(std::istream& is, Caitlyn::JsonDocument& value)
     return is;
 }
 
-inline std::ostream& operator<<(std::ostream& os, const Caitlyn::JsonDocument& value)
+inline std::ostream& operator<<(std::ostream& os, const JsonDocument& value)
 {
     os << value.ToString();
     return os;
 }
 
+__CAITLYN_GLOBAL_NAMESPACE_END
+
 #endif // CAITLYN_SERIALIZING_JSON_TYPES_DOCUMENT_H_
-- 
2.43.0


From 176db872e2067d997ac7dc1cf6cb562831601414 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:33 +0000
Subject: [PATCH 61/71] fix: [C28] random floating values of ranges wider than
 the largest value lie within their bounds

---
 include/Caitlyn/__Core/Utility/Random.h | 29 ++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/Caitlyn/__Core/Utility/Random.h b/include/Caitlyn/__Core/Utility/Random.h
index 32004fa..8b95b71 100644
--- a/include/Caitlyn/__Core/Utility/Random.h
+++ b/include/Caitlyn/__Core/Utility/Random.h
@@ -30,6 +30,26 @@ __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 template <typename T>
 T Random(T min = std::numeric_limits<T>::min(), T max = std::numeric_limits<T>::max());
 
+template <typename T>
+inline T RandomFloating(const T min, const T max)
+{
+    std::mt19937_64 engine(std::chrono::steady_clock::now().time_since_epoch().count());
+    // The width of the range may be larger than the largest value, its half is not
+    T value = max / 2 - min / 2 > std::numeric_limits<T>::max() / 2
+        ? std::uniform_real_distribution<T>{min / 2, max / 2}(engine) * 2
+        : std::uniform_real_distribution<T>{min, max}(engine);
+    // Rounding may leave the range
+    if (value < min)
+    {
+        value = min;
+    }
+    if (value > max)
+    {
+        value = max;
+    }
+    return value;
+}
+
 template <>
 inline Int16 Random(const Int16 min, const Int16 max)
 {
@@ -75,22 +95,19 @@ inline UInt64 Random(const UInt64 min, const UInt64 max)
 template <>
 inline Float Random(const Float min, const Float max)
 {
-    std::mt19937_64 engine(std::chrono::steady_clock::now().time_since_epoch().count());
-    return std::uniform_real_distribution<Float>{min, max}(engine);
+    return RandomFloating<Float>(min, max);
 }
 
 template <>
 inline Double Random(const Double min, const Double max)
 {
-    std::mt19937_64 engine(std::chrono::steady_clock::now().time_since_epoch().count());
-    return std::uniform_real_distribution<Double>{min, max}(engine);
+    return RandomFloating<Double>(min, max);
 }
 
 template <>
 inline Decimal Random(const Decimal min, const Decimal max)
 {
-    std::mt19937_64 engine(std::chrono::steady_clock::now().time_since_epoch().count());
-    return std::uniform_real_distribution<Decimal>{min, max}(engine);
+    return RandomFloating<Decimal>(min, max);
 }
 
 inline Bool RandomBoolean(const Double percentage = 0.5)
-- 
2.43.0


From 28bb428c165e43080a5cbf2d6457dba3d059525e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:33 +0000
Subject: [PATCH 62/71] fix: [C28] RandomBoolean refuses a probability that is
 not a number

---
 include/Caitlyn/__Core/Utility/Random.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Utility/Random.h b/include/Caitlyn/__Core/Utility/Random.h
index 8b95b71..0667b51 100644
--- a/include/Caitlyn/__Core/Utility/Random.h
+++ b/include/Caitlyn/__Core/Utility/Random.h
@@ -112,7 +112,7 @@ inline Decimal Random(const Decimal min, const Decimal max)
 
 inline Bool RandomBoolean(const Double percentage = 0.5)
 {
-    if (percentage < 0.0 || percentage > 1.0)
+    if (!(percentage >= 0.0 && percentage <= 1.0))
     {
         throw std::invalid_argument{"True percentage is only 0.0..1.0"};
     }
-- 
2.43.0


From cd85b9f3b33f9b02757218fdb9824eb3d2e4d174 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:52 +0000
Subject: [PATCH 63/71] fix: [C30] programs compiled as C++20 can include the
 library

---
 include/Caitlyn/__Caitlyn/Types.h             | 2 +-
 include/Caitlyn/__Core/Traits/Types/Primary.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Caitlyn/Types.h b/include/Caitlyn/__Caitlyn/Types.h
index 5a4ea02..f2cac7e 100644
--- a/include/Caitlyn/__Caitlyn/Types.h
+++ b/include/Caitlyn/__Caitlyn/Types.h
@@ -26,7 +26,7 @@ __CAITLYN_DETAIL_NAMESPACE_BEGIN
 using __char_t = decltype('\0');
 using __wide_char_t = decltype(L'\0');
 #if __CAITLYN_HAS_CXX20
-using __utf8_char_t = decltype(u8 '\0');
+using __utf8_char_t = decltype(u8'\0');
 #else
 using __utf8_char_t = __char_t;
 #endif
diff --git a/include/Caitlyn/__Core/Traits/Types/Primary.h b/include/Caitlyn/__Core/Traits/Types/Primary.h
index 8bfe6b1..b8f47c3 100644
--- a/include/Caitlyn/__Core/Traits/Types/Primary.h
+++ b/include/Caitlyn/__Core/Traits/Types/Primary.h
@@ -68,7 +68,7 @@ struct __IsCharacter<wchar_t> : TrueType
 
 #if __CAITLYN_HAS_CXX20
 template <>
-struct __IsCharacterType<char8_t> : TrueType
+struct __IsCharacter<char8_t> : TrueType
 {
 };
 #endif
-- 
2.43.0


From 7e846aa06f5075cdd05dbbaad6b54564b4bb2deb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:52 +0000
Subject: [PATCH 64/71] fix: [C29] IsRValueReference is about rvalue references

---
 include/Caitlyn/__Core/Traits/Constraints/Primary.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Traits/Constraints/Primary.h b/include/Caitlyn/__Core/Traits/Constraints/Primary.h
index bb3d563..006f3ae 100644
--- a/include/Caitlyn/__Core/Traits/Constraints/Primary.h
+++ b/include/Caitlyn/__Core/Traits/Constraints/Primary.h
@@ -109,7 +109,7 @@ constexpr Bool IsLValueReference()
 template <typename T>
 constexpr Bool IsRValueReference()
 {
-    return __Detail::__IsLValueReference<T>::Value;
+    return __Detail::__IsRValueReference<T>::Value;
 }
 
 template <typename T>
-- 
2.43.0


From 889f70452de5ca8eda3ecec95d3475db074e82fd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:52 +0000
Subject: [PATCH 65/71] fix: [C29] qualified character, integer and floating
 types are still character, integer and floating types

---
 include/Caitlyn/__Core/Traits/Constraints/Primary.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Core/Traits/Constraints/Primary.h b/include/Caitlyn/__Core/Traits/Constraints/Primary.h
index 006f3ae..e15401e 100644
--- a/include/Caitlyn/__Core/Traits/Constraints/Primary.h
+++ b/include/Caitlyn/__Core/Traits/Constraints/Primary.h
@@ -43,25 +43,25 @@ constexpr Bool IsBoolean()
 template <typename T>
 constexpr Bool IsCharacter()
 {
-    return __Detail::__IsCharacter<T>::Value;
+    return __Detail::__IsCharacter<RemoveCVType<T>>::Value;
 }
 
 template <typename T>
 constexpr Bool IsInteger()
 {
-    return __Detail::__IsInteger<T>::Value;
+    return __Detail::__IsInteger<RemoveCVType<T>>::Value;
 }
 
 template <typename T>
 constexpr Bool IsIntegral()
 {
-    return __Detail::__IsCharacter<T>::Value || __Detail::__IsInteger<T>::Value || IsBooleanType<T>::Value;
+    return IsCharacter<T>() || IsInteger<T>() || IsBoolean<T>();
 }
 
 template <typename T>
 constexpr Bool IsFloating()
 {
-    return __Detail::__IsFloating<T>::Value;
+    return __Detail::__IsFloating<RemoveCVType<T>>::Value;
 }
 
 template <typename T>
-- 
2.43.0


From fd6b33729c3007106ddd3e1859a679609435c888 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:53 +0000
Subject: [PATCH 66/71] fix: [C29] RemoveConstType and RemoveVolatileType
 remove one qualifier only

---
 .../Caitlyn/__Core/Traits/Types/Specifiers.h  | 28 +++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Traits/Types/Specifiers.h b/include/Caitlyn/__Core/Traits/Types/Specifiers.h
index 0f8d23c..09fce84 100644
--- a/include/Caitlyn/__Core/Traits/Types/Specifiers.h
+++ b/include/Caitlyn/__Core/Traits/Types/Specifiers.h
@@ -41,6 +41,30 @@ struct __AddCV
     using Type = const volatile T;
 };
 
+template <typename T>
+struct __RemoveConst
+{
+    using Type = T;
+};
+
+template <typename T>
+struct __RemoveConst<const T>
+{
+    using Type = T;
+};
+
+template <typename T>
+struct __RemoveVolatile
+{
+    using Type = T;
+};
+
+template <typename T>
+struct __RemoveVolatile<volatile T>
+{
+    using Type = T;
+};
+
 template <typename T>
 struct __RemoveCV
 {
@@ -77,10 +101,10 @@ template <typename T>
 using AddCVType = typename __Detail::__AddCV<T>::Type;
 
 template <typename T>
-using RemoveConstType = typename __Detail::__RemoveCV<const T>::Type;
+using RemoveConstType = typename __Detail::__RemoveConst<T>::Type;
 
 template <typename T>
-using RemoveVolatileType = typename __Detail::__RemoveCV<volatile T>::Type;
+using RemoveVolatileType = typename __Detail::__RemoveVolatile<T>::Type;
 
 template <typename T>
 using RemoveCVType = typename __Detail::__RemoveCV<T>::Type;
-- 
2.43.0


From a6adec97a0f4ca1205fee79ee854cfedc1e2681b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:53 +0000
Subject: [PATCH 67/71] fix: [C29] pointers and references can be added to
 reference types

---
 include/Caitlyn/__Core/Traits/Types/Pointers.h   | 4 ++--
 include/Caitlyn/__Core/Traits/Types/References.h | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/Caitlyn/__Core/Traits/Types/Pointers.h b/include/Caitlyn/__Core/Traits/Types/Pointers.h
index ad20df3..653725e 100644
--- a/include/Caitlyn/__Core/Traits/Types/Pointers.h
+++ b/include/Caitlyn/__Core/Traits/Types/Pointers.h
@@ -24,7 +24,7 @@ __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 __CAITLYN_DETAIL_NAMESPACE_BEGIN
 
 template <typename T>
-auto __TryAddPointer(T*) -> __TypeIdentity<RemoveReferenceType<T>*>;
+auto __TryAddPointer(int) -> __TypeIdentity<RemoveReferenceType<T>*>;
 
 template <typename T>
 auto __TryAddPointer(...) -> __TypeIdentity<T>;
@@ -62,7 +62,7 @@ struct __RemovePointer<T* const volatile>
 __CAITLYN_DETAIL_NAMESPACE_END
 
 template <typename T>
-using AddPointerType = typename decltype(__Detail::__TryAddPointer<T>(nullptr))::Type;
+using AddPointerType = typename decltype(__Detail::__TryAddPointer<T>(0))::Type;
 
 template <typename T>
 using RemovePointerType = typename __Detail::__RemovePointer<T>::Type;
diff --git a/include/Caitlyn/__Core/Traits/Types/References.h b/include/Caitlyn/__Core/Traits/Types/References.h
index effb246..868aba4 100644
--- a/include/Caitlyn/__Core/Traits/Types/References.h
+++ b/include/Caitlyn/__Core/Traits/Types/References.h
@@ -24,13 +24,13 @@ __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 __CAITLYN_DETAIL_NAMESPACE_BEGIN
 
 template <typename T>
-auto __TryAddLValueReference(T*) -> __TypeIdentity<T&>;
+auto __TryAddLValueReference(int) -> __TypeIdentity<T&>;
 
 template <typename T>
 auto __TryAddLValueReference(...) -> __TypeIdentity<T>;
 
 template <typename T>
-auto __TryAddRValueReference(T*) -> __TypeIdentity<T&&>;
+auto __TryAddRValueReference(int) -> __TypeIdentity<T&&>;
 
 template <typename T>
 auto __TryAddRValueReference(...) -> __TypeIdentity<T>;
@@ -56,10 +56,10 @@ struct __RemoveReference<T&&>
 __CAITLYN_DETAIL_NAMESPACE_END
 
 template <typename T>
-using AddLValueReferenceType = typename decltype(__Detail::__TryAddLValueReference<T>(nullptr))::Type;
+using AddLValueReferenceType = typename decltype(__Detail::__TryAddLValueReference<T>(0))::Type;
 
 template <typename T>
-using AddRValueReferenceType = typename decltype(__Detail::__TryAddRValueReference<T>(nullptr))::Type;
+using AddRValueReferenceType = typename decltype(__Detail::__TryAddRValueReference<T>(0))::Type;
 
 template <typename T>
 using RemoveReferenceType = typename __Detail::__RemoveReference<T>::Type;
-- 
2.43.0


From 988201a05922eb333845525015c3805f6e9e7d2b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:53 +0000
Subject: [PATCH 68/71] fix: [C29] IsSigned and IsUnsigned answer for every
 type

---
 include/Caitlyn/__Core/Traits/Types/Properties.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Traits/Types/Properties.h b/include/Caitlyn/__Core/Traits/Types/Properties.h
index 050dd3d..ce2b2a9 100644
--- a/include/Caitlyn/__Core/Traits/Types/Properties.h
+++ b/include/Caitlyn/__Core/Traits/Types/Properties.h
@@ -24,12 +24,12 @@ __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 __CAITLYN_TRAITS_NAMESPACE_BEGIN
 
 template <typename T>
-struct IsSignedType : BooleanConstant<std::is_arithmetic<T>::value && T(-1) < T(0)>
+struct IsSignedType : BooleanConstant<std::is_signed<T>::value>
 {
 };
 
 template <typename T>
-struct IsUnsignedType : BooleanConstant<std::is_arithmetic<T>::value && T(0) < T(-1)>
+struct IsUnsignedType : BooleanConstant<std::is_unsigned<T>::value>
 {
 };
 
-- 
2.43.0


From 1f87017491753651b089fc73570a1fdd049abd04 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:53 +0000
Subject: [PATCH 69/71] fix: [C29] AlignmentOf, Rank and Extent are numbers

---
 include/Caitlyn/__Core/Traits/Constraints/PropertyQueries.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Core/Traits/Constraints/PropertyQueries.h b/include/Caitlyn/__Core/Traits/Constraints/PropertyQueries.h
index ecb7625..2686609 100644
--- a/include/Caitlyn/__Core/Traits/Constraints/PropertyQueries.h
+++ b/include/Caitlyn/__Core/Traits/Constraints/PropertyQueries.h
@@ -25,19 +25,19 @@
 __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 
 template <typename T>
-constexpr Bool AlignmentOf()
+constexpr SizeType AlignmentOf()
 {
     return std::alignment_of<T>::value;
 }
 
 template <typename T>
-constexpr Bool Rank()
+constexpr std::size_t Rank()
 {
     return std::rank<T>::value;
 }
 
 template <typename T>
-constexpr Bool Extent()
+constexpr std::size_t Extent()
 {
     return std::extent<T>::value;
 }
-- 
2.43.0


From 44323b1d8262925b64c64efb138e0fb73b9dc3da Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:53 +0000
Subject: [PATCH 70/71] fix: [C29] HasBitwiseOrOperatorType looks for |

---
 include/Caitlyn/__Core/Traits/Types/Operators.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Traits/Types/Operators.h b/include/Caitlyn/__Core/Traits/Types/Operators.h
index 6d83593..f58bf9d 100644
--- a/include/Caitlyn/__Core/Traits/Types/Operators.h
+++ b/include/Caitlyn/__Core/Traits/Types/Operators.h
@@ -160,7 +160,7 @@ struct HasBitwiseOrOperatorType : FalseType
 };
 
 template <typename T>
-struct HasBitwiseOrOperatorType<T, Indicator<decltype(std::declval<T>() & std::declval<T>())>> : TrueType
+struct HasBitwiseOrOperatorType<T, Indicator<decltype(std::declval<T>() | std::declval<T>())>> : TrueType
 {
 };
 
-- 
2.43.0


From d6be652e9e706dfed72a453af9d27ef4c52b0c6c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:53 +0000
Subject: [PATCH 71/71] fix: [C29] HasIStreamOperatorType looks for input into
 a variable

---
 include/Caitlyn/__Core/Traits/Types/Operators.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Traits/Types/Operators.h b/include/Caitlyn/__Core/Traits/Types/Operators.h
index f58bf9d..98a60fc 100644
--- a/include/Caitlyn/__Core/Traits/Types/Operators.h
+++ b/include/Caitlyn/__Core/Traits/Types/Operators.h
@@ -200,7 +200,7 @@ struct HasIStreamOperatorType : FalseType
 };
 
 template <typename T>
-struct HasIStreamOperatorType<T, Indicator<decltype(std::declval<std::istream&>() >> std::declval<T>())>> : TrueType
+struct HasIStreamOperatorType<T, Indicator<decltype(std::declval<std::istream&>() >> std::declval<T&>())>> : TrueType
 {
 };
 
-- 
2.43.0

