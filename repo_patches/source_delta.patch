From d7487ac8e154aebf07f78ed0b3d43e65b63f9510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:20 +0000
Subject: [PATCH 01/70] fix: correct Unicode offsets in ToUppercase/ToLowercase

Greek Extended letters were mapped by wrong offsets, the Latin range 0139-0148 had its parity reversed and every
code point from 1FEC up was shifted by eight when lower-casing.
---
 include/Caitlyn/__Core/Char/Utility.h | 50 +++++++++++++++++----------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/include/Caitlyn/__Core/Char/Utility.h b/include/Caitlyn/__Core/Char/Utility.h
index 8e8b51a..6964ff5 100644
--- a/include/Caitlyn/__Core/Char/Utility.h
+++ b/include/Caitlyn/__Core/Char/Utility.h
@@ -167,51 +167,51 @@ inline CodePoint ToUppercase(const CodePoint codePoint)
     // Additional
     if (codePoint >= 0x1F00 && codePoint <= 0x1F07)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F10 && codePoint <= 0x1F15)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F20 && codePoint <= 0x1F27)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F30 && codePoint <= 0x1F37)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F40 && codePoint <= 0x1F45)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F60 && codePoint <= 0x1F67)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F70 && codePoint <= 0x1F71)
     {
-        return codePoint + 0x56;
+        return codePoint + 0x4A;
     }
     if (codePoint >= 0x1F72 && codePoint <= 0x1F75)
     {
-        return codePoint + 0x64;
+        return codePoint + 0x56;
     }
     if (codePoint >= 0x1F76 && codePoint <= 0x1F77)
     {
-        return codePoint + 0x80;
+        return codePoint + 0x64;
     }
     if (codePoint >= 0x1F78 && codePoint <= 0x1F79)
     {
-        return codePoint + 0x7E;
+        return codePoint + 0x80;
     }
     if (codePoint >= 0x1F7A && codePoint <= 0x1F7B)
     {
-        return codePoint + 0x7C;
+        return codePoint + 0x70;
     }
     if (codePoint >= 0x1F7C && codePoint <= 0x1F7D)
     {
-        return codePoint + 0x7A;
+        return codePoint + 0x7E;
     }
     // Ranges for Latin characters with diacritics
     if (codePoint >= 0x0100 && codePoint <= 0x012F)
@@ -232,7 +232,7 @@ inline CodePoint ToUppercase(const CodePoint codePoint)
     }
     if (codePoint >= 0x0139 && codePoint <= 0x0148)
     {
-        if (codePoint % 2 == 0)
+        if (codePoint % 2 != 0)
         {
             return codePoint;
         }
@@ -311,27 +311,39 @@ inline CodePoint ToLowercase(const CodePoint codePoint)
     }
     if (codePoint >= 0x1FBA && codePoint <= 0x1FBB)
     {
-        return codePoint - 0x08;
+        return codePoint - 0x4A;
     }
     if (codePoint >= 0x1FC8 && codePoint <= 0x1FCB)
     {
-        return codePoint - 0x08;
+        return codePoint - 0x56;
     }
     if (codePoint >= 0x1FD8 && codePoint <= 0x1FD9)
     {
         return codePoint - 0x08;
     }
+    if (codePoint >= 0x1FDA && codePoint <= 0x1FDB)
+    {
+        return codePoint - 0x64;
+    }
     if (codePoint >= 0x1FE8 && codePoint <= 0x1FE9)
     {
         return codePoint - 0x08;
     }
     if (codePoint >= 0x1FEA && codePoint <= 0x1FEB)
     {
-        return codePoint - 0x08;
+        return codePoint - 0x70;
     }
-    if (codePoint >= 0x1FEC)
+    if (codePoint == 0x1FEC)
     {
-        return codePoint - 0x08;
+        return codePoint - 0x07;
+    }
+    if (codePoint >= 0x1FF8 && codePoint <= 0x1FF9)
+    {
+        return codePoint - 0x80;
+    }
+    if (codePoint >= 0x1FFA && codePoint <= 0x1FFB)
+    {
+        return codePoint - 0x7E;
     }
     // Ranges for Latin characters with diacritics
     if (codePoint >= 0x0100 && codePoint <= 0x012F)
@@ -352,7 +364,7 @@ inline CodePoint ToLowercase(const CodePoint codePoint)
     }
     if (codePoint >= 0x0139 && codePoint <= 0x0148)
     {
-        if (codePoint % 2 != 0)
+        if (codePoint % 2 == 0)
         {
             return codePoint;
         }
-- 
2.43.0


From 979fb1c6585f5618f3ce4a85da8be24019ea55c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:37 +0000
Subject: [PATCH 02/70] fix: do not read past the end of a truncated UTF-8
 sequence

Decoding copied as many bytes as the lead byte announced, past the terminating NUL of a truncated text.
---
 include/Caitlyn/__Core/String/String.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index b192a9e..762528e 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -999,6 +999,13 @@ private:
         {
             throw std::runtime_error("Invalid UTF-8 sequence");
         }
+        for (SizeType i = 1; i < len; ++i)
+        {
+            if (cstr[i] == '\0')
+            {
+                throw std::runtime_error("Truncated UTF-8 sequence");
+            }
+        }
         return CharType{BasicString(cstr, len)};
     }
 
-- 
2.43.0


From 8af88265d6f02a27ae3d60a4406535d312f94c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:37 +0000
Subject: [PATCH 03/70] fix: appending or inserting a string into itself

The range inserted belonged to the vector being grown; appending an own character repeatedly read it after reallocation,
and appending malformed text left the valid prefix behind.
---
 include/Caitlyn/__Core/String/String.h | 33 +++++++++++++-------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 762528e..28e0d95 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -241,6 +241,12 @@ public:
 public:
     String& operator+=(const String& str)
     {
+        if (this == &str)
+        {
+            const DataType copy = data_;
+            data_.insert(data_.end(), copy.begin(), copy.end());
+            return *this;
+        }
         data_.insert(data_.end(), str.data_.begin(), str.data_.end());
         return *this;
     }
@@ -269,32 +275,21 @@ public:
 
     void Append(const char* cstr)
     {
-        while (*cstr)
-        {
-            data_.emplace_back(DecodeUtf8Char(cstr));
-            // Move past the current UTF-8 character
-            cstr += DecodeUtf8Char(cstr).size();
-        }
+        // Decode first: the text may belong to this string or be malformed
+        *this += String{cstr};
     }
 
     void Append(const SizeType count, const char* pattern)
     {
-        SizeType i = 0;
-        while (i < count)
+        if (count > 0)
         {
-            data_.emplace_back(pattern);
-            ++i;
+            Append(count, CharType{pattern});
         }
     }
 
     void Append(const SizeType count, const CharType& pattern)
     {
-        SizeType i = 0;
-        while (i < count)
-        {
-            data_.emplace_back(pattern);
-            ++i;
-        }
+        data_.insert(data_.end(), count, pattern);
     }
 
     void Clear()
@@ -503,6 +498,12 @@ public:
         {
             throw std::out_of_range("Position out of range");
         }
+        if (this == &str)
+        {
+            const DataType copy = data_;
+            data_.insert(data_.begin() + static_cast<DifferenceType>(pos), copy.begin(), copy.end());
+            return;
+        }
         data_.insert(data_.begin() + static_cast<DifferenceType>(pos), str.data_.begin(), str.data_.end());
     }
 
-- 
2.43.0


From ed013e3894ef44a91c1822bbaa46c8d466291614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:37 +0000
Subject: [PATCH 04/70] fix: string search with empty needles and positions
 past the end

Find and FindIf ran past the end when the start position exceeded the size, empty needles were not found in empty
strings, and ReverseFind returned the last character of the match instead of its first.
---
 .../Caitlyn/__Core/String/Algorithms/Kmp.h    |  4 ++++
 include/Caitlyn/__Core/String/String.h        | 23 ++++++++++++++++---
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Core/String/Algorithms/Kmp.h b/include/Caitlyn/__Core/String/Algorithms/Kmp.h
index daf313b..9b87377 100644
--- a/include/Caitlyn/__Core/String/Algorithms/Kmp.h
+++ b/include/Caitlyn/__Core/String/Algorithms/Kmp.h
@@ -49,6 +49,10 @@ inline bool kmp(const std::string& pattern, const std::string& text)
 {
     const size_t text_size = text.size();
     const size_t pattern_size = pattern.size();
+    if (pattern_size == 0)
+    {
+        return true;
+    }
     const auto failure = __Detail::get_kmp_failure_vec(pattern);
 
     for (size_t i = 0, j = 0; i < text_size; ++i)
diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 28e0d95..e474bfd 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -380,15 +380,20 @@ public:
     // Method to check if the string contains a given substring
     bool Contains(const String& substring) const
     {
-        return std::search(data_.begin(), data_.end(), substring.begin(), substring.end()) != data_.end();
+        return substring.IsEmpty() ||
+               std::search(data_.begin(), data_.end(), substring.begin(), substring.end()) != data_.end();
     }
 
     // Method to find the first occurrence of a substring
     SizeType Find(const String& substr, const SizeType pos = 0) const
     {
+        if (pos > size())
+        {
+            return NPosition;
+        }
         const auto it =
             std::search(data_.begin() + static_cast<DifferenceType>(pos), data_.end(), substr.begin(), substr.end());
-        return (it != data_.end()) ? std::distance(data_.begin(), it) : NPosition;
+        return (it != data_.end() || substr.IsEmpty()) ? std::distance(data_.begin(), it) : NPosition;
     }
 
     // Method to find the last occurrence of a substring
@@ -398,6 +403,10 @@ public:
         {
             return NPosition;
         }
+        if (substr.IsEmpty())
+        {
+            return std::min(pos, size());
+        }
         if (pos >= size())
         {
             pos = size() - 1;
@@ -407,7 +416,7 @@ public:
             data_.rend(),
             substr.rbegin(),
             substr.rend());
-        return (it != data_.rend()) ? size() - 1 - std::distance(data_.rbegin(), it) : NPosition;
+        return (it != data_.rend()) ? size() - substr.size() - std::distance(data_.rbegin(), it) : NPosition;
     }
 
     // Substring method
@@ -437,6 +446,10 @@ public:
     template <typename Predicate>
     SizeType FindIf(Predicate pred, const SizeType pos = 0) const
     {
+        if (pos > size())
+        {
+            return NPosition;
+        }
         auto it = std::find_if(data_.begin() + static_cast<DifferenceType>(pos), data_.end(), pred);
         return (it != data_.end()) ? std::distance(data_.begin(), it) : NPosition;
     }
@@ -445,6 +458,10 @@ public:
     template <typename Predicate>
     SizeType FindIfNot(Predicate pred, const SizeType pos = 0) const
     {
+        if (pos > size())
+        {
+            return NPosition;
+        }
         auto it = std::find_if_not(data_.begin() + static_cast<DifferenceType>(pos), data_.end(), pred);
         return (it != data_.end()) ? std::distance(data_.begin(), it) : NPosition;
     }
-- 
2.43.0


From 747aa97e69a0b8d345cd79c52ffaff5f2d76bea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:37 +0000
Subject: [PATCH 05/70] fix: argument selection and bounds in String::Format

{N:spec} used the automatic index, {:spec} always used the first argument, missing arguments and an empty
specification were read out of bounds, and {:f} dropped every decimal.
---
 include/Caitlyn/__Core/String/String.h | 39 +++++++++++++++++---------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index e474bfd..908f1c5 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -621,7 +621,7 @@ public:
                         {
                             throw Formatter::FormatError{"Invalid argument index"};
                         }
-                        if (arg_index > arguments.size() - 1)
+                        if (arg_index >= arguments.size())
                         {
                             throw Formatter::FormatError{"Argument index out of range"};
                         }
@@ -632,7 +632,7 @@ public:
                             if (format_spec[0] == Def::Colon)
                             {
                                 auto parsed_spec = Formatter::MakeSpacifier(format_spec);
-                                result << Formatter::Process(arguments[auto_index], parsed_spec).str();
+                                result << Formatter::Process(arguments[arg_index], parsed_spec).str();
                             }
                         }
                         else
@@ -643,19 +643,12 @@ public:
                     else if (spec.NotEmpty() && spec[spec_begin] == Def::Colon)
                     {
                         auto parsed_spec = Formatter::MakeSpacifier(spec);
+                        arg_index = Formatter::NextIndex(arguments, auto_index);
                         result << Formatter::Process(arguments[arg_index], parsed_spec).str();
                     }
-                    else if (arguments.size() == 1)
-                    {
-                        result << arguments[0].str();
-                    }
-                    else if (arguments.size() > 1)
-                    {
-                        result << arguments[auto_index++].str();
-                    }
                     else
                     {
-                        throw Formatter::FormatError{"Missing argument index in format string"};
+                        result << arguments[Formatter::NextIndex(arguments, auto_index)].str();
                     }
                     pos = end + 1;
                 }
@@ -775,6 +768,17 @@ private:
         }
 
     public:
+        // A single argument serves every automatic placeholder
+        static SizeType NextIndex(const std::vector<String>& arguments, SizeType& auto_index)
+        {
+            const SizeType index = arguments.size() == 1 ? 0 : auto_index++;
+            if (index >= arguments.size())
+            {
+                throw FormatError{"Missing argument index in format string"};
+            }
+            return index;
+        }
+
         static void SetFill(const String& config, FormatSpecifier& spec, SizeType& pos)
         {
             spec.fill = config[pos++];
@@ -782,6 +786,10 @@ private:
 
         static void ParseAlignment(const String& config, FormatSpecifier& spec, SizeType& pos)
         {
+            if (pos >= config.size())
+            {
+                return;
+            }
             if (pos + 1 < config.size() &&
                 (config[pos + 1] == Def::LessThanSign || config[pos + 1] == Def::GreaterThanSign ||
                  config[pos + 1] == Def::CircumflexAccent))
@@ -930,12 +938,17 @@ private:
             std::ostringstream oss;
             const auto dot_index = value.Find(Def::FullStop);
 
-            if (dot_index != NPosition)
+            if (spec.precision < 0)
             {
-                oss << value.Substring(0, dot_index + 1).str();
+                oss << value.str();
+            }
+            else if (dot_index != NPosition)
+            {
+                oss << value.Substring(0, dot_index).str();
 
                 if (spec.precision > 0)
                 {
+                    oss << Def::FullStop;
                     const SizeType limit = dot_index + 1 + spec.precision;
                     SizeType index = dot_index + 1;
 
-- 
2.43.0


From d47cc94a94ef49e044823ea8cae18a4c5fdd0403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:37 +0000
Subject: [PATCH 06/70] fix: Repeat zero times and FindLastNonSpace on short
 strings

Repeat(s, 0) returned s; FindLastNonSpace underflowed on empty text and never looked at the first character.
---
 include/Caitlyn/__Core/String/Utility.h | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/Caitlyn/__Core/String/Utility.h b/include/Caitlyn/__Core/String/Utility.h
index 1533432..9e2403c 100644
--- a/include/Caitlyn/__Core/String/Utility.h
+++ b/include/Caitlyn/__Core/String/Utility.h
@@ -42,10 +42,6 @@ inline std::vector<std::string> Split(const std::string& text, const char delim)
 
 inline std::string Repeat(const std::string& str, const size_t count)
 {
-    if (count < 2)
-    {
-        return str;
-    }
     std::stringstream ss;
     for (size_t i = 0; i < count; ++i)
     {
@@ -166,11 +162,11 @@ inline size_t FindFirstNonSpace(const String& str)
 
 inline size_t FindLastNonSpace(const String& str)
 {
-    for (size_t i = str.size() - 1; i > 0; --i)
+    for (size_t i = str.size(); i > 0; --i)
     {
-        if (!IsSpace(str[i].GetCodePoint()))
+        if (!IsSpace(str[i - 1].GetCodePoint()))
         {
-            return i;
+            return i - 1;
         }
     }
     return str.size();
-- 
2.43.0


From f34da11c679f493dd89fc4854cfa3e759dd48d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:37 +0000
Subject: [PATCH 07/70] fix: appending to a copied StringBuilder

The copied stream was positioned at its start, so the next append overwrote the copied text.
---
 include/Caitlyn/__Core/String/StringBuilder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/String/StringBuilder.h b/include/Caitlyn/__Core/String/StringBuilder.h
index abd42e6..7b9737c 100644
--- a/include/Caitlyn/__Core/String/StringBuilder.h
+++ b/include/Caitlyn/__Core/String/StringBuilder.h
@@ -51,7 +51,7 @@ public:
         data_ << String::Format(str, std::forward<Args>(args)...);
     }
 
-    StringBuilder(const StringBuilder& other) : data_{other.data_.str()}
+    StringBuilder(const StringBuilder& other) : data_{other.data_.str(), std::ios_base::ate}
     {
     }
 
-- 
2.43.0


From 9ff3618cb1bc40a8436b1206af404d23ab62a0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:12 +0000
Subject: [PATCH 08/70] fix: unicode and invalid escapes in EscapeString

\uXXXX was truncated to one byte or threw, and the character after an unknown escape was written twice.
---
 include/Caitlyn/__Core/String/Utility.h | 62 +++++++++++++++++++++++--
 1 file changed, 57 insertions(+), 5 deletions(-)

diff --git a/include/Caitlyn/__Core/String/Utility.h b/include/Caitlyn/__Core/String/Utility.h
index 9e2403c..2b6c7b4 100644
--- a/include/Caitlyn/__Core/String/Utility.h
+++ b/include/Caitlyn/__Core/String/Utility.h
@@ -50,6 +50,56 @@ inline std::string Repeat(const std::string& str, const size_t count)
     return ss.str();
 }
 
+__CAITLYN_DETAIL_NAMESPACE_BEGIN
+
+// Reads the four hexadecimal digits starting at pos
+inline bool ReadHexDigits(const String& str, const size_t pos, CodePoint& value)
+{
+    value = 0;
+    for (size_t i = pos; i < pos + 4; ++i)
+    {
+        if (i >= str.size())
+        {
+            return false;
+        }
+        const CodePoint c = str[i].GetCodePoint();
+        if (c >= 0x30 && c <= 0x39)
+        {
+            value = value * 16 + (c - 0x30);
+        }
+        else if ((c >= 0x41 && c <= 0x46) || (c >= 0x61 && c <= 0x66))
+        {
+            value = value * 16 + ((c & 0x0F) + 9);
+        }
+        else
+        {
+            return false;
+        }
+    }
+    return true;
+}
+
+// Reads the digits of a \u escape starting at pos (and the low half of a surrogate pair) and moves pos past them
+inline bool ReadUnicodeEscape(const String& str, size_t& pos, CodePoint& value)
+{
+    if (!ReadHexDigits(str, pos, value))
+    {
+        return false;
+    }
+    pos += 4;
+
+    CodePoint low;
+    if (value >= 0xD800 && value <= 0xDBFF && pos + 1 < str.size() && str[pos] == Def::ReverseSolidus &&
+        str[pos + 1] == Def::LatinSmallLetterU && ReadHexDigits(str, pos + 2, low) && low >= 0xDC00 && low <= 0xDFFF)
+    {
+        value = 0x10000 + ((value - 0xD800) << 10) + (low - 0xDC00);
+        pos += 6;
+    }
+    return true;
+}
+
+__CAITLYN_DETAIL_NAMESPACE_END
+
 inline String EscapeString(const String& str)
 {
     std::ostringstream oss;
@@ -115,23 +165,25 @@ inline String EscapeString(const String& str)
             }
             else if (str[i + 1] == Def::LatinSmallLetterU)
             {
-                if (i + 5 < str.size())
+                size_t next = i + 2;
+                CodePoint codePoint;
+                if (__Detail::ReadUnicodeEscape(str, next, codePoint))
                 {
-                    auto hex = str.Substring(i + 2, 4).str();
-                    // Convert the hexadecimal representation to a character
-                    oss << static_cast<char>(std::stoi(hex, nullptr, 16));
-                    i += 5; // Skip the escaped sequence
+                    oss << Char{codePoint};
+                    i = next - 1; // Skip the escaped sequence
                 }
                 else
                 {
                     // Incomplete escape sequence, handle it as an error
                     oss << Def::ReverseSolidus << str[i + 1];
+                    ++i;
                 }
             }
             else
             {
                 // Invalid escape sequence, handle it as an error
                 oss << Def::ReverseSolidus << str[i + 1];
+                ++i;
             }
         }
         else
-- 
2.43.0


From d4fdc99e9c33fc3a714bd2f1c8803fcc3b027b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 09/70] fix: BigInteger arithmetic and ordering with negative
 numbers

Sums and differences of mixed signs lost their sign or produced a negative zero, two negative numbers compared the wrong
way round and subtracted with the wrong sign, and a zero remainder of a negative dividend printed as -0.
---
 include/Caitlyn/__Numeric/Types/BigInteger.h | 27 ++++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/include/Caitlyn/__Numeric/Types/BigInteger.h b/include/Caitlyn/__Numeric/Types/BigInteger.h
index 6daacbe..ed094ac 100644
--- a/include/Caitlyn/__Numeric/Types/BigInteger.h
+++ b/include/Caitlyn/__Numeric/Types/BigInteger.h
@@ -142,10 +142,13 @@ public:
 
         if (abs_this.GreaterThan(abs_other))
         {
-            return abs_this.Subtract(abs_other);
+            BigInteger result = abs_this.Subtract(abs_other);
+            result.is_negative_ = is_negative_;
+            return result;
         }
         BigInteger result = abs_other.Subtract(abs_this);
         result.is_negative_ = other.is_negative_;
+        result.RemoveLeadingZeros();
         return result;
     }
 
@@ -153,17 +156,18 @@ public:
     {
         if (this->is_negative_ != other.is_negative_)
         {
-            BigInteger result = Add(other);
-            result.is_negative_ = this->is_negative_;
-            return result;
+            BigInteger negated = other;
+            negated.is_negative_ = this->is_negative_;
+            return Add(negated);
         }
         if (Equal(other))
         {
             return BigInteger{"0"};
         }
         const bool result_is_negative = LessThan(other);
-        const BigInteger& larger = result_is_negative ? other : *this;
-        const BigInteger& smaller = result_is_negative ? *this : other;
+        const bool other_is_larger = result_is_negative != is_negative_;
+        const BigInteger& larger = other_is_larger ? other : *this;
+        const BigInteger& smaller = other_is_larger ? *this : other;
 
         BigInteger result;
         result.is_negative_ = result_is_negative;
@@ -258,12 +262,7 @@ public:
 
     BigInteger Modulo(const BigInteger& other) const
     {
-        BigInteger result = Subtract(Divide(other).Multiply(other));
-        if (result.is_negative_ != is_negative_)
-        {
-            result.is_negative_ = is_negative_;
-        }
-        return result;
+        return Subtract(Divide(other).Multiply(other));
     }
 
 public:
@@ -353,13 +352,13 @@ public:
         }
         if (digits_.size() != other.digits_.size())
         {
-            return digits_.size() < other.digits_.size();
+            return (digits_.size() < other.digits_.size()) != is_negative_;
         }
         for (SizeType i = digits_.size(); i > 0; --i)
         {
             if (digits_[i - 1] != other.digits_[i - 1])
             {
-                return digits_[i - 1] < other.digits_[i - 1];
+                return (digits_[i - 1] < other.digits_[i - 1]) != is_negative_;
             }
         }
         return false;
-- 
2.43.0


From e979a9ebd275e3ce774858407501c735898a7c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 10/70] fix: reject a bare sign and non-ASCII digits in
 BigInteger

A lone sign was accepted as zero, and digits of other scripts were stored as out-of-range digit values.
---
 include/Caitlyn/__Numeric/Types/BigInteger.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Numeric/Types/BigInteger.h b/include/Caitlyn/__Numeric/Types/BigInteger.h
index ed094ac..6c51d7e 100644
--- a/include/Caitlyn/__Numeric/Types/BigInteger.h
+++ b/include/Caitlyn/__Numeric/Types/BigInteger.h
@@ -68,9 +68,13 @@ public:
                 start = 1;
             }
         }
+        if (start == number.size())
+        {
+            throw std::invalid_argument{"Invalid number format"};
+        }
         for (SizeType i = start; i < number.size(); ++i)
         {
-            if (!IsDigit(number[i].GetCodePoint()))
+            if (ToDigit(number[i].GetCodePoint()) < 0)
             {
                 throw std::invalid_argument{"Invalid number format"};
             }
-- 
2.43.0


From 23489171599b2b7dd626d964244fbda9086f3ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:53 +0000
Subject: [PATCH 11/70] fix: BigFloat fractional zeros, signs and carries

---
 include/Caitlyn/__Numeric/Types/BigFloat.h | 249 ++++++---------------
 1 file changed, 67 insertions(+), 182 deletions(-)

diff --git a/include/Caitlyn/__Numeric/Types/BigFloat.h b/include/Caitlyn/__Numeric/Types/BigFloat.h
index 0d9027a..854a18b 100644
--- a/include/Caitlyn/__Numeric/Types/BigFloat.h
+++ b/include/Caitlyn/__Numeric/Types/BigFloat.h
@@ -47,34 +47,28 @@ public:
         size_t point_pos = number.Find(Def::FullStop);
         if (point_pos == String::NPosition)
         {
-            integerPart_ = BigInteger{number};
+            value_ = BigInteger{number};
         }
         else
         {
             String integer_str = number.Substring(0, point_pos);
-            String fractional_str = number.Substring(point_pos + 1);
+            const String fractional_str = number.Substring(point_pos + 1);
 
             if (integer_str.IsEmpty())
             {
                 integer_str = Def::DigitZero;
             }
-            if (fractional_str.IsEmpty())
-            {
-                fractional_str = Def::DigitZero;
-            }
-            integerPart_ = BigInteger{integer_str};
-            fractionalPart_ = BigInteger{fractional_str};
+            value_ = BigInteger{integer_str + fractional_str};
+            scale_ = fractional_str.size();
+            RemoveTrailingZeros();
         }
     }
 
     BigFloat(const BigFloat& other) = default;
 
-    BigFloat(BigFloat&& other) noexcept
-        : integerPart_(std::move(other.integerPart_)),
-          fractionalPart_(std::move(other.fractionalPart_)),
-          isNegative_(other.isNegative_)
+    BigFloat(BigFloat&& other) noexcept : value_(std::move(other.value_)), scale_(other.scale_)
     {
-        other.isNegative_ = false;
+        other.scale_ = 0;
     }
 
 public:
@@ -82,9 +76,8 @@ public:
     {
         if (this != &other)
         {
-            integerPart_ = other.integerPart_;
-            fractionalPart_ = other.fractionalPart_;
-            isNegative_ = other.isNegative_;
+            value_ = other.value_;
+            scale_ = other.scale_;
         }
         return *this;
     }
@@ -93,10 +86,9 @@ public:
     {
         if (this != &other)
         {
-            integerPart_ = std::move(other.integerPart_);
-            fractionalPart_ = std::move(other.fractionalPart_);
-            isNegative_ = other.isNegative_;
-            other.isNegative_ = false;
+            value_ = std::move(other.value_);
+            scale_ = other.scale_;
+            other.scale_ = 0;
         }
         return *this;
     }
@@ -104,96 +96,19 @@ public:
 public:
     BigFloat Add(const BigFloat& other) const
     {
-        BigInteger this_fractional = fractionalPart_;
-        BigInteger other_fractional = other.fractionalPart_;
-
-        // Normalize fractional part lengths by adding leading zeros
-        while (this_fractional.Size() < other_fractional.Size())
-        {
-            this_fractional = this_fractional.Multiply(BigInteger{"10"});
-        }
-        while (other_fractional.Size() < this_fractional.Size())
-        {
-            other_fractional = other_fractional.Multiply(BigInteger{"10"});
-        }
-        BigInteger fractional_result = this_fractional.Add(other_fractional);
-        bool carry = false;
-
-        // If the result of fractional addition exceeds the fractional limit, carry
-        // over to integer part
-        if (fractional_result.Size() > this_fractional.Size())
-        {
-            carry = true;
-            fractional_result = fractional_result.Subtract(BigInteger{"10"}.Multiply(this_fractional.Size()));
-        }
-        BigInteger integer_result = integerPart_.Add(other.integerPart_);
-        if (carry)
-        {
-            integer_result = integer_result.Add(BigInteger{Def::DigitOne});
-        }
-        return BigFloat{integer_result.ToString() + Def::FullStop + fractional_result.ToString()};
+        const SizeType scale = std::max(scale_, other.scale_);
+        return BigFloat{Scaled(scale).Add(other.Scaled(scale)), scale};
     }
 
     BigFloat Subtract(const BigFloat& other) const
     {
-        BigInteger this_fractional = fractionalPart_;
-        BigInteger other_fractional = other.fractionalPart_;
-
-        // Normalize fractional part lengths by adding leading zeros
-        while (this_fractional.Size() < other_fractional.Size())
-        {
-            this_fractional = this_fractional.Multiply(BigInteger{"10"});
-        }
-        while (other_fractional.Size() < this_fractional.Size())
-        {
-            other_fractional = other_fractional.Multiply(BigInteger{"10"});
-        }
-
-        bool borrow = false;
-        if (this_fractional.LessThan(other_fractional))
-        {
-            borrow = true;
-            this_fractional = this_fractional.Add(BigInteger{"10"}.Multiply(this_fractional.Size()));
-        }
-        const BigInteger fractional_result = this_fractional.Subtract(other_fractional);
-
-        BigInteger integer_result = integerPart_.Subtract(other.integerPart_);
-        if (borrow)
-        {
-            integer_result = integer_result.Subtract(BigInteger{"1"});
-        }
-        return BigFloat{integer_result.ToString() + "." + fractional_result.ToString()};
+        const SizeType scale = std::max(scale_, other.scale_);
+        return BigFloat{Scaled(scale).Subtract(other.Scaled(scale)), scale};
     }
 
     BigFloat Multiply(const BigFloat& other) const
     {
-        // Convert both numbers to their full string representation without the
-        // decimal point
-        const String this_full = integerPart_.ToString() + fractionalPart_.ToString();
-        const String other_full = other.integerPart_.ToString() + other.fractionalPart_.ToString();
-
-        // Count the number of digits after the decimal point in both numbers
-        const size_t this_frac_size = fractionalPart_.Size();
-        const size_t other_frac_size = other.fractionalPart_.Size();
-
-        // Perform the multiplication on the full strings
-        const BigInteger result_full = BigInteger{this_full}.Multiply(BigInteger{other_full});
-
-        // The total number of fractional digits in the result
-        const size_t total_frac_size = this_frac_size + other_frac_size;
-
-        // Convert the result back to a string
-        String result_str = result_full.ToString();
-
-        // Insert the decimal point at the correct position
-        if (total_frac_size >= result_str.size())
-        {
-            result_str.Insert(0, String(total_frac_size - result_str.size() + 1, '0'));
-        }
-        result_str.Insert(result_str.size() - total_frac_size, 1, '.');
-
-        // Construct and return the BigFloat result
-        return BigFloat{result_str};
+        return BigFloat{value_.Multiply(other.value_), scale_ + other.scale_};
     }
 
     BigFloat Divide(const BigFloat& other) const
@@ -202,42 +117,16 @@ public:
         {
             throw std::invalid_argument{"Division by zero"};
         }
-        // Convert both numbers to their full string representation without the
-        // decimal point
-        const String this_full = integerPart_.ToString() + fractionalPart_.ToString();
-
-        const String other_full = other.integerPart_.ToString() + other.fractionalPart_.ToString();
-
-        // Count the number of digits after the decimal point in both numbers
-        const size_t this_frac_size = fractionalPart_.Size();
-        const size_t other_frac_size = other.fractionalPart_.Size();
-
-        // Perform the division on the full strings
-        const BigInteger result_full = BigInteger{this_full}.Divide(BigInteger{other_full});
-
-        // The total number of fractional digits in the result
-        const size_t total_frac_size = this_frac_size - other_frac_size;
-
-        // Convert the result back to a string
-        String result_str = result_full.ToString();
-
-        // Insert the decimal point at the correct position
-        if (total_frac_size >= result_str.size())
-        {
-            result_str.Insert(0, String(total_frac_size - result_str.size() + 1, '0'));
-        }
-        result_str.Insert(result_str.size() - total_frac_size, 1, '.');
-
-        // Construct and return the BigFloat result
-        return BigFloat{result_str};
+        // The quotient keeps as many fractional digits as the dividend has more
+        // than the divisor
+        const SizeType scale = std::max(scale_, other.scale_);
+        return BigFloat{Scaled(scale).Divide(other.value_), scale - other.scale_};
     }
 
 public:
     BigFloat Abs() const
     {
-        BigFloat result = *this;
-        result.isNegative_ = false;
-        return result;
+        return BigFloat{value_.Abs(), scale_};
     }
 
     BigFloat Pow(int exponent) const
@@ -268,7 +157,7 @@ public:
 
     BigFloat Sqrt() const
     {
-        if (isNegative_)
+        if (value_.LessThan(BigInteger{"0"}))
         {
             throw std::invalid_argument{"Square root of negative number"};
         }
@@ -276,57 +165,24 @@ public:
         {
             return *this;
         }
-        BigFloat low{"1"};
-        BigFloat high = *this;
-        BigFloat squared{};
-
-        while (low.LessThan(high) || low.Equal(high))
-        {
-            BigFloat mid = low.Add(high).Divide(BigFloat{"2"});
-            squared = mid.Sqr();
-            if (squared.Equal(*this))
-            {
-                return mid;
-            }
-            if (squared.LessThan(*this))
-            {
-                low = mid.Add(BigFloat{"1"});
-            }
-            else
-            {
-                high = mid.Subtract(BigFloat{"1"});
-            }
-        }
-        return high;
+        return BigFloat{Scaled(scale_ * 2).Sqrt(), scale_};
     }
 
 public:
     SizeType Size() const
     {
-        return integerPart_.Size() + fractionalPart_.Size();
+        return std::max(value_.Size(), scale_);
     }
 
     bool Equal(const BigFloat& other) const
     {
-        return integerPart_.Equal(other.integerPart_) && fractionalPart_.Equal(other.fractionalPart_) &&
-               isNegative_ == other.isNegative_;
+        return value_.Equal(other.value_) && scale_ == other.scale_;
     }
 
     bool LessThan(const BigFloat& other) const
     {
-        if (isNegative_ != other.isNegative_)
-        {
-            return isNegative_;
-        }
-        if (integerPart_.LessThan(other.integerPart_))
-        {
-            return true;
-        }
-        if (integerPart_.GreaterThan(other.integerPart_))
-        {
-            return false;
-        }
-        return fractionalPart_.LessThan(other.fractionalPart_);
+        const SizeType scale = std::max(scale_, other.scale_);
+        return Scaled(scale).LessThan(other.Scaled(scale));
     }
 
     bool GreaterThan(const BigFloat& other) const
@@ -336,26 +192,55 @@ public:
 
     String ToString() const
     {
-        String result = integerPart_.ToString();
-        if (!fractionalPart_.ToString().IsEmpty() && fractionalPart_.ToString() != "0")
+        String result = value_.Abs().ToString();
+        if (scale_ > 0)
         {
-            result.PushBack('.');
-            result += fractionalPart_.ToString();
+            // Insert the decimal point at the correct position
+            if (scale_ >= result.size())
+            {
+                result.Insert(0, String(scale_ - result.size() + 1, '0'));
+            }
+            result.Insert(result.size() - scale_, 1, '.');
+        }
+        if (value_.LessThan(BigInteger{"0"}))
+        {
+            result.Insert(0, 1, '-');
         }
         return result;
     }
 
 private:
-    void RemoveLeadingZeros()
+    BigFloat(const BigInteger& value, const SizeType scale) : value_(value), scale_(scale)
     {
-        integerPart_.RemoveLeadingZeros();
-        fractionalPart_.RemoveLeadingZeros();
+        RemoveTrailingZeros();
+    }
+
+    // Returns the number multiplied by ten to the power of scale
+    BigInteger Scaled(const SizeType scale) const
+    {
+        return scale == scale_ ? value_ : value_.Multiply(BigInteger{String{"1"} + String(scale - scale_, '0')});
+    }
+
+    void RemoveTrailingZeros()
+    {
+        String digits = value_.ToString();
+        SizeType size = digits.size();
+        while (scale_ > 0 && size > 1 && digits[size - 1] == '0')
+        {
+            --size;
+            --scale_;
+        }
+        value_ = BigInteger{digits.Substring(0, size)};
+        if (value_.Size() == 0)
+        {
+            scale_ = 0;
+        }
     }
 
 private:
-    BigInteger integerPart_;
-    BigInteger fractionalPart_;
-    SignFlag isNegative_ = false;
+    // The number is value_ divided by ten to the power of scale_
+    BigInteger value_;
+    SizeType scale_ = 0;
 };
 
 __CAITLYN_GLOBAL_NAMESPACE_END
-- 
2.43.0


From f87d8a4d33d1835a7388c2b756470858b694b003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:00 +0000
Subject: [PATCH 12/70] fix: BigInteger.h does not compile without <cstdint>

---
 include/Caitlyn/__Numeric/Types/BigInteger.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Caitlyn/__Numeric/Types/BigInteger.h b/include/Caitlyn/__Numeric/Types/BigInteger.h
index 6c51d7e..183be18 100644
--- a/include/Caitlyn/__Numeric/Types/BigInteger.h
+++ b/include/Caitlyn/__Numeric/Types/BigInteger.h
@@ -19,6 +19,7 @@
 #define CAITLYN_NUMERIC_TYPES_BIGINTEGER_H_
 
 #include <algorithm>
+#include <cstdint>
 #include <stdexcept>
 #include <string>
 #include <vector>
-- 
2.43.0


From 6be658d7e2032978b9f7e2e509ac9f641a927019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:02 +0000
Subject: [PATCH 13/70] fix: out of bounds reads and trailing content in
 JsonParser

---
 .../__Serializing/Json/Types/JsonParser.h     | 39 ++++++++++++-------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 4f39650..a0b0b97 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -42,7 +42,7 @@ public:
         const auto first = FindFirstNonSpace(json);
         const auto last = FindLastNonSpace(json);
 
-        if (json[first] != Def::LeftCurlyBracket)
+        if (first == json.size() || json[first] != Def::LeftCurlyBracket)
         {
             parser.SetError(JsonError::InvalidJson);
             parser.SetErrorPosition(first);
@@ -55,6 +55,12 @@ public:
             return parser;
         }
         parser.data_ = parser.ParseValue();
+        parser.SkipSpace();
+        if (!parser.HasError() && parser.position_ < json.size())
+        {
+            parser.SetError(JsonError::UnexpectedCharacter);
+            parser.SetErrorPosition(parser.position_);
+        }
         return parser;
     }
 
@@ -74,7 +80,7 @@ public:
     }
 
 private:
-    JsonParser(const String& json) : error_{JsonError::NoError}, json_{json}, position_{}
+    JsonParser(const String& json) : error_{JsonError::NoError}, json_{json}, position_{}, errorPosition_{}
     {
     }
 
@@ -84,6 +90,8 @@ private:
 
         if (position_ >= json_.size())
         {
+            SetError(JsonError::InvalidValue);
+            SetErrorPosition(position_);
             return JsonData{};
         }
         const auto current_char = json_[position_];
@@ -127,12 +135,12 @@ private:
         {
             SkipSpace();
 
-            if (json_[position_] == Def::RightCurlyBracket)
+            if (IsCurrent(Def::RightCurlyBracket))
             {
                 Next();
                 return result;
             }
-            if (json_[position_] == Def::QuotationMark)
+            if (IsCurrent(Def::QuotationMark))
             {
                 Next();
                 const auto key_end = json_.Find(Def::QuotationMark, position_);
@@ -147,7 +155,7 @@ private:
                 position_ = key_end + 1;
 
                 SkipSpace();
-                if (json_[position_] != Def::Colon)
+                if (!IsCurrent(Def::Colon))
                 {
                     SetError(JsonError::MissingColon);
                     SetErrorPosition(position_);
@@ -158,19 +166,19 @@ private:
                 result[key] = ParseValue();
 
                 SkipSpace();
-                if (json_[position_] == Def::Comma)
+                if (IsCurrent(Def::Comma))
                 {
                     Next();
                     SkipSpace();
 
-                    if (json_[position_] == Def::RightCurlyBracket)
+                    if (IsCurrent(Def::RightCurlyBracket))
                     {
                         SetError(JsonError::TrailingComma);
                         SetErrorPosition(position_);
                         return JsonData{};
                     }
                 }
-                else if (json_[position_] == Def::RightCurlyBracket)
+                else if (IsCurrent(Def::RightCurlyBracket))
                 {
                     Next();
                     return result;
@@ -204,7 +212,7 @@ private:
         {
             SkipSpace();
 
-            if (json_[position_] == Def::RightSquareBracket)
+            if (IsCurrent(Def::RightSquareBracket))
             {
                 Next();
                 return result;
@@ -213,19 +221,19 @@ private:
             result.Append(value);
 
             SkipSpace();
-            if (json_[position_] == Def::Comma)
+            if (IsCurrent(Def::Comma))
             {
                 Next();
                 SkipSpace();
 
-                if (json_[position_] == Def::RightSquareBracket)
+                if (IsCurrent(Def::RightSquareBracket))
                 {
                     SetError(JsonError::TrailingComma);
                     SetErrorPosition(position_);
                     return JsonData{};
                 }
             }
-            else if (json_[position_] == Def::RightSquareBracket)
+            else if (IsCurrent(Def::RightSquareBracket))
             {
                 Next();
                 return result;
@@ -334,7 +342,7 @@ private:
             }
             Next();
         }
-        if (json_[position_] == Def::QuotationMark)
+        if (IsCurrent(Def::QuotationMark))
         {
             Next();
             return escaped_stream.str();
@@ -402,6 +410,11 @@ private:
         return result;
     }
 
+    bool IsCurrent(const Char& character) const
+    {
+        return position_ < json_.size() && json_[position_] == character;
+    }
+
     void SkipSpace()
     {
         while (position_ < json_.size() && IsSpace(json_[position_].GetCodePoint()))
-- 
2.43.0


From a5e4af992142bec1ce51bf223bab097ef90b967e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:02 +0000
Subject: [PATCH 14/70] fix: JSON literals after multibyte characters

---
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index a0b0b97..3593b53 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -252,7 +252,7 @@ private:
 
     JsonData ParseNull()
     {
-        if (json_.str().compare(position_, 4, String::ValueOf(nullptr)) == 0)
+        if (json_.Substring(position_, 4) == String::ValueOf(nullptr))
         {
             Next(4);
             return MakeNull();
@@ -354,12 +354,12 @@ private:
 
     JsonData ParseBoolean()
     {
-        if (json_.str().compare(position_, 4, String::ValueOf(true)) == 0)
+        if (json_.Substring(position_, 4) == String::ValueOf(true))
         {
             Next(4);
             return true;
         }
-        if (json_.str().compare(position_, 5, String::ValueOf(false)) == 0)
+        if (json_.Substring(position_, 5) == String::ValueOf(false))
         {
             Next(5);
             return false;
-- 
2.43.0


From 70ae6b6d2ff0e8c78a5f8fa1b1fdcc1b98371aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:20 +0000
Subject: [PATCH 15/70] fix: escape sequences in JSON strings and keys

---
 .../__Serializing/Json/Types/JsonParser.h     | 35 +++++++------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 3593b53..7d155e3 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -142,17 +142,12 @@ private:
             }
             if (IsCurrent(Def::QuotationMark))
             {
-                Next();
-                const auto key_end = json_.Find(Def::QuotationMark, position_);
-
-                if (key_end == String::NPosition)
+                const auto key_data = ParseString();
+                if (HasError())
                 {
-                    SetError(JsonError::UnterminatedString);
-                    SetErrorPosition(position_);
                     return JsonData{};
                 }
-                String key = json_.Substring(position_, key_end - position_);
-                position_ = key_end + 1;
+                const String key = key_data.GetString();
 
                 SkipSpace();
                 if (!IsCurrent(Def::Colon))
@@ -286,6 +281,10 @@ private:
                 {
                     escaped_stream << Def::ReverseSolidus;
                 }
+                else if (json_[position_] == Def::Solidus)
+                {
+                    escaped_stream << Def::Solidus;
+                }
                 else if (json_[position_] == Def::LatinSmallLetterB)
                 {
                     escaped_stream << Def::Backspace;
@@ -308,25 +307,16 @@ private:
                 }
                 else if (json_[position_] == Def::LatinSmallLetterU)
                 {
-                    if (position_ + 4 >= json_.size())
-                    {
-                        SetError(JsonError::InvalidEscapeSequence);
-                        SetErrorPosition(position_);
-                        return JsonData{};
-                    }
-                    String hex_code = json_.Substring(position_ + 1, 4);
-                    try
-                    {
-                        const uint32_t code_point = std::stoul(hex_code.str(), nullptr, 16);
-                        escaped_stream << static_cast<char>(code_point);
-                    }
-                    catch (const std::exception&)
+                    auto next = position_ + 1;
+                    CodePoint code_point;
+                    if (!Caitlyn::__Detail::ReadUnicodeEscape(json_, next, code_point))
                     {
                         SetError(JsonError::InvalidEscapeSequence);
                         SetErrorPosition(position_);
                         return JsonData{};
                     }
-                    position_ += 4;
+                    escaped_stream << Char{code_point};
+                    position_ = next - 1;
                 }
                 else
                 {
@@ -334,7 +324,6 @@ private:
                     SetErrorPosition(position_);
                     return JsonData{};
                 }
-                Next();
             }
             else
             {
-- 
2.43.0


From 15519d25b2b076d0b35a7cc489bac20c1778bfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:40 +0000
Subject: [PATCH 16/70] fix: fractional and malformed numbers in JsonParser

---
 .../__Serializing/Json/Types/JsonParser.h     | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 7d155e3..ba49dc6 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -18,6 +18,10 @@
 #ifndef CAITLYN_SERIALIZING_JSON_TYPES_PARSER_H_
 #define CAITLYN_SERIALIZING_JSON_TYPES_PARSER_H_
 
+#include <cmath>
+#include <limits>
+#include <stdexcept>
+
 #include "Caitlyn/__Core/String.h"
 #include "Caitlyn/__Serializing/Json/Types/JsonData.h"
 #include "Caitlyn/__Serializing/Json/Types/JsonError.h"
@@ -372,15 +376,25 @@ private:
         const String number_str = json_.Substring(position_, end_number - position_);
         try
         {
-            if (number_str.Find(Def::PlusSign) != String::NPosition ||
+            SizeType parsed{};
+            if (number_str.Find(Def::FullStop) != String::NPosition ||
                 number_str.Find(Def::LatinSmallLetterE) != String::NPosition ||
                 number_str.Find(Def::LatinCapitalLetterE) != String::NPosition)
             {
-                result = std::stod(number_str.str());
+                const auto value = std::stod(number_str.str(), &parsed);
+                if (std::abs(value) > std::numeric_limits<JsonData::FloatingType>::max())
+                {
+                    throw std::out_of_range{"Number is out of range"};
+                }
+                result = static_cast<JsonData::FloatingType>(value);
             }
             else
             {
-                result = std::stoll(number_str.str());
+                result = std::stoll(number_str.str(), &parsed);
+            }
+            if (parsed != number_str.size())
+            {
+                throw std::invalid_argument{"Unexpected character in number"};
             }
         }
         catch (const std::out_of_range&)
-- 
2.43.0


From 8fe262bbffb8dd568c40c75ae78c119771f3c50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:40 +0000
Subject: [PATCH 17/70] fix: missing JSON error messages

---
 include/Caitlyn/__Serializing/Json/Utility.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Caitlyn/__Serializing/Json/Utility.h b/include/Caitlyn/__Serializing/Json/Utility.h
index b6a6ecc..52ef652 100644
--- a/include/Caitlyn/__Serializing/Json/Utility.h
+++ b/include/Caitlyn/__Serializing/Json/Utility.h
@@ -49,6 +49,10 @@ inline const char* GetErrorString(const JsonError error)
             return "Invalid value.";
         case JsonError::UnexpectedCharacter:
             return "Unexpected character.";
+        case JsonError::InvalidEscapeSequence:
+            return "Invalid escape sequence.";
+        case JsonError::OutOfRangeError:
+            return "Number is out of range.";
         case JsonError::TrailingComma:
             return "Trailing comma.";
         case JsonError::InvalidJson:
-- 
2.43.0


From 14e29dab5fc672f392bfd823a67c1fd72541b81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:07 +0000
Subject: [PATCH 18/70] fix: JsonData leaks, double use and self assignment

---
 .../Caitlyn/__Serializing/Json/Types/Json.h   | 14 ++++----
 .../__Serializing/Json/Types/JsonData.h       | 32 ++++++++++++-------
 2 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/Json.h b/include/Caitlyn/__Serializing/Json/Types/Json.h
index f4cff9a..ae38491 100644
--- a/include/Caitlyn/__Serializing/Json/Types/Json.h
+++ b/include/Caitlyn/__Serializing/Json/Types/Json.h
@@ -136,13 +136,13 @@ public:
         if (root_.HasMember(key))
         {
             auto& obj = root_.GetData();
-            obj.erase(
-                std::remove_if(
-                    obj.begin(),
-                    obj.end(),
-                    [&key](const std::pair<const String&, const DataType*>& pair)
-                    { return pair.first == key; }),
-                obj.end());
+            const auto it = std::find_if(
+                obj.begin(),
+                obj.end(),
+                [&key](const std::pair<const String&, const DataType*>& pair) { return pair.first == key; });
+            const auto* member = it->second;
+            obj.erase(it);
+            delete member;
         }
     }
 
diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index b5d8a48..a0e1a6d 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -101,9 +101,7 @@ public:
     {
         if (this != &other)
         {
-            DestroyUnion();
-            type_ = other.type_;
-            CopyUnion(other);
+            *this = JsonData{other};
         }
         return *this;
     }
@@ -112,9 +110,11 @@ public:
     {
         if (this != &other)
         {
+            // The source may be a part of the old value
+            JsonData value{std::move(other)};
             DestroyUnion();
-            type_ = other.type_;
-            MoveUnion(std::move(other));
+            type_ = value.type_;
+            MoveUnion(std::move(value));
         }
         return *this;
     }
@@ -174,13 +174,9 @@ public:
     {
         SetType(JsonClass::Array);
         auto& array = data_.array_value;
-        if (index >= array.size())
-        {
-            array.resize(index + 1, nullptr);
-        }
-        if (!array[index])
+        while (index >= array.size())
         {
-            new (array[index]) JsonData{};
+            array.emplace_back(new JsonData());
         }
         return *array[index];
     }
@@ -193,6 +189,10 @@ public:
 
     const JsonData& At(const StringType& key) const
     {
+        if (type_ != JsonClass::Object)
+        {
+            throw std::out_of_range{"Key not found"};
+        }
         const auto& object = data_.object_value;
         const auto it = std::find_if(
             object.begin(),
@@ -213,6 +213,10 @@ public:
 
     const JsonData& At(const SizeType index) const
     {
+        if (type_ != JsonClass::Array)
+        {
+            throw std::out_of_range{"Index out of range"};
+        }
         return *data_.array_value.at(index);
     }
 
@@ -525,13 +529,16 @@ private:
                 break;
             case JsonClass::Array:
                 new (&data_.array_value) ArrayType{std::move(other.data_.array_value)};
+                other.data_.array_value.clear();
                 break;
             case JsonClass::Object:
                 new (&data_.object_value) ObjectType{std::move(other.data_.object_value)};
+                other.data_.object_value.clear();
                 break;
             default:
                 break;
         }
+        other.DestroyUnion();
         other.type_ = JsonClass::Null;
         new (&other.data_.null_value) NullType{};
     }
@@ -554,6 +561,9 @@ private:
                 }
                 data_.object_value.~ObjectType();
                 break;
+            case JsonClass::String:
+                data_.string_value.~StringType();
+                break;
             default:
                 break;
         }
-- 
2.43.0


From f1f37ae2722dffd8a93cafa363128197515c5266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:07 +0000
Subject: [PATCH 19/70] fix: JSON values made from numbers, booleans and null

---
 .../Caitlyn/__Serializing/Json/Types/JsonData.h  | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index a0e1a6d..33c4bd0 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -51,6 +51,10 @@ public:
         new (&data_.null_value) NullType(nullptr);
     }
 
+    JsonData(NullType) : JsonData()
+    {
+    }
+
     JsonData(const JsonData& other) : type_(other.type_)
     {
         CopyUnion(other);
@@ -119,6 +123,12 @@ public:
         return *this;
     }
 
+    JsonData& operator=(NullType)
+    {
+        SetType(JsonClass::Null);
+        return *this;
+    }
+
     template <typename T>
     typename std::enable_if<std::is_same<T, BooleanType>::value, JsonData&>::type operator=(T value)
     {
@@ -664,17 +674,17 @@ inline __Detail::JsonData MakeString(const std::string& value)
 
 inline __Detail::JsonData MakeFloating(const __Detail::JsonData::FloatingType value)
 {
-    return __Detail::JsonData{std::to_string(value)};
+    return __Detail::JsonData{value};
 }
 
 inline __Detail::JsonData MakeIntegral(const __Detail::JsonData::IntegralType value)
 {
-    return __Detail::JsonData{std::to_string(value)};
+    return __Detail::JsonData{value};
 }
 
 inline __Detail::JsonData MakeBoolean(const __Detail::JsonData::BooleanType value)
 {
-    return __Detail::JsonData{std::to_string(value)};
+    return __Detail::JsonData{value};
 }
 
 __CAITLYN_JSON_NAMESPACE_END
-- 
2.43.0


From 20749b54215e87a59153ef6561e5799b35d21a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:07 +0000
Subject: [PATCH 20/70] fix: escape strings and keep real numbers in JSON
 output

---
 .../__Serializing/Json/Types/JsonData.h       | 60 ++++++++++++++++++-
 1 file changed, 57 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 33c4bd0..b13e208 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -19,7 +19,9 @@
 #define CAITLYN_SERIALIZING_JSON_TYPES_DATA_H_
 
 #include <algorithm>
+#include <cmath>
 #include <deque>
+#include <limits>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -400,7 +402,8 @@ private:
                         {
                             oss << indent_str;
                         }
-                        oss << Def::QuotationMark << member.first << Def::QuotationMark << Def::Colon;
+                        WriteString(oss, member.first);
+                        oss << Def::Colon;
                         if (mangling)
                         {
                             oss << Def::Space;
@@ -461,10 +464,10 @@ private:
                 break;
             }
             case JsonClass::String:
-                oss << Def::QuotationMark << data_.string_value << Def::QuotationMark;
+                WriteString(oss, data_.string_value);
                 break;
             case JsonClass::Floating:
-                oss << data_.floating_value;
+                WriteFloating(oss, data_.floating_value);
                 break;
             case JsonClass::Integral:
                 oss << data_.integral_value;
@@ -480,6 +483,57 @@ private:
         }
     }
 
+    static void WriteString(std::ostringstream& oss, const StringType& value)
+    {
+        static const char* const digits = "0123456789abcdef";
+
+        oss << Def::QuotationMark;
+        for (const auto& character : value)
+        {
+            const auto code_point = character.GetCodePoint();
+            if (character == Def::QuotationMark || character == Def::ReverseSolidus)
+            {
+                oss << Def::ReverseSolidus << character;
+            }
+            else if (code_point < 0x20)
+            {
+                oss << "\\u00" << digits[code_point / 16] << digits[code_point % 16];
+            }
+            else
+            {
+                oss << character;
+            }
+        }
+        oss << Def::QuotationMark;
+    }
+
+    static void WriteFloating(std::ostringstream& oss, const FloatingType value)
+    {
+        if (!std::isfinite(value))
+        {
+            oss << StringType::ValueOf(nullptr);
+            return;
+        }
+        // The shortest text that is read back as the same number
+        std::string text;
+        for (int precision = 6; precision <= std::numeric_limits<FloatingType>::max_digits10; ++precision)
+        {
+            std::ostringstream number;
+            number.precision(precision);
+            number << value;
+            text = number.str();
+            if (static_cast<FloatingType>(std::stod(text)) == value)
+            {
+                break;
+            }
+        }
+        if (text.find_first_of(".e") == std::string::npos)
+        {
+            text += ".0";
+        }
+        oss << text;
+    }
+
     void CopyUnion(const JsonData& other)
     {
         switch (other.type_)
-- 
2.43.0


From 5bc350d6c28a04be92d4bab53a89eb6aeded2a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:36 +0000
Subject: [PATCH 21/70] fix: keep the first error of JsonParser

---
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index ba49dc6..0d20cc7 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -433,7 +433,10 @@ private:
 
     void SetError(const JsonError error)
     {
-        error_ = error;
+        if (!HasError())
+        {
+            error_ = error;
+        }
     }
 
     void SetErrorPosition(const SizeType position)
-- 
2.43.0


From dec024d5a006567826472b3193859b6e7e6612dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:53 +0000
Subject: [PATCH 22/70] fix: stack overflow on deeply nested JSON

---
 .../__Serializing/Json/Types/JsonError.h      |  3 +-
 .../__Serializing/Json/Types/JsonParser.h     | 38 ++++++++++++++++++-
 include/Caitlyn/__Serializing/Json/Utility.h  |  2 +
 3 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonError.h b/include/Caitlyn/__Serializing/Json/Types/JsonError.h
index 5b43088..22001d4 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonError.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonError.h
@@ -38,7 +38,8 @@ enum class JsonError
     InvalidEscapeSequence,
     NumberConversionError,
     OutOfRangeError,
-    TrailingComma
+    TrailingComma,
+    NestingTooDeep
 };
 
 __CAITLYN_JSON_NAMESPACE_END
diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 0d20cc7..c1a0149 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -84,10 +84,30 @@ public:
     }
 
 private:
-    JsonParser(const String& json) : error_{JsonError::NoError}, json_{json}, position_{}, errorPosition_{}
+    JsonParser(const String& json) : error_{JsonError::NoError}, json_{json}, position_{}, errorPosition_{}, depth_{}
     {
     }
 
+    // Limits the nesting because parsing and destruction are recursive
+    struct DepthGuard
+    {
+        explicit DepthGuard(JsonParser& parser) : parser_(parser)
+        {
+            if (++parser_.depth_ > MaxDepth)
+            {
+                parser_.SetError(JsonError::NestingTooDeep);
+                parser_.SetErrorPosition(parser_.position_);
+            }
+        }
+
+        ~DepthGuard()
+        {
+            --parser_.depth_;
+        }
+
+        JsonParser& parser_;
+    };
+
     JsonData ParseValue()
     {
         SkipSpace();
@@ -131,6 +151,11 @@ private:
 
     JsonData ParseObject()
     {
+        const DepthGuard guard{*this};
+        if (HasError())
+        {
+            return JsonData{};
+        }
         JsonData result = MakeObject();
         Next();
         SkipSpace();
@@ -203,6 +228,11 @@ private:
 
     JsonData ParseArray()
     {
+        const DepthGuard guard{*this};
+        if (HasError())
+        {
+            return JsonData{};
+        }
         JsonData result = MakeArray();
         Next();
         SkipSpace();
@@ -450,6 +480,12 @@ private:
     const String& json_;
     SizeType position_;
     SizeType errorPosition_;
+    SizeType depth_;
+
+    enum : SizeType
+    {
+        MaxDepth = 1000
+    };
 };
 
 __CAITLYN_DETAIL_NAMESPACE_END
diff --git a/include/Caitlyn/__Serializing/Json/Utility.h b/include/Caitlyn/__Serializing/Json/Utility.h
index 52ef652..4042c90 100644
--- a/include/Caitlyn/__Serializing/Json/Utility.h
+++ b/include/Caitlyn/__Serializing/Json/Utility.h
@@ -55,6 +55,8 @@ inline const char* GetErrorString(const JsonError error)
             return "Number is out of range.";
         case JsonError::TrailingComma:
             return "Trailing comma.";
+        case JsonError::NestingTooDeep:
+            return "Nesting is too deep.";
         case JsonError::InvalidJson:
             return "Invalid JSON.";
         default:
-- 
2.43.0


From 0b56084e4c135b561981edd080574d509c22ac6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:52 +0000
Subject: [PATCH 23/70] fix: reading the largest real number in JsonParser

---
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index c1a0149..1e789c4 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -19,7 +19,6 @@
 #define CAITLYN_SERIALIZING_JSON_TYPES_PARSER_H_
 
 #include <cmath>
-#include <limits>
 #include <stdexcept>
 
 #include "Caitlyn/__Core/String.h"
@@ -411,12 +410,12 @@ private:
                 number_str.Find(Def::LatinSmallLetterE) != String::NPosition ||
                 number_str.Find(Def::LatinCapitalLetterE) != String::NPosition)
             {
-                const auto value = std::stod(number_str.str(), &parsed);
-                if (std::abs(value) > std::numeric_limits<JsonData::FloatingType>::max())
+                const auto value = static_cast<JsonData::FloatingType>(std::stod(number_str.str(), &parsed));
+                if (std::isinf(value))
                 {
                     throw std::out_of_range{"Number is out of range"};
                 }
-                result = static_cast<JsonData::FloatingType>(value);
+                result = value;
             }
             else
             {
-- 
2.43.0


From 50bd21cebd07443bc7e4d899f90a8d82611b47de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:04 +0000
Subject: [PATCH 24/70] fix: MapError, UnwrapOrDefault and Filter of Expected
 do not compile

---
 include/Caitlyn/__Core/Error/Expected.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/Caitlyn/__Core/Error/Expected.h b/include/Caitlyn/__Core/Error/Expected.h
index a37d5cd..50f9477 100644
--- a/include/Caitlyn/__Core/Error/Expected.h
+++ b/include/Caitlyn/__Core/Error/Expected.h
@@ -174,7 +174,7 @@ public:
         {
             return Expected<ValueType, result_error_type>(Unexpected<result_error_type>(func(data_.error.Get())));
         }
-        return *this;
+        return Expected<ValueType, result_error_type>(data_.value);
     }
 
     template <typename Func>
@@ -219,13 +219,13 @@ public:
 
     const ValueType& UnwrapOrDefault() const
     {
-        static ValueType default_value{};
-        return unwrap_or(default_value);
+        static const ValueType default_value{};
+        return UnwrapOrDefault(default_value);
     }
 
     const ValueType& UnwrapOrDefault(const ValueType& default_value) const
     {
-        return unwrap_or(default_value);
+        return hasValue_ ? data_.value : default_value;
     }
 
     const ValueType& Expect(const String& message) const
@@ -250,11 +250,11 @@ public:
     template <typename Func>
     auto Filter(Func func) const -> Expected
     {
-        if (hasValue_ && func(data_.value))
+        if (!hasValue_ || func(data_.value))
         {
             return *this;
         }
-        return result_t(Unexpected<ErrorType>{});
+        return Unexpected<ErrorType>{ErrorType{}};
     }
 
     template <typename U, typename Func>
-- 
2.43.0


From d1ea584a2a46586fbf71caf21db7781a2b6e119f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:04 +0000
Subject: [PATCH 25/70] fix: Expected assignment when copying the content
 throws

---
 include/Caitlyn/__Core/Error/Expected.h | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/include/Caitlyn/__Core/Error/Expected.h b/include/Caitlyn/__Core/Error/Expected.h
index 50f9477..d802b4b 100644
--- a/include/Caitlyn/__Core/Error/Expected.h
+++ b/include/Caitlyn/__Core/Error/Expected.h
@@ -71,16 +71,8 @@ public:
     {
         if (this != &other)
         {
-            DestroyUnion();
-            hasValue_ = other.hasValue_;
-            if (hasValue_)
-            {
-                new (&data_.value) ValueType{other.data_.value};
-            }
-            else
-            {
-                new (&data_.error) Unexpected<ErrorType>{other.data_.error};
-            }
+            // Copying may throw, the old content is destroyed only afterwards
+            *this = Expected{other};
         }
         return *this;
     }
-- 
2.43.0


From eec147198dc6e049410af9ef7a1424d5c253358f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:04 +0000
Subject: [PATCH 26/70] fix: SharedPtr never freed its object and crashed when
 an empty pointer was copied

---
 .../__Core/Memory/Types/SharedPointer.h       | 37 ++++++++++---------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index e7160ec..0d05b5b 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -20,6 +20,7 @@
 
 #include <atomic>
 #include <stdexcept>
+#include <utility>
 
 #include "Caitlyn/__Base.h"
 
@@ -43,7 +44,10 @@ public:
 
     SharedPtr(const SharedPtr& other) : data_{other.data_}, ref_count_{other.ref_count_}
     {
-        ref_count_->fetch_add(1, std::memory_order_relaxed);
+        if (ref_count_)
+        {
+            ref_count_->fetch_add(1, std::memory_order_relaxed);
+        }
     }
 
     SharedPtr(SharedPtr&& other) noexcept : data_{other.data_}, ref_count_{other.ref_count_}
@@ -60,7 +64,7 @@ public:
 public:
     SharedPtr& operator=(Pointer data)
     {
-        reset(data);
+        Reset(data);
         return *this;
     }
 
@@ -68,13 +72,8 @@ public:
     {
         if (this != &other)
         {
-            Release();
-            data_ = other.data_;
-            ref_count_ = other.ref_count_;
-            if (ref_count_)
-            {
-                ref_count_->fetch_add(1);
-            }
+            SharedPtr copy{other};
+            Swap(copy);
         }
         return *this;
     }
@@ -83,11 +82,8 @@ public:
     {
         if (this != &other)
         {
-            Release();
-            data_ = other.data_;
-            ref_count_ = other.ref_count_;
-            other.data_ = nullptr;
-            other.ref_count_ = nullptr;
+            SharedPtr moved{std::move(other)};
+            Swap(moved);
         }
         return *this;
     }
@@ -143,16 +139,21 @@ public:
     {
         if (data_ != data)
         {
-            Release();
-            data_ = data;
-            ref_count_ = data ? new Counter(1) : nullptr;
+            SharedPtr fresh{data};
+            Swap(fresh);
         }
     }
 
 private:
+    void Swap(SharedPtr& other) noexcept
+    {
+        std::swap(data_, other.data_);
+        std::swap(ref_count_, other.ref_count_);
+    }
+
     void Release() const
     {
-        if (ref_count_ && ref_count_->fetch_sub(1, std::memory_order_relaxed) == 0)
+        if (ref_count_ && ref_count_->fetch_sub(1, std::memory_order_acq_rel) == 1)
         {
             delete data_;
             delete ref_count_;
-- 
2.43.0


From 2fa82b83a784fb1eb712ff3e574daf072dd978be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:04 +0000
Subject: [PATCH 27/70] fix: UniquePtr::Release and assignment from a pointer
 do not compile, assignment from its own object reads freed memory

---
 include/Caitlyn/__Core/Memory/Types/UniquePointer.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
index ba2d065..54bd4ac 100644
--- a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
@@ -18,6 +18,8 @@
 #ifndef CAITLYN_CORE_MEMORY_TYPES_UNIQUEPOINTER_H
 #define CAITLYN_CORE_MEMORY_TYPES_UNIQUEPOINTER_H
 
+#include <stdexcept>
+
 #include "Caitlyn/__Base.h"
 
 __CAITLYN_GLOBAL_NAMESPACE_BEGIN
@@ -53,7 +55,7 @@ public:
 public:
     UniquePtr& operator=(Pointer data)
     {
-        reset(data);
+        Reset(data);
         return *this;
     }
 
@@ -61,9 +63,7 @@ public:
     {
         if (this != &other)
         {
-            delete data_;
-            data_ = other.data_;
-            other.data_ = nullptr;
+            Reset(other.Release());
         }
         return *this;
     }
@@ -119,14 +119,15 @@ public:
     {
         if (data_ != new_data)
         {
-            delete data_;
+            Pointer old_data = data_;
             data_ = new_data;
+            delete old_data;
         }
     }
 
     Pointer Release()
     {
-        ConstPointer tmp = data_;
+        Pointer tmp = data_;
         data_ = nullptr;
         return tmp;
     }
-- 
2.43.0


From 52d954eded4378cd105b69e9f524068a058fcee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:44 +0000
Subject: [PATCH 28/70] fix: WeakPtr kept its object alive and never expired

---
 .../__Core/Memory/Types/SharedPointer.h       | 49 ++++++++++++--
 .../Caitlyn/__Core/Memory/Types/WeakPointer.h | 65 ++++++++++++++-----
 2 files changed, 92 insertions(+), 22 deletions(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index 0d05b5b..ca09c04 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -26,9 +26,14 @@
 
 __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 
+template <typename T>
+class WeakPtr;
+
 template <typename T>
 class SharedPtr
 {
+    friend class WeakPtr<T>;
+
 public:
     using ValueType = T;
     using Pointer = T*;
@@ -38,7 +43,7 @@ public:
 public:
     SharedPtr() = default;
 
-    SharedPtr(Pointer data) : data_{data}, ref_count_{data ? new Counter(1) : nullptr}
+    SharedPtr(Pointer data) : data_{data}, ref_count_{data ? new ControlBlock : nullptr}
     {
     }
 
@@ -46,7 +51,7 @@ public:
     {
         if (ref_count_)
         {
-            ref_count_->fetch_add(1, std::memory_order_relaxed);
+            ref_count_->owners.fetch_add(1, std::memory_order_relaxed);
         }
     }
 
@@ -153,16 +158,50 @@ private:
 
     void Release() const
     {
-        if (ref_count_ && ref_count_->fetch_sub(1, std::memory_order_acq_rel) == 1)
+        if (ref_count_ && ref_count_->owners.fetch_sub(1, std::memory_order_acq_rel) == 1)
         {
             delete data_;
-            delete ref_count_;
+            ref_count_->Forget();
         }
     }
 
+private:
+    // All owners together count as one observer, so the block outlives the last of both.
+    struct ControlBlock
+    {
+        Counter owners{1};
+        Counter observers{1};
+
+        void Observe() noexcept
+        {
+            observers.fetch_add(1, std::memory_order_relaxed);
+        }
+
+        void Forget() noexcept
+        {
+            if (observers.fetch_sub(1, std::memory_order_acq_rel) == 1)
+            {
+                delete this;
+            }
+        }
+
+        bool TryOwn() noexcept
+        {
+            std::size_t count = owners.load(std::memory_order_relaxed);
+            while (count != 0)
+            {
+                if (owners.compare_exchange_weak(count, count + 1, std::memory_order_acq_rel, std::memory_order_relaxed))
+                {
+                    return true;
+                }
+            }
+            return false;
+        }
+    };
+
 private:
     Pointer data_{};
-    Counter* ref_count_{};
+    ControlBlock* ref_count_{};
 };
 
 __CAITLYN_GLOBAL_NAMESPACE_END
diff --git a/include/Caitlyn/__Core/Memory/Types/WeakPointer.h b/include/Caitlyn/__Core/Memory/Types/WeakPointer.h
index ba06cc9..1b76bcd 100644
--- a/include/Caitlyn/__Core/Memory/Types/WeakPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/WeakPointer.h
@@ -32,45 +32,58 @@ public:
     using Resource = SharedPtr<T>;
 
 public:
-    WeakPtr() : data_(nullptr)
+    WeakPtr() = default;
+
+    WeakPtr(const Resource& resource) : data_{resource.data_}, ref_count_{resource.ref_count_}
     {
+        Observe();
     }
 
-    WeakPtr(const Resource& resource) : data_{resource}
+    WeakPtr(const WeakPtr& other) : data_{other.data_}, ref_count_{other.ref_count_}
     {
+        Observe();
     }
 
-    WeakPtr(const WeakPtr& other) : data_{other.data_}
+    WeakPtr(WeakPtr&& other) noexcept : data_{other.data_}, ref_count_{other.ref_count_}
     {
+        other.data_ = nullptr;
+        other.ref_count_ = nullptr;
     }
 
-    WeakPtr(WeakPtr&& other) noexcept : data_{std::move(other.data_)}
+    ~WeakPtr()
     {
+        if (ref_count_)
+        {
+            ref_count_->Forget();
+        }
     }
 
 public:
     WeakPtr& operator=(const WeakPtr& other)
     {
-        data_ = other.data_;
+        WeakPtr copy{other};
+        Swap(copy);
         return *this;
     }
 
     WeakPtr& operator=(const Resource& sp)
     {
-        this->data_ = sp;
+        WeakPtr copy{sp};
+        Swap(copy);
         return *this;
     }
 
     WeakPtr& operator=(WeakPtr&& other) noexcept
     {
-        data_ = std::move(other.data_);
+        WeakPtr moved{std::move(other)};
+        Swap(moved);
         return *this;
     }
 
 public:
     Reference operator*() const
     {
-        if (data_ == nullptr || !data_.Get())
+        if (expired())
         {
             throw std::runtime_error{"Dereferencing null or expired weak pointer."};
         }
@@ -79,11 +92,11 @@ public:
 
     Pointer operator->() const
     {
-        if (data_ == nullptr || !data_.Get())
+        if (expired())
         {
             throw std::runtime_error{"Dereferencing null or expired weak pointer."};
         }
-        return data_.Get();
+        return data_;
     }
 
 public:
@@ -99,32 +112,50 @@ public:
 
     bool operator==(NullPtr) const
     {
-        return data_ == nullptr;
+        return expired();
     }
 
     bool operator!=(NullPtr) const
     {
-        return data_ != nullptr;
+        return !expired();
     }
 
 public:
     Resource lock() const
     {
-        if (data_ == nullptr || !data_.Get())
+        Resource resource;
+        if (ref_count_ && ref_count_->TryOwn())
         {
-            return Resource();
+            resource.data_ = data_;
+            resource.ref_count_ = ref_count_;
         }
-        return data_;
+        return resource;
     }
 
 public:
     bool expired() const
     {
-        return data_ == nullptr || !data_.Get();
+        return !ref_count_ || ref_count_->owners.load(std::memory_order_acquire) == 0;
+    }
+
+private:
+    void Observe() const noexcept
+    {
+        if (ref_count_)
+        {
+            ref_count_->Observe();
+        }
+    }
+
+    void Swap(WeakPtr& other) noexcept
+    {
+        std::swap(data_, other.data_);
+        std::swap(ref_count_, other.ref_count_);
     }
 
 private:
-    Resource data_;
+    Pointer data_{};
+    typename Resource::ControlBlock* ref_count_{};
 };
 
 __CAITLYN_GLOBAL_NAMESPACE_END
-- 
2.43.0


From 82eca4319b23a03ffc2a10cb1a9f1e5e010ef381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:55 +0000
Subject: [PATCH 29/70] fix: File::Read reads past its buffer

---
 include/Caitlyn/__Core/File/File.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index 21c18a9..55875a8 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -125,12 +125,17 @@ public:
         const std::streamsize size = file_.tellg();
         file_.seekg(0, std::ios::beg);
 
-        std::vector<char> buffer(size);
-        if (file_.read(buffer.data(), size))
+        if (size < 0)
         {
-            return buffer.data();
+            throw std::ios_base::failure{"Failed to determine the size of the file."};
         }
-        return {};
+        std::vector<char> buffer(static_cast<std::size_t>(size) + 1);
+        if (!file_.read(buffer.data(), size))
+        {
+            file_.clear();
+            throw std::ios_base::failure{"Failed to read the file."};
+        }
+        return buffer.data();
     }
 
     String ReadLine(const char delim = Def::LineFeed[0])
-- 
2.43.0


From 707d0eee18f15b839208e25725535c4a864f6d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:55 +0000
Subject: [PATCH 30/70] fix: File is unusable after ReadLine reached the end or
 SetPosition failed

---
 include/Caitlyn/__Core/File/File.h | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index 55875a8..90af753 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -89,23 +89,25 @@ public:
 
     bool IsEof() const
     {
-        return file_.eof();
+        return eof_;
     }
 
     explicit operator bool() const noexcept
     {
-        return !file_.eof();
+        return !eof_;
     }
 
     void SetPosition(const std::streampos& position)
     {
-        currentPosition_ = position;
         file_.clear();
-        file_.seekg(currentPosition_, std::ios::beg);
+        file_.seekg(position, std::ios::beg);
         if (file_.fail())
         {
+            file_.clear();
             throw std::ios_base::failure{"Failed to set position in the file."};
         }
+        currentPosition_ = position;
+        eof_ = false;
     }
 
     std::streampos GetPosition() const
@@ -144,15 +146,11 @@ public:
         {
             Open();
         }
-        if (file_.eof())
-        {
-            return {};
-        }
         if (file_.fail() || file_.bad())
         {
             throw std::ios_base::failure{"Stream error encountered before reading."};
         }
-        file_.clear();
+        eof_ = false;
         file_.seekg(currentPosition_, std::ios::beg);
 
         std::ostringstream result;
@@ -166,15 +164,14 @@ public:
             }
             result << ch;
         }
-        if (file_.eof())
-        {
-            currentPosition_ = file_.tellg();
-            return result.str();
-        }
-        if (file_.fail() || file_.bad())
+        if (file_.bad() || !file_.eof())
         {
             throw std::ios_base::failure{"Stream failed while reading."};
         }
+        // The end of the file is not an error of the stream: it can still be written to and read again.
+        file_.clear();
+        eof_ = true;
+        currentPosition_ = file_.tellg();
         return result.str();
     }
 
@@ -456,6 +453,7 @@ private:
     String filename_;
     std::basic_fstream<char> file_;
     std::streampos currentPosition_{};
+    bool eof_{};
 };
 
 inline File MakeFile(const String& filename)
-- 
2.43.0


From 528fa9f8c3b122b8882540fb0e430d87526da458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:55 +0000
Subject: [PATCH 31/70] fix: File::Open on an open file breaks it, File::Erase
 keeps the old position

---
 include/Caitlyn/__Core/File/File.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index 90af753..cf80b2d 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -60,6 +60,7 @@ public:
         {
             throw std::ios_base::failure{"Filename is empty"};
         }
+        Close();
         file_.open(GetFilename(), std::ios::in | std::ios::out | std::ios::app | std::ios::binary);
         if (!file_.is_open())
         {
@@ -84,6 +85,8 @@ public:
             throw std::ios_base::failure{"Failed to open file for clearing."};
         }
         clearFile.close();
+        currentPosition_ = 0;
+        eof_ = false;
         Open();
     }
 
-- 
2.43.0


From e4134e9f2845446c2ad1f7048517891fa25b2f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:55 +0000
Subject: [PATCH 32/70] fix: File reports success when writing failed

---
 include/Caitlyn/__Core/File/File.h | 57 +++++++++++++++++-------------
 1 file changed, 33 insertions(+), 24 deletions(-)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index cf80b2d..36cd129 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -185,7 +185,7 @@ public:
             Open();
         }
         file_ << data;
-        file_.flush();
+        Flush();
     }
 
     void Write(const String& data)
@@ -195,7 +195,7 @@ public:
             Open();
         }
         file_ << data;
-        file_.flush();
+        Flush();
     }
 
     template <typename T>
@@ -206,7 +206,7 @@ public:
             Open();
         }
         file_ << data.to_string();
-        file_.flush();
+        Flush();
     }
 
     template <typename T>
@@ -217,7 +217,7 @@ public:
             Open();
         }
         file_ << data.str();
-        file_.flush();
+        Flush();
     }
 
     template <typename T>
@@ -228,7 +228,7 @@ public:
             Open();
         }
         file_ << data.ToString();
-        file_.flush();
+        Flush();
     }
 
     template <typename... Args>
@@ -239,7 +239,7 @@ public:
             Open();
         }
         file_ << String::Format(str, std::forward<Args>(args)...);
-        file_.flush();
+        Flush();
     }
 
     void WriteLine(const char* data)
@@ -249,7 +249,7 @@ public:
             Open();
         }
         file_ << data << Def::LineFeed;
-        file_.flush();
+        Flush();
     }
 
     void WriteLine(const String& data)
@@ -259,7 +259,7 @@ public:
             Open();
         }
         file_ << data << Def::LineFeed;
-        file_.flush();
+        Flush();
     }
 
     template <typename T>
@@ -270,7 +270,7 @@ public:
             Open();
         }
         file_ << data.to_string() << Def::LineFeed;
-        file_.flush();
+        Flush();
     }
 
     template <typename T>
@@ -281,7 +281,7 @@ public:
             Open();
         }
         file_ << data.str() << Def::LineFeed;
-        file_.flush();
+        Flush();
     }
 
     template <typename T>
@@ -292,7 +292,7 @@ public:
             Open();
         }
         file_ << data.ToString() << Def::LineFeed;
-        file_.flush();
+        Flush();
     }
 
     template <typename... Args>
@@ -303,7 +303,7 @@ public:
             Open();
         }
         file_ << String::Format(str, std::forward<Args>(args)...) << Def::LineFeed;
-        file_.flush();
+        Flush();
     }
 
     void Append(const char* data)
@@ -314,7 +314,7 @@ public:
         }
         file_.seekp(0, std::ios::end);
         file_ << data;
-        file_.flush();
+        Flush();
     }
 
     void Append(const String& data)
@@ -325,7 +325,7 @@ public:
         }
         file_.seekp(0, std::ios::end);
         file_ << data;
-        file_.flush();
+        Flush();
     }
 
     template <typename T>
@@ -337,7 +337,7 @@ public:
         }
         file_.seekp(0, std::ios::end);
         file_ << data.to_string();
-        file_.flush();
+        Flush();
     }
 
     template <typename T>
@@ -349,7 +349,7 @@ public:
         }
         file_.seekp(0, std::ios::end);
         file_ << data.str();
-        file_.flush();
+        Flush();
     }
 
     template <typename T>
@@ -361,7 +361,7 @@ public:
         }
         file_.seekp(0, std::ios::end);
         file_ << data.ToString();
-        file_.flush();
+        Flush();
     }
 
     template <typename... Args>
@@ -373,7 +373,7 @@ public:
         }
         file_.seekp(0, std::ios::end);
         file_ << String::Format(str, std::forward<Args>(args)...);
-        file_.flush();
+        Flush();
     }
 
     void AppendLine(const char* data)
@@ -384,7 +384,7 @@ public:
         }
         file_.seekp(0, std::ios::end);
         file_ << data << Def::LineFeed;
-        file_.flush();
+        Flush();
     }
 
     void AppendLine(const String& data)
@@ -395,7 +395,7 @@ public:
         }
         file_.seekp(0, std::ios::end);
         file_ << data << Def::LineFeed;
-        file_.flush();
+        Flush();
     }
 
     template <typename T>
@@ -407,7 +407,7 @@ public:
         }
         file_.seekp(0, std::ios::end);
         file_ << data.to_string() << Def::LineFeed;
-        file_.flush();
+        Flush();
     }
 
     template <typename T>
@@ -419,7 +419,7 @@ public:
         }
         file_.seekp(0, std::ios::end);
         file_ << data.str() << Def::LineFeed;
-        file_.flush();
+        Flush();
     }
 
     template <typename T>
@@ -431,7 +431,7 @@ public:
         }
         file_.seekp(0, std::ios::end);
         file_ << data.ToString() << Def::LineFeed;
-        file_.flush();
+        Flush();
     }
 
     template <typename... Args>
@@ -443,10 +443,19 @@ public:
         }
         file_.seekp(0, std::ios::end);
         file_ << String::Format(str, std::forward<Args>(args)...) << Def::LineFeed;
-        file_.flush();
+        Flush();
     }
 
 private:
+    void Flush()
+    {
+        file_.flush();
+        if (file_.fail())
+        {
+            throw std::ios_base::failure{"Failed to write to the file."};
+        }
+    }
+
     std::basic_string<char> GetFilename() const
     {
         return filename_.str();
-- 
2.43.0


From a2b01d88e312783b41decede850d3e5c710353cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:58 +0000
Subject: [PATCH 33/70] fix: InputStream::ReadChar reads past an empty line

---
 include/Caitlyn/__Core/IO/Stream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/IO/Stream.h b/include/Caitlyn/__Core/IO/Stream.h
index 7db32f4..b92e766 100644
--- a/include/Caitlyn/__Core/IO/Stream.h
+++ b/include/Caitlyn/__Core/IO/Stream.h
@@ -49,7 +49,8 @@ public:
 
     static Char ReadChar(const String& message = String::Empty())
     {
-        return ReadLine(message)[0];
+        const String line = ReadLine(message);
+        return line.IsEmpty() ? Char{} : line[0];
     }
 
     template <typename... Args>
-- 
2.43.0


From bfa41e8b25bf4e0df4ad28c3e72487fcabdc01fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:20 +0000
Subject: [PATCH 34/70] fix: a second TestRegistry::RunAll reports the first
 run again

---
 include/Caitlyn/__Testing/Types/TestRegistry.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/Caitlyn/__Testing/Types/TestRegistry.h b/include/Caitlyn/__Testing/Types/TestRegistry.h
index fc2c323..75988da 100644
--- a/include/Caitlyn/__Testing/Types/TestRegistry.h
+++ b/include/Caitlyn/__Testing/Types/TestRegistry.h
@@ -52,6 +52,8 @@ public:
 
     int RunAll()
     {
+        passed_ = 0;
+        failed_ = 0;
         LogStart();
 
         startGlobalTime_ = std::chrono::steady_clock::now();
-- 
2.43.0


From 81af36b17542e935ae4007da2c38d099f154d1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:20 +0000
Subject: [PATCH 35/70] fix: a test failing with a message that is not UTF-8
 ends the whole run

---
 include/Caitlyn/__Testing/Types/TestRegistry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Testing/Types/TestRegistry.h b/include/Caitlyn/__Testing/Types/TestRegistry.h
index 75988da..25c5f7e 100644
--- a/include/Caitlyn/__Testing/Types/TestRegistry.h
+++ b/include/Caitlyn/__Testing/Types/TestRegistry.h
@@ -140,7 +140,7 @@ private:
         }
     }
 
-    void LogTestFailure(const TestCase& test, const String& message) const
+    void LogTestFailure(const TestCase& test, const char* message) const
     {
         std::cout << "[     FAIL ] " << test.suite_name << '.' << test.test_name << " (" << localDiff_.count()
                   << " ms)\n"
-- 
2.43.0


From d9ad4690653a79c0da850269d6f92debfdf79a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:20 +0000
Subject: [PATCH 36/70] fix: a failing ASSERT_STREQ aborts the whole test run

---
 include/Caitlyn/__Testing/Macro/Assert.h | 31 ++++++++++--------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/include/Caitlyn/__Testing/Macro/Assert.h b/include/Caitlyn/__Testing/Macro/Assert.h
index a386cd8..4866f13 100644
--- a/include/Caitlyn/__Testing/Macro/Assert.h
+++ b/include/Caitlyn/__Testing/Macro/Assert.h
@@ -18,6 +18,10 @@
 #ifndef CAITLYN_TEST_MACRO_ASSERT_H_
 #define CAITLYN_TEST_MACRO_ASSERT_H_
 
+#include <cstring>
+#include <sstream>
+#include <stdexcept>
+
 #include "Caitlyn/__Core/Traits.h"
 #include "Caitlyn/__Testing/Types.h"
 
@@ -93,25 +97,16 @@
 #define ASSERT_STREQ(expected, actual)                                                                                 \
     do                                                                                                                 \
     {                                                                                                                  \
-        if ((expected) == nullptr && (actual) == nullptr)                                                              \
-        {                                                                                                              \
-            break;                                                                                                     \
-        }                                                                                                              \
-        else if ((expected) == nullptr)                                                                                \
-        {                                                                                                              \
-            std::cerr << "Assertion failed: Expected nullptr, but got \"" << (actual) << "\"" << std::endl;            \
-            std::abort();                                                                                              \
-        }                                                                                                              \
-        else if ((actual) == nullptr)                                                                                  \
-        {                                                                                                              \
-            std::cerr << "Assertion failed: Expected \"" << (expected) << "\", but got nullptr" << std::endl;          \
-            std::abort();                                                                                              \
-        }                                                                                                              \
-        else if (std::strcmp((expected), (actual)) != 0)                                                               \
+        const char* const caitlyn_expected = (expected);                                                               \
+        const char* const caitlyn_actual = (actual);                                                                   \
+        if (caitlyn_expected == nullptr ? caitlyn_actual != nullptr                                                    \
+                                        : caitlyn_actual == nullptr ||                                                 \
+                                              std::strcmp(caitlyn_expected, caitlyn_actual) != 0)                      \
         {                                                                                                              \
-            std::cerr << "Assertion failed: Expected \"" << (expected) << "\", but got \"" << (actual) << "\""         \
-                      << std::endl;                                                                                    \
-            std::abort();                                                                                              \
+            std::ostringstream oss;                                                                                    \
+            oss << "Assertion failed: Expected \"" << (caitlyn_expected ? caitlyn_expected : "nullptr")                \
+                << "\", but got \"" << (caitlyn_actual ? caitlyn_actual : "nullptr") << "\"";                          \
+            throw std::runtime_error(oss.str());                                                                       \
         }                                                                                                              \
     }                                                                                                                  \
     while (false)
-- 
2.43.0


From 39517cb17ae50f74ddebf263cb2c32712619e206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:20 +0000
Subject: [PATCH 37/70] fix: ASSERT_TRUE and ASSERT_FALSE take the else of an
 enclosing if

---
 include/Caitlyn/__Testing/Macro/Assert.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Testing/Macro/Assert.h b/include/Caitlyn/__Testing/Macro/Assert.h
index 4866f13..5ea9c7e 100644
--- a/include/Caitlyn/__Testing/Macro/Assert.h
+++ b/include/Caitlyn/__Testing/Macro/Assert.h
@@ -26,11 +26,17 @@
 #include "Caitlyn/__Testing/Types.h"
 
 #define ASSERT_TRUE(condition)                                                                                         \
-    if (!(condition))                                                                                                  \
+    if (condition)                                                                                                     \
+    {                                                                                                                  \
+    }                                                                                                                  \
+    else                                                                                                               \
     throw std::runtime_error("Assertion failed: " #condition)
 
 #define ASSERT_FALSE(condition)                                                                                        \
-    if (condition)                                                                                                     \
+    if (!(condition))                                                                                                  \
+    {                                                                                                                  \
+    }                                                                                                                  \
+    else                                                                                                               \
     throw std::runtime_error("Assertion failed: " #condition)
 
 #define ASSERT_EQ(val1, val2)                                                                                          \
-- 
2.43.0


From 0b69017d239e1798c87e75f6e54c7ad0742acb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:20 +0000
Subject: [PATCH 38/70] fix: cmp_ne, cmp_greater, cmp_le and cmp_ge do not
 compile

---
 include/Caitlyn/__Core/Utility/Comparators.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Core/Utility/Comparators.h b/include/Caitlyn/__Core/Utility/Comparators.h
index 4fbff51..e85b205 100644
--- a/include/Caitlyn/__Core/Utility/Comparators.h
+++ b/include/Caitlyn/__Core/Utility/Comparators.h
@@ -18,6 +18,8 @@
 #ifndef CAITLYN_CORE_UTILITY_COMPARATORS_H_
 #define CAITLYN_CORE_UTILITY_COMPARATORS_H_
 
+#include <type_traits>
+
 #include "Caitlyn/__Base.h"
 
 __CAITLYN_GLOBAL_NAMESPACE_BEGIN
@@ -42,7 +44,7 @@ bool cmp_eq(T t, U u) noexcept
 template <typename T, typename U>
 constexpr bool cmp_ne(T t, U u) noexcept
 {
-    return !compare_equal(t, u);
+    return !cmp_eq(t, u);
 }
 
 template <typename T, typename U>
@@ -65,19 +67,19 @@ bool cmp_less(T t, U u) noexcept
 template <typename T, typename U>
 constexpr bool cmp_greater(T t, U u) noexcept
 {
-    return compare_less(u, t);
+    return cmp_less(u, t);
 }
 
 template <typename T, typename U>
 constexpr bool cmp_le(T t, U u) noexcept
 {
-    return !compare_greater(t, u);
+    return !cmp_greater(t, u);
 }
 
 template <typename T, typename U>
 constexpr bool cmp_ge(T t, U u) noexcept
 {
-    return !compare_less(t, u);
+    return !cmp_less(t, u);
 }
 
 __CAITLYN_GLOBAL_NAMESPACE_END
-- 
2.43.0


From 02cfdf1fec917ac43c7be3a40c517b6bc8eec73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:13 +0000
Subject: [PATCH 39/70] fix: __Caitlyn.h includes a path that does not exist on
 case-sensitive file systems

---
 include/Caitlyn/__Caitlyn.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Caitlyn.h b/include/Caitlyn/__Caitlyn.h
index 754ffb6..2ebaa2c 100644
--- a/include/Caitlyn/__Caitlyn.h
+++ b/include/Caitlyn/__Caitlyn.h
@@ -18,6 +18,6 @@
 #ifndef CAITLYN_CAITLYN_H_
 #define CAITLYN_CAITLYN_H_
 
-#include "caitlyn/__caitlyn/application.h"
+#include "Caitlyn/__Caitlyn/Application.h"
 
 #endif // CAITLYN_CAITLYN_H_
-- 
2.43.0


From 87b156854c21d08d2af2d58379aa901e4b99f76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:17 +0000
Subject: [PATCH 40/70] fix: headers do not compile as C++20 (u8 literal type,
 char8_t trait)

---
 include/Caitlyn/__Caitlyn/Types.h             | 2 +-
 include/Caitlyn/__Core/Traits/Types/Primary.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Caitlyn/Types.h b/include/Caitlyn/__Caitlyn/Types.h
index 5a4ea02..f2cac7e 100644
--- a/include/Caitlyn/__Caitlyn/Types.h
+++ b/include/Caitlyn/__Caitlyn/Types.h
@@ -26,7 +26,7 @@ __CAITLYN_DETAIL_NAMESPACE_BEGIN
 using __char_t = decltype('\0');
 using __wide_char_t = decltype(L'\0');
 #if __CAITLYN_HAS_CXX20
-using __utf8_char_t = decltype(u8 '\0');
+using __utf8_char_t = decltype(u8'\0');
 #else
 using __utf8_char_t = __char_t;
 #endif
diff --git a/include/Caitlyn/__Core/Traits/Types/Primary.h b/include/Caitlyn/__Core/Traits/Types/Primary.h
index 8bfe6b1..b8f47c3 100644
--- a/include/Caitlyn/__Core/Traits/Types/Primary.h
+++ b/include/Caitlyn/__Core/Traits/Types/Primary.h
@@ -68,7 +68,7 @@ struct __IsCharacter<wchar_t> : TrueType
 
 #if __CAITLYN_HAS_CXX20
 template <>
-struct __IsCharacterType<char8_t> : TrueType
+struct __IsCharacter<char8_t> : TrueType
 {
 };
 #endif
-- 
2.43.0


From eebf292290908f4a4bd89f7b6e378ee218d64fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:51 +0000
Subject: [PATCH 41/70] fix: Application.h defines its state in every
 translation unit (duplicate symbols)

---
 include/Caitlyn/__Caitlyn/Application.h | 40 +++++++++++++++++--------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/include/Caitlyn/__Caitlyn/Application.h b/include/Caitlyn/__Caitlyn/Application.h
index aa3100c..90d7ef8 100644
--- a/include/Caitlyn/__Caitlyn/Application.h
+++ b/include/Caitlyn/__Caitlyn/Application.h
@@ -28,31 +28,47 @@
 
 __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 
+class Application;
+
+// Holds the shared state in a class template, so that the header can be
+// included from any number of translation units.
+template <typename T>
+struct __ApplicationState
+{
+    static T* application_;
+    static bool initialized_;
+};
+
 class Application
 {
+    template <typename T>
+    friend struct __ApplicationState;
+
+    using State = __ApplicationState<Application>;
+
 public:
     static const Application* Initialise()
     {
-        if (initialized_)
+        if (State::initialized_)
         {
             throw std::runtime_error("caitlyn::init can only be called once.");
         }
 
-        initialized_ = true;
-        return application_;
+        State::initialized_ = true;
+        return State::application_;
     }
 
     static const Application* Initialize(const int& argc, const char** argv)
     {
-        if (initialized_)
+        if (State::initialized_)
         {
             throw std::runtime_error("caitlyn::init can only be called once.");
         }
 
-        application_->SetArgs(argc, argv);
-        initialized_ = true;
+        State::application_->SetArgs(argc, argv);
+        State::initialized_ = true;
 
-        return application_;
+        return State::application_;
     }
 
     const std::vector<const char*>& GetArgs() const
@@ -117,17 +133,17 @@ private:
     }
 
 private:
-    static Application* application_;
-    static bool initialized_;
-
     const char* lib_version_;
     const char* system_name_;
     const char* compiler_;
     std::vector<const char*> args_{};
 };
 
-Application* Application::application_ = new Application();
-bool Application::initialized_ = false;
+template <typename T>
+T* __ApplicationState<T>::application_ = new T();
+
+template <typename T>
+bool __ApplicationState<T>::initialized_ = false;
 
 __CAITLYN_GLOBAL_NAMESPACE_END
 
-- 
2.43.0


From f114ae7c43010451018de9c9d03f6edb0a7ce2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:41 +0000
Subject: [PATCH 42/70] fix: assertion messages print operands unparenthesised
 (a conditional operand does not compile)

---
 include/Caitlyn/__Testing/Macro/Assert.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/Caitlyn/__Testing/Macro/Assert.h b/include/Caitlyn/__Testing/Macro/Assert.h
index 5ea9c7e..98d5eef 100644
--- a/include/Caitlyn/__Testing/Macro/Assert.h
+++ b/include/Caitlyn/__Testing/Macro/Assert.h
@@ -43,7 +43,7 @@
     if (!((val1) == (val2)))                                                                                           \
     {                                                                                                                  \
         std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " == " #val2 << " (" << val1 << " != " << val2 << ")";                       \
+        oss << "Assertion failed: " #val1 " == " #val2 << " (" << (val1) << " != " << (val2) << ")";                   \
         throw std::runtime_error(oss.str());                                                                           \
     }
 
@@ -51,7 +51,7 @@
     if (!((val1) != (val2)))                                                                                           \
     {                                                                                                                  \
         std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " != " #val2 << " (" << val1 << " == " << val2 << ")";                       \
+        oss << "Assertion failed: " #val1 " != " #val2 << " (" << (val1) << " == " << (val2) << ")";                   \
         throw std::runtime_error(oss.str());                                                                           \
     }
 
@@ -59,7 +59,7 @@
     if (!((val1) < (val2)))                                                                                            \
     {                                                                                                                  \
         std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " < " #val2 << " (" << val1 << " >= " << val2 << ")";                        \
+        oss << "Assertion failed: " #val1 " < " #val2 << " (" << (val1) << " >= " << (val2) << ")";                    \
         throw std::runtime_error(oss.str());                                                                           \
     }
 
@@ -67,7 +67,7 @@
     if (!((val1) <= (val2)))                                                                                           \
     {                                                                                                                  \
         std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " <= " #val2 << " (" << val1 << " > " << val2 << ")";                        \
+        oss << "Assertion failed: " #val1 " <= " #val2 << " (" << (val1) << " > " << (val2) << ")";                    \
         throw std::runtime_error(oss.str());                                                                           \
     }
 
@@ -75,7 +75,7 @@
     if (!((val1) > (val2)))                                                                                            \
     {                                                                                                                  \
         std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " > " #val2 << " (" << val1 << " <= " << val2 << ")";                        \
+        oss << "Assertion failed: " #val1 " > " #val2 << " (" << (val1) << " <= " << (val2) << ")";                    \
         throw std::runtime_error(oss.str());                                                                           \
     }
 
@@ -83,7 +83,7 @@
     if (!((val1) >= (val2)))                                                                                           \
     {                                                                                                                  \
         std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " >= " #val2 << " (" << val1 << " < " << val2 << ")";                        \
+        oss << "Assertion failed: " #val1 " >= " #val2 << " (" << (val1) << " < " << (val2) << ")";                    \
         throw std::runtime_error(oss.str());                                                                           \
     }
 
@@ -96,7 +96,7 @@
             "Types must be printable to use ASSERT_EQ_PRINTABLE");                                                     \
                                                                                                                        \
         std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " == " #val2 << " (" << val1 << " != " << val2 << ")";                       \
+        oss << "Assertion failed: " #val1 " == " #val2 << " (" << (val1) << " != " << (val2) << ")";                   \
         throw std::runtime_error(oss.str());                                                                           \
     }
 
-- 
2.43.0


From 818074aa1c858be16add3ec39d1a04e16fc5c6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:46 +0000
Subject: [PATCH 43/70] fix: RandomBoolean accepts NaN as a percentage

---
 include/Caitlyn/__Core/Utility/Random.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Utility/Random.h b/include/Caitlyn/__Core/Utility/Random.h
index 32004fa..5ad8ac0 100644
--- a/include/Caitlyn/__Core/Utility/Random.h
+++ b/include/Caitlyn/__Core/Utility/Random.h
@@ -95,7 +95,7 @@ inline Decimal Random(const Decimal min, const Decimal max)
 
 inline Bool RandomBoolean(const Double percentage = 0.5)
 {
-    if (percentage < 0.0 || percentage > 1.0)
+    if (!(percentage >= 0.0 && percentage <= 1.0))
     {
         throw std::invalid_argument{"True percentage is only 0.0..1.0"};
     }
-- 
2.43.0


From 8f16423018d79bffe5d2e1c7679fc7b96fb24ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:29 +0000
Subject: [PATCH 44/70] fix: Random over a real range wider than the type gives
 infinity

---
 include/Caitlyn/__Core/Utility/Random.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Core/Utility/Random.h b/include/Caitlyn/__Core/Utility/Random.h
index 5ad8ac0..50b4606 100644
--- a/include/Caitlyn/__Core/Utility/Random.h
+++ b/include/Caitlyn/__Core/Utility/Random.h
@@ -27,6 +27,22 @@
 
 __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 
+__CAITLYN_DETAIL_NAMESPACE_BEGIN
+
+template <typename T, typename Engine>
+T __RandomReal(Engine& engine, const T min, const T max)
+{
+    // The distribution needs max - min to be representable.
+    if (max - min > std::numeric_limits<T>::max())
+    {
+        return std::uniform_real_distribution<T>{min / 2, max / 2}(engine) * 2;
+    }
+
+    return std::uniform_real_distribution<T>{min, max}(engine);
+}
+
+__CAITLYN_DETAIL_NAMESPACE_END
+
 template <typename T>
 T Random(T min = std::numeric_limits<T>::min(), T max = std::numeric_limits<T>::max());
 
@@ -76,21 +92,21 @@ template <>
 inline Float Random(const Float min, const Float max)
 {
     std::mt19937_64 engine(std::chrono::steady_clock::now().time_since_epoch().count());
-    return std::uniform_real_distribution<Float>{min, max}(engine);
+    return __Detail::__RandomReal<Float>(engine, min, max);
 }
 
 template <>
 inline Double Random(const Double min, const Double max)
 {
     std::mt19937_64 engine(std::chrono::steady_clock::now().time_since_epoch().count());
-    return std::uniform_real_distribution<Double>{min, max}(engine);
+    return __Detail::__RandomReal<Double>(engine, min, max);
 }
 
 template <>
 inline Decimal Random(const Decimal min, const Decimal max)
 {
     std::mt19937_64 engine(std::chrono::steady_clock::now().time_since_epoch().count());
-    return std::uniform_real_distribution<Decimal>{min, max}(engine);
+    return __Detail::__RandomReal<Decimal>(engine, min, max);
 }
 
 inline Bool RandomBoolean(const Double percentage = 0.5)
-- 
2.43.0


From 0b070a9db3d509508967df31339dcd46a2e35ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:46 +0000
Subject: [PATCH 45/70] fix: IsRValueReference answers for lvalue references

---
 include/Caitlyn/__Core/Traits/Constraints/Primary.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Traits/Constraints/Primary.h b/include/Caitlyn/__Core/Traits/Constraints/Primary.h
index bb3d563..006f3ae 100644
--- a/include/Caitlyn/__Core/Traits/Constraints/Primary.h
+++ b/include/Caitlyn/__Core/Traits/Constraints/Primary.h
@@ -109,7 +109,7 @@ constexpr Bool IsLValueReference()
 template <typename T>
 constexpr Bool IsRValueReference()
 {
-    return __Detail::__IsLValueReference<T>::Value;
+    return __Detail::__IsRValueReference<T>::Value;
 }
 
 template <typename T>
-- 
2.43.0


From dd4e839616fa5f8ae8d6bcf646b53d1eb1ee6215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:46 +0000
Subject: [PATCH 46/70] fix: RemoveConstType removes volatile and
 RemoveVolatileType removes const

---
 .../Caitlyn/__Core/Traits/Types/Specifiers.h  | 28 +++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Traits/Types/Specifiers.h b/include/Caitlyn/__Core/Traits/Types/Specifiers.h
index 0f8d23c..09fce84 100644
--- a/include/Caitlyn/__Core/Traits/Types/Specifiers.h
+++ b/include/Caitlyn/__Core/Traits/Types/Specifiers.h
@@ -41,6 +41,30 @@ struct __AddCV
     using Type = const volatile T;
 };
 
+template <typename T>
+struct __RemoveConst
+{
+    using Type = T;
+};
+
+template <typename T>
+struct __RemoveConst<const T>
+{
+    using Type = T;
+};
+
+template <typename T>
+struct __RemoveVolatile
+{
+    using Type = T;
+};
+
+template <typename T>
+struct __RemoveVolatile<volatile T>
+{
+    using Type = T;
+};
+
 template <typename T>
 struct __RemoveCV
 {
@@ -77,10 +101,10 @@ template <typename T>
 using AddCVType = typename __Detail::__AddCV<T>::Type;
 
 template <typename T>
-using RemoveConstType = typename __Detail::__RemoveCV<const T>::Type;
+using RemoveConstType = typename __Detail::__RemoveConst<T>::Type;
 
 template <typename T>
-using RemoveVolatileType = typename __Detail::__RemoveCV<volatile T>::Type;
+using RemoveVolatileType = typename __Detail::__RemoveVolatile<T>::Type;
 
 template <typename T>
 using RemoveCVType = typename __Detail::__RemoveCV<T>::Type;
-- 
2.43.0


From 2727b465d2d998a2536915ac5171c69b99d3a506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:46 +0000
Subject: [PATCH 47/70] fix: AlignmentOf, Rank and Extent return a boolean

---
 include/Caitlyn/__Core/Traits/Constraints/PropertyQueries.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Core/Traits/Constraints/PropertyQueries.h b/include/Caitlyn/__Core/Traits/Constraints/PropertyQueries.h
index ecb7625..5992642 100644
--- a/include/Caitlyn/__Core/Traits/Constraints/PropertyQueries.h
+++ b/include/Caitlyn/__Core/Traits/Constraints/PropertyQueries.h
@@ -25,19 +25,19 @@
 __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 
 template <typename T>
-constexpr Bool AlignmentOf()
+constexpr std::size_t AlignmentOf()
 {
     return std::alignment_of<T>::value;
 }
 
 template <typename T>
-constexpr Bool Rank()
+constexpr std::size_t Rank()
 {
     return std::rank<T>::value;
 }
 
 template <typename T>
-constexpr Bool Extent()
+constexpr std::size_t Extent()
 {
     return std::extent<T>::value;
 }
-- 
2.43.0


From 3b2d0079b8594a01480a59530786d57a383dba67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:46 +0000
Subject: [PATCH 48/70] fix: HasBitwiseOrOperatorType looks for operator &

---
 include/Caitlyn/__Core/Traits/Types/Operators.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Traits/Types/Operators.h b/include/Caitlyn/__Core/Traits/Types/Operators.h
index 6d83593..f58bf9d 100644
--- a/include/Caitlyn/__Core/Traits/Types/Operators.h
+++ b/include/Caitlyn/__Core/Traits/Types/Operators.h
@@ -160,7 +160,7 @@ struct HasBitwiseOrOperatorType : FalseType
 };
 
 template <typename T>
-struct HasBitwiseOrOperatorType<T, Indicator<decltype(std::declval<T>() & std::declval<T>())>> : TrueType
+struct HasBitwiseOrOperatorType<T, Indicator<decltype(std::declval<T>() | std::declval<T>())>> : TrueType
 {
 };
 
-- 
2.43.0


From 53c1dc5ef4ac2c04a3bbdd2fedf44608577dad25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:46 +0000
Subject: [PATCH 49/70] fix: HasIStreamOperatorType reads into a temporary and
 is false for readable types

---
 include/Caitlyn/__Core/Traits/Types/Operators.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Traits/Types/Operators.h b/include/Caitlyn/__Core/Traits/Types/Operators.h
index f58bf9d..98a60fc 100644
--- a/include/Caitlyn/__Core/Traits/Types/Operators.h
+++ b/include/Caitlyn/__Core/Traits/Types/Operators.h
@@ -200,7 +200,7 @@ struct HasIStreamOperatorType : FalseType
 };
 
 template <typename T>
-struct HasIStreamOperatorType<T, Indicator<decltype(std::declval<std::istream&>() >> std::declval<T>())>> : TrueType
+struct HasIStreamOperatorType<T, Indicator<decltype(std::declval<std::istream&>() >> std::declval<T&>())>> : TrueType
 {
 };
 
-- 
2.43.0


From 60717fc4fb45d338be5e1911db425e1ac8b01a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:04 +0000
Subject: [PATCH 50/70] fix: AddPointerType and AddLValueReferenceType ignore
 references

---
 include/Caitlyn/__Core/Traits/Types/Pointers.h   | 2 +-
 include/Caitlyn/__Core/Traits/Types/References.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Traits/Types/Pointers.h b/include/Caitlyn/__Core/Traits/Types/Pointers.h
index ad20df3..a135860 100644
--- a/include/Caitlyn/__Core/Traits/Types/Pointers.h
+++ b/include/Caitlyn/__Core/Traits/Types/Pointers.h
@@ -24,7 +24,7 @@ __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 __CAITLYN_DETAIL_NAMESPACE_BEGIN
 
 template <typename T>
-auto __TryAddPointer(T*) -> __TypeIdentity<RemoveReferenceType<T>*>;
+auto __TryAddPointer(RemoveReferenceType<T>*) -> __TypeIdentity<RemoveReferenceType<T>*>;
 
 template <typename T>
 auto __TryAddPointer(...) -> __TypeIdentity<T>;
diff --git a/include/Caitlyn/__Core/Traits/Types/References.h b/include/Caitlyn/__Core/Traits/Types/References.h
index effb246..ac302df 100644
--- a/include/Caitlyn/__Core/Traits/Types/References.h
+++ b/include/Caitlyn/__Core/Traits/Types/References.h
@@ -24,7 +24,7 @@ __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 __CAITLYN_DETAIL_NAMESPACE_BEGIN
 
 template <typename T>
-auto __TryAddLValueReference(T*) -> __TypeIdentity<T&>;
+auto __TryAddLValueReference(NullPtr) -> __TypeIdentity<T&>;
 
 template <typename T>
 auto __TryAddLValueReference(...) -> __TypeIdentity<T>;
-- 
2.43.0


From 47b84b0d1e85fcd5f07a45c4067d6fe4f00b9df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:36 +0000
Subject: [PATCH 51/70] fix: IsSigned and IsUnsigned do not compile for types
 that are not numbers

---
 .../Caitlyn/__Core/Traits/Types/Properties.h  | 27 +++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Traits/Types/Properties.h b/include/Caitlyn/__Core/Traits/Types/Properties.h
index 050dd3d..467655f 100644
--- a/include/Caitlyn/__Core/Traits/Types/Properties.h
+++ b/include/Caitlyn/__Core/Traits/Types/Properties.h
@@ -21,15 +21,38 @@
 #include "Caitlyn/__Core/Traits/Types/Base.h"
 
 __CAITLYN_GLOBAL_NAMESPACE_BEGIN
+__CAITLYN_DETAIL_NAMESPACE_BEGIN
+
+template <typename T, Bool = std::is_arithmetic<T>::value>
+struct __IsSigned : FalseType
+{
+};
+
+template <typename T>
+struct __IsSigned<T, true> : BooleanConstant<(T(-1) < T(0))>
+{
+};
+
+template <typename T, Bool = std::is_arithmetic<T>::value>
+struct __IsUnsigned : FalseType
+{
+};
+
+template <typename T>
+struct __IsUnsigned<T, true> : BooleanConstant<(T(0) < T(-1))>
+{
+};
+
+__CAITLYN_DETAIL_NAMESPACE_END
 __CAITLYN_TRAITS_NAMESPACE_BEGIN
 
 template <typename T>
-struct IsSignedType : BooleanConstant<std::is_arithmetic<T>::value && T(-1) < T(0)>
+struct IsSignedType : BooleanConstant<__Detail::__IsSigned<T>::Value>
 {
 };
 
 template <typename T>
-struct IsUnsignedType : BooleanConstant<std::is_arithmetic<T>::value && T(0) < T(-1)>
+struct IsUnsignedType : BooleanConstant<__Detail::__IsUnsigned<T>::Value>
 {
 };
 
-- 
2.43.0


From e282c479f8910dbfa5865e14fa60edab5c577ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:55 +0000
Subject: [PATCH 52/70] fix: IsInteger, IsIntegral, IsFloating and IsCharacter
 are false for const and volatile types

---
 include/Caitlyn/__Core/Traits/Constraints/Primary.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Core/Traits/Constraints/Primary.h b/include/Caitlyn/__Core/Traits/Constraints/Primary.h
index 006f3ae..bade596 100644
--- a/include/Caitlyn/__Core/Traits/Constraints/Primary.h
+++ b/include/Caitlyn/__Core/Traits/Constraints/Primary.h
@@ -43,25 +43,25 @@ constexpr Bool IsBoolean()
 template <typename T>
 constexpr Bool IsCharacter()
 {
-    return __Detail::__IsCharacter<T>::Value;
+    return __Detail::__IsCharacter<RemoveCVType<T>>::Value;
 }
 
 template <typename T>
 constexpr Bool IsInteger()
 {
-    return __Detail::__IsInteger<T>::Value;
+    return __Detail::__IsInteger<RemoveCVType<T>>::Value;
 }
 
 template <typename T>
 constexpr Bool IsIntegral()
 {
-    return __Detail::__IsCharacter<T>::Value || __Detail::__IsInteger<T>::Value || IsBooleanType<T>::Value;
+    return __Detail::__IsCharacter<RemoveCVType<T>>::Value || __Detail::__IsInteger<RemoveCVType<T>>::Value || IsBooleanType<T>::Value;
 }
 
 template <typename T>
 constexpr Bool IsFloating()
 {
-    return __Detail::__IsFloating<T>::Value;
+    return __Detail::__IsFloating<RemoveCVType<T>>::Value;
 }
 
 template <typename T>
-- 
2.43.0


From 6d6848688cb3d65ab38c38efda33d6fd0055fb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:13 +0000
Subject: [PATCH 53/70] fix: recognise 64-bit ARM before the generic LP64 test

---
 include/Caitlyn/__Caitlyn/Config.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Caitlyn/Config.h b/include/Caitlyn/__Caitlyn/Config.h
index c12b652..775439b 100644
--- a/include/Caitlyn/__Caitlyn/Config.h
+++ b/include/Caitlyn/__Caitlyn/Config.h
@@ -35,15 +35,15 @@
 #if defined(__i386__) || defined(_M_IX86) || defined(__32BIT__)
     #define __CAITLYN_ARCH_X86
     #define __CAITLYN_ARCH 32
+#elif defined(__aarch64__) || defined(_M_ARM64)
+    #define __CAITLYN_ARCH_ARM64
+    #define __CAITLYN_ARCH 64
 #elif defined(__LP64__) || defined(_LP64) || defined(__x86_64__) || defined(_M_X64)
     #define __CAITLYN_ARCH_X86_64
     #define __CAITLYN_ARCH 64
 #elif defined(__arm__) || defined(__ARM_ARCH_7__) || defined(__thumb__) || defined(_M_ARM)
     #define __CAITLYN_ARCH_ARM
     #define __CAITLYN_ARCH 32
-#elif defined(__aarch64__) || defined(_M_ARM64)
-    #define __CAITLYN_ARCH_ARM64
-    #define __CAITLYN_ARCH 64
 #else
     #error "Unsupported Architecture"
 #endif
-- 
2.43.0


From 7eb3a14cfbdb6a93dc4a70f85927cd0c5096f440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:13 +0000
Subject: [PATCH 54/70] fix: recognise Android before Linux

---
 include/Caitlyn/__Caitlyn/Config.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/Caitlyn/__Caitlyn/Config.h b/include/Caitlyn/__Caitlyn/Config.h
index 775439b..36608ed 100644
--- a/include/Caitlyn/__Caitlyn/Config.h
+++ b/include/Caitlyn/__Caitlyn/Config.h
@@ -49,7 +49,10 @@
 #endif
 
 //Operating System
-#if defined(__linux__) || defined(__linux) || defined(__gnu_linux__)
+#if defined(__ANDROID__)
+    #define __CAITLYN_OS_ANDROID
+    #define __CAITLYN_OS_NAME "Android"
+#elif defined(__linux__) || defined(__linux) || defined(__gnu_linux__)
     #define __CAITLYN_OS_LINUX
     #define __CAITLYN_OS_NAME "Linux"
 #elif defined(__APPLE__) && defined(__MACH__)
@@ -58,14 +61,11 @@
 #elif defined(_WIN32) || defined(__WIN32__) || defined(WIN32) || defined(_WIN64)
     #define __CAITLYN_OS_WINDOWS
     #define __CAITLYN_OS_NAME "Windows"
-#elif defined(__ANDROID__)
-    #define __CAITLYN_OS_ANDROID
-    #define __CAITLYN_OS_NAME "Android"
 #else
     #error "Unsupported Operating System"
 #endif
 
-#if defined(__CAITLYN_OS_LINUX) || defined(__CAITLYN_OS_APPLE)
+#if defined(__CAITLYN_OS_LINUX) || defined(__CAITLYN_OS_APPLE) || defined(__CAITLYN_OS_ANDROID)
     #define __CAITLYN_OS_UNIX
 #endif
 
-- 
2.43.0


From 1582a99e5637933f5c2615793b84da1fbbc0d229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:13 +0000
Subject: [PATCH 55/70] fix: end the version text with the patch version

---
 include/Caitlyn/__Caitlyn/Config.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Caitlyn/Config.h b/include/Caitlyn/__Caitlyn/Config.h
index 36608ed..e7f9f9f 100644
--- a/include/Caitlyn/__Caitlyn/Config.h
+++ b/include/Caitlyn/__Caitlyn/Config.h
@@ -29,7 +29,7 @@
 
 #define __CAITLYN_VERSION                                                                                              \
     "Caitlyn " __CAITLYN_TOSTRING(__CAITLYN_MAJOR_VERSION__) "." __CAITLYN_TOSTRING(                                   \
-        __CAITLYN_MINOR_VERSION__) "." __CAITLYN_TOSTRING(__CAITLYN_MINOR_VERSION__)
+        __CAITLYN_MINOR_VERSION__) "." __CAITLYN_TOSTRING(__CAITLYN_PATCH_VERSION__)
 
 //Architecture
 #if defined(__i386__) || defined(_M_IX86) || defined(__32BIT__)
-- 
2.43.0


From 6e4cfec4d9c04817cad6eda036e715ee2fdb533a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:10 +0000
Subject: [PATCH 56/70] fix: spell the standard guards of Utility.h as they are
 defined

---
 include/Caitlyn/__Core/Utility.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Utility.h b/include/Caitlyn/__Core/Utility.h
index 078a233..195e758 100644
--- a/include/Caitlyn/__Core/Utility.h
+++ b/include/Caitlyn/__Core/Utility.h
@@ -36,13 +36,13 @@
 #include "Caitlyn/__Core/Utility/Comparators.h"
 #include "Caitlyn/__Core/Utility/Random.h"
 
-#if __caitlyn_has_cxx17
+#if __CAITLYN_HAS_CXX17
     #include <any>
     #include <optional>
     #include <variant>
 #endif
 
-#if __caitlyn_has_cxx20
+#if __CAITLYN_HAS_CXX20
     #include <source_location>
     #include <version>
 #endif
-- 
2.43.0


From 9bd2851a6f13831d39f756b9c3230218928af306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:24 +0000
Subject: [PATCH 57/70] fix: SharedPtr deletes its object if its counter cannot
 be allocated

---
 .../Caitlyn/__Core/Memory/Types/SharedPointer.h   | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index ca09c04..e73e60d 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -43,8 +43,21 @@ public:
 public:
     SharedPtr() = default;
 
-    SharedPtr(Pointer data) : data_{data}, ref_count_{data ? new ControlBlock : nullptr}
+    SharedPtr(Pointer data) : data_{data}
     {
+        if (!data)
+        {
+            return;
+        }
+        try
+        {
+            ref_count_ = new ControlBlock;
+        }
+        catch (...)
+        {
+            delete data;
+            throw;
+        }
     }
 
     SharedPtr(const SharedPtr& other) : data_{other.data_}, ref_count_{other.ref_count_}
-- 
2.43.0


From 732c6038b43918aedd7ace1c5d03649a88b727a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:24 +0000
Subject: [PATCH 58/70] fix: a failed Application::Initialize does not keep
 arguments

---
 include/Caitlyn/__Caitlyn/Application.h | 27 +++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/Caitlyn/__Caitlyn/Application.h b/include/Caitlyn/__Caitlyn/Application.h
index 90d7ef8..0aefeea 100644
--- a/include/Caitlyn/__Caitlyn/Application.h
+++ b/include/Caitlyn/__Caitlyn/Application.h
@@ -104,22 +104,37 @@ private:
     {
         if (argc > 0)
         {
-            args_.reserve(argc);
-            for (int i = 0; i < argc; ++i)
+            try
             {
-                auto arg_copy = new char[std::strlen(argv[i]) + 1];
-                std::strcpy(arg_copy, argv[i]);
-                args_.emplace_back(arg_copy);
+                args_.reserve(argc);
+                for (int i = 0; i < argc; ++i)
+                {
+                    auto arg_copy = new char[std::strlen(argv[i]) + 1];
+                    std::strcpy(arg_copy, argv[i]);
+                    args_.emplace_back(arg_copy);
+                }
+            }
+            catch (...)
+            {
+                // The next attempt starts anew
+                ClearArgs();
+                throw;
             }
         }
     }
 
-    ~Application()
+    void ClearArgs()
     {
         for (const char* arg : args_)
         {
             delete[] arg;
         }
+        args_.clear();
+    }
+
+    ~Application()
+    {
+        ClearArgs();
     }
 
 private:
-- 
2.43.0


From 19ec4394cbfd45c8fa77c0cd157e2bf6ad5fbb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:35 +0000
Subject: [PATCH 59/70] fix: JSON values leak nothing when memory runs out

---
 .../__Serializing/Json/Types/JsonData.h       | 42 +++++++++++--------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index b13e208..b99fc1b 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -20,8 +20,8 @@
 
 #include <algorithm>
 #include <cmath>
-#include <deque>
 #include <limits>
+#include <memory>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -39,7 +39,7 @@ __CAITLYN_DETAIL_NAMESPACE_BEGIN
 class JsonData
 {
 public:
-    using ArrayType = std::deque<JsonData*>;
+    using ArrayType = std::vector<JsonData*>;
     using ObjectType = std::vector<std::pair<String, JsonData*>>;
     using StringType = String;
     using NullType = NullPtr;
@@ -57,7 +57,8 @@ public:
     {
     }
 
-    JsonData(const JsonData& other) : type_(other.type_)
+    // A failed copy is destroyed with what it holds by then
+    JsonData(const JsonData& other) : JsonData()
     {
         CopyUnion(other);
     }
@@ -176,8 +177,9 @@ public:
 
         if (it == object.end())
         {
-            object.emplace_back(key, new JsonData());
-            return *object.back().second;
+            std::unique_ptr<JsonData> item{new JsonData()};
+            object.emplace_back(key, item.get());
+            return *item.release();
         }
         return *it->second;
     }
@@ -188,7 +190,9 @@ public:
         auto& array = data_.array_value;
         while (index >= array.size())
         {
-            array.emplace_back(new JsonData());
+            std::unique_ptr<JsonData> item{new JsonData()};
+            array.emplace_back(item.get());
+            item.release();
         }
         return *array[index];
     }
@@ -240,7 +244,9 @@ public:
         {
             SetType(JsonClass::Array);
         }
-        data_.array_value.emplace_back(new JsonData{arg});
+        std::unique_ptr<JsonData> item{new JsonData{arg}};
+        data_.array_value.emplace_back(item.get());
+        item.release();
     }
 
     template <typename T, typename... Args>
@@ -536,35 +542,35 @@ private:
 
     void CopyUnion(const JsonData& other)
     {
+        SetType(other.type_);
         switch (other.type_)
         {
-            case JsonClass::Null:
-                new (&data_.null_value) NullType(nullptr);
-                break;
             case JsonClass::String:
-                new (&data_.string_value) StringType(other.data_.string_value);
+                data_.string_value = other.data_.string_value;
                 break;
             case JsonClass::Floating:
-                new (&data_.floating_value) FloatingType(other.data_.floating_value);
+                data_.floating_value = other.data_.floating_value;
                 break;
             case JsonClass::Integral:
-                new (&data_.integral_value) IntegralType(other.data_.integral_value);
+                data_.integral_value = other.data_.integral_value;
                 break;
             case JsonClass::Boolean:
-                new (&data_.boolean_value) BooleanType(other.data_.boolean_value);
+                data_.boolean_value = other.data_.boolean_value;
                 break;
             case JsonClass::Array:
-                new (&data_.array_value) ArrayType();
                 for (const auto* item : other.data_.array_value)
                 {
-                    data_.array_value.emplace_back(new JsonData{*item});
+                    std::unique_ptr<JsonData> copy{new JsonData{*item}};
+                    data_.array_value.emplace_back(copy.get());
+                    copy.release();
                 }
                 break;
             case JsonClass::Object:
-                new (&data_.object_value) ObjectType();
                 for (const auto& item : other.data_.object_value)
                 {
-                    data_.object_value.emplace_back(item.first, new JsonData{*item.second});
+                    std::unique_ptr<JsonData> copy{new JsonData{*item.second}};
+                    data_.object_value.emplace_back(item.first, copy.get());
+                    copy.release();
                 }
                 break;
             default:
-- 
2.43.0


From a11d2b630ed7fe9239bfc439657e1782bdf4e5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:35 +0000
Subject: [PATCH 60/70] fix: a number that cannot be parsed for want of memory
 is not an invalid number

---
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 1e789c4..09d9a1d 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -432,7 +432,7 @@ private:
             SetErrorPosition(position_);
             return JsonData{};
         }
-        catch (const std::exception&)
+        catch (const std::invalid_argument&)
         {
             SetError(JsonError::InvalidNumber);
             SetErrorPosition(position_);
-- 
2.43.0


From 02b784904736ceb1325ada13e64d60d46e5d943e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:35 +0000
Subject: [PATCH 61/70] fix: text is not truncated silently when memory runs
 out

---
 include/Caitlyn/__Core/Char/Char.h                |  1 +
 include/Caitlyn/__Core/File/File.h                |  1 +
 include/Caitlyn/__Core/String/String.h            |  3 +++
 include/Caitlyn/__Core/String/StringBuilder.h     | 15 ++++++++++-----
 include/Caitlyn/__Core/String/Utility.h           |  3 +++
 include/Caitlyn/__Serializing/Json/Types/Json.h   | 10 ++++------
 .../Caitlyn/__Serializing/Json/Types/JsonData.h   |  2 ++
 .../Caitlyn/__Serializing/Json/Types/JsonParser.h |  1 +
 8 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/include/Caitlyn/__Core/Char/Char.h b/include/Caitlyn/__Core/Char/Char.h
index 80d0836..bfe3fba 100644
--- a/include/Caitlyn/__Core/Char/Char.h
+++ b/include/Caitlyn/__Core/Char/Char.h
@@ -210,6 +210,7 @@ private:
             return DataType{static_cast<char>(codePoint)};
         }
         std::ostringstream oss;
+        oss.exceptions(std::ios_base::badbit);
 
         if (length == 2)
         {
diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index 36cd129..637eed4 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -157,6 +157,7 @@ public:
         file_.seekg(currentPosition_, std::ios::beg);
 
         std::ostringstream result;
+        result.exceptions(std::ios_base::badbit);
         char ch;
         while (file_.get(ch))
         {
diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 908f1c5..af0cdc3 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -485,6 +485,7 @@ public:
     std::basic_string<char> str() const
     {
         std::ostringstream oss;
+        oss.exceptions(std::ios_base::badbit);
 
         for (const auto& elem : data_)
         {
@@ -583,6 +584,7 @@ public:
         const std::vector<String> arguments{Formatter::ToString(std::forward<Args>(args))...};
 
         std::ostringstream result;
+        result.exceptions(std::ios_base::badbit);
         SizeType auto_index = 0;
         SizeType pos = 0;
 
@@ -936,6 +938,7 @@ private:
         static String ProcessFloating(const String& value, const FormatSpecifier& spec)
         {
             std::ostringstream oss;
+            oss.exceptions(std::ios_base::badbit);
             const auto dot_index = value.Find(Def::FullStop);
 
             if (spec.precision < 0)
diff --git a/include/Caitlyn/__Core/String/StringBuilder.h b/include/Caitlyn/__Core/String/StringBuilder.h
index 7b9737c..765cf42 100644
--- a/include/Caitlyn/__Core/String/StringBuilder.h
+++ b/include/Caitlyn/__Core/String/StringBuilder.h
@@ -28,31 +28,36 @@ public:
     using data_type = std::ostringstream;
 
 public:
-    StringBuilder() = default;
+    StringBuilder()
+    {
+        // Running out of memory is reported instead of losing text
+        data_.exceptions(std::ios_base::badbit);
+    }
 
-    StringBuilder(const char str)
+    StringBuilder(const char str) : StringBuilder()
     {
         data_ << str;
     }
 
-    StringBuilder(const char* str)
+    StringBuilder(const char* str) : StringBuilder()
     {
         data_ << str;
     }
 
-    StringBuilder(const String& str)
+    StringBuilder(const String& str) : StringBuilder()
     {
         data_ << str;
     }
 
     template <typename... Args>
-    StringBuilder(const String& str, Args&&... args)
+    StringBuilder(const String& str, Args&&... args) : StringBuilder()
     {
         data_ << String::Format(str, std::forward<Args>(args)...);
     }
 
     StringBuilder(const StringBuilder& other) : data_{other.data_.str(), std::ios_base::ate}
     {
+        data_.exceptions(std::ios_base::badbit);
     }
 
     StringBuilder(StringBuilder&& other) noexcept : data_{std::move(other.data_)}
diff --git a/include/Caitlyn/__Core/String/Utility.h b/include/Caitlyn/__Core/String/Utility.h
index 2b6c7b4..1a180d4 100644
--- a/include/Caitlyn/__Core/String/Utility.h
+++ b/include/Caitlyn/__Core/String/Utility.h
@@ -30,6 +30,7 @@ __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 inline std::vector<std::string> Split(const std::string& text, const char delim)
 {
     std::stringstream ss{text};
+    ss.exceptions(std::ios_base::badbit);
     std::string item;
     std::vector<std::string> data;
 
@@ -43,6 +44,7 @@ inline std::vector<std::string> Split(const std::string& text, const char delim)
 inline std::string Repeat(const std::string& str, const size_t count)
 {
     std::stringstream ss;
+    ss.exceptions(std::ios_base::badbit);
     for (size_t i = 0; i < count; ++i)
     {
         ss << str;
@@ -103,6 +105,7 @@ __CAITLYN_DETAIL_NAMESPACE_END
 inline String EscapeString(const String& str)
 {
     std::ostringstream oss;
+    oss.exceptions(std::ios_base::badbit);
 
     for (size_t i = 0; i < str.size(); ++i)
     {
diff --git a/include/Caitlyn/__Serializing/Json/Types/Json.h b/include/Caitlyn/__Serializing/Json/Types/Json.h
index ae38491..6fd5653 100644
--- a/include/Caitlyn/__Serializing/Json/Types/Json.h
+++ b/include/Caitlyn/__Serializing/Json/Types/Json.h
@@ -19,6 +19,8 @@
 #define CAITLYN_SERIALIZING_JSON_TYPES_DOCUMENT_H_
 
 #include <fstream>
+#include <iterator>
+#include <string>
 
 #include "Caitlyn/__Serializing/Json/Types/JsonParser.h"
 #include "Caitlyn/__Serializing/Json/Utility.h"
@@ -121,9 +123,7 @@ public:
 
     void Parse(const std::ifstream& ifs)
     {
-        std::ostringstream buffer;
-        buffer << ifs.rdbuf();
-        Parse(buffer.str());
+        Parse(std::string{std::istreambuf_iterator<char>{ifs.rdbuf()}, std::istreambuf_iterator<char>{}});
     }
 
     void AddMember(const String& key, const DataType& value)
@@ -218,9 +218,7 @@ __CAITLYN_GLOBAL_NAMESPACE_END
 
 inline std::istream& operator>>(std::istream& is, Caitlyn::JsonDocument& value)
 {
-    std::ostringstream buffer;
-    buffer << is.rdbuf();
-    value.Parse(buffer.str());
+    value.Parse(std::string{std::istreambuf_iterator<char>{is.rdbuf()}, std::istreambuf_iterator<char>{}});
     return is;
 }
 
diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index b99fc1b..aedda63 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -364,6 +364,7 @@ public:
     StringType ToString(const BooleanType mangling = false, const SizeType indent = 2) const
     {
         std::ostringstream oss;
+        oss.exceptions(std::ios_base::badbit);
         MakeOutput(oss, mangling, indent, indent);
         return oss.str();
     }
@@ -525,6 +526,7 @@ private:
         for (int precision = 6; precision <= std::numeric_limits<FloatingType>::max_digits10; ++precision)
         {
             std::ostringstream number;
+            number.exceptions(std::ios_base::badbit);
             number.precision(precision);
             number << value;
             text = number.str();
diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 09d9a1d..1b7b3a7 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -294,6 +294,7 @@ private:
     {
         Next();
         std::ostringstream escaped_stream;
+        escaped_stream.exceptions(std::ios_base::badbit);
 
         while (position_ < json_.size() && json_[position_] != Def::QuotationMark)
         {
-- 
2.43.0


From 09305edfb90dae8a50fdd2da2fe3d0fbe0b09a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:37 +0000
Subject: [PATCH 62/70] fix: IntPtr and UIntPtr have the width of a pointer on
 every platform

---
 include/Caitlyn/__Caitlyn/Types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Caitlyn/Types.h b/include/Caitlyn/__Caitlyn/Types.h
index f2cac7e..470bfc0 100644
--- a/include/Caitlyn/__Caitlyn/Types.h
+++ b/include/Caitlyn/__Caitlyn/Types.h
@@ -62,8 +62,8 @@ using __int64_t = __signed_long_long_t;
 using __uint64_t = __unsigned_long_long_t;
 using __intmax_t = __signed_long_long_t;
 using __uintmax_t = __unsigned_long_long_t;
-using __intptr_t = __signed_long_long_t;
-using __uintptr_t = __unsigned_long_long_t;
+using __intptr_t = decltype(static_cast<int*>(nullptr) - static_cast<int*>(nullptr));
+using __uintptr_t = decltype(sizeof(0));
 #endif
 
 using __float32_t = decltype(.0f);
-- 
2.43.0


From 30250210374cc5924ea04d45c33979c58ae24633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:19 +0000
Subject: [PATCH 63/70] fix: an Expected keeps its content when moving a
 payload throws during assignment

---
 include/Caitlyn/__Core/Error/Expected.h | 68 ++++++++++++++++++++++---
 1 file changed, 62 insertions(+), 6 deletions(-)

diff --git a/include/Caitlyn/__Core/Error/Expected.h b/include/Caitlyn/__Core/Error/Expected.h
index d802b4b..a09ea8b 100644
--- a/include/Caitlyn/__Core/Error/Expected.h
+++ b/include/Caitlyn/__Core/Error/Expected.h
@@ -91,19 +91,21 @@ public:
     }
 
     Expected& operator=(Expected&& other)
-        noexcept(NothrowMoveAssignable<ValueType>() && NothrowMoveAssignable<ErrorType>())
+        noexcept(NothrowMoveConstructible<ValueType>() && NothrowMoveConstructible<ErrorType>())
     {
         if (this != &other)
         {
-            DestroyUnion();
-            hasValue_ = other.hasValue_;
-            if (hasValue_)
+            if (hasValue_ != other.hasValue_)
             {
-                new (&data_.value) ValueType{std::move(other.data_.value)};
+                ChangeSide(std::move(other));
+            }
+            else if (hasValue_)
+            {
+                Renew(data_.value, std::move(other.data_.value));
             }
             else
             {
-                new (&data_.error) Unexpected<ErrorType>{std::move(other.data_.error)};
+                Renew(data_.error, std::move(other.data_.error));
             }
         }
         return *this;
@@ -306,6 +308,60 @@ public:
         return error_func(data_.error.Get(), std::forward<Args>(args)...);
     }
 
+private:
+    // Takes over content of the same side; content whose move may throw is assigned, so that it survives
+    template <typename Content>
+    Required<NothrowMoveConstructible<Content>() || !MoveAssignable<Content>()>
+    Renew(Content& content, Content&& source)
+    {
+        DestroyUnion();
+        new (&content) Content{std::move(source)};
+    }
+
+    template <typename Content>
+    Required<!NothrowMoveConstructible<Content>() && MoveAssignable<Content>()>
+    Renew(Content& content, Content&& source)
+    {
+        content = std::move(source);
+    }
+
+    void ChangeSide(Expected&& other)
+    {
+        if (other.hasValue_)
+        {
+            Replace(data_.error, data_.value, std::move(other.data_.value));
+        }
+        else
+        {
+            Replace(data_.value, data_.error, std::move(other.data_.error));
+        }
+        hasValue_ = other.hasValue_;
+    }
+
+    // Replaces the content by content of the other side; if that throws, the old content is put back
+    template <typename Old, typename New>
+    Required<NothrowMoveConstructible<New>()> Replace(Old&, New& content, New&& source)
+    {
+        DestroyUnion();
+        new (&content) New{std::move(source)};
+    }
+
+    template <typename Old, typename New>
+    Required<!NothrowMoveConstructible<New>()> Replace(Old& old, New& content, New&& source)
+    {
+        Old backup{std::move(old)};
+        DestroyUnion();
+        try
+        {
+            new (&content) New{std::move(source)};
+        }
+        catch (...)
+        {
+            new (&old) Old{std::move(backup)};
+            throw;
+        }
+    }
+
 private:
     template <typename Result = T, typename Error = E>
     Required<Destructible<Result>() && !Destructible<Error>()> DestroyUnion()
-- 
2.43.0


From f2e40c3b15e11f778a4d407aa6a427602a5d3266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:47 +0000
Subject: [PATCH 64/70] fix: numbers are printed and read the same way whatever
 the process's locale is

---
 include/Caitlyn/__Core/String/Decimal.h       | 66 +++++++++++++++++++
 include/Caitlyn/__Core/String/String.h        |  3 +-
 include/Caitlyn/__Numeric/Types/BigFloat.h    |  2 +-
 .../__Serializing/Json/Types/JsonData.h       |  6 +-
 .../__Serializing/Json/Types/JsonParser.h     |  2 +-
 5 files changed, 75 insertions(+), 4 deletions(-)
 create mode 100644 include/Caitlyn/__Core/String/Decimal.h

diff --git a/include/Caitlyn/__Core/String/Decimal.h b/include/Caitlyn/__Core/String/Decimal.h
new file mode 100644
index 0000000..7b3a1e7
--- /dev/null
+++ b/include/Caitlyn/__Core/String/Decimal.h
@@ -0,0 +1,66 @@
+/**
+ * This file is part of the Caitlyn library
+ * Copyright (C) 2024 Alexander Szawrowski
+ *
+ * This program is free software: you can redistribute it and/or modify
+ * it under the terms of the GNU General Public License as published by
+ * the Free Software Foundation, version 3.
+ *
+ * This program is distributed in the hope that it will be useful,
+ * but WITHOUT ANY WARRANTY; without even the implied warranty of
+ * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ * GNU General Public License for more details.
+ *
+ * You should have received a copy of the GNU General Public License
+ * along with this program.  If not, see <https://www.gnu.org/licenses/>.
+ */
+
+#ifndef CAITLYN_CORE_STRING_DECIMAL_H_
+#define CAITLYN_CORE_STRING_DECIMAL_H_
+
+#include <ios>
+#include <limits>
+#include <locale>
+#include <sstream>
+#include <stdexcept>
+#include <string>
+
+#include "Caitlyn/__Base.h"
+
+__CAITLYN_GLOBAL_NAMESPACE_BEGIN
+__CAITLYN_DETAIL_NAMESPACE_BEGIN
+
+// Same text as std::to_string, but with a full stop whatever the locale of the process is
+template <typename T>
+std::string DecimalToString(const T value)
+{
+    std::ostringstream oss;
+    oss.exceptions(std::ios_base::badbit);
+    oss.imbue(std::locale::classic());
+    oss << std::fixed << value;
+    return oss.str();
+}
+
+// Same number as std::stod, but with a full stop whatever the locale of the process is
+inline double DecimalFromString(const std::string& text, size_t& parsed)
+{
+    std::istringstream iss{text};
+    iss.exceptions(std::ios_base::badbit);
+    iss.imbue(std::locale::classic());
+    double value{};
+    if (!(iss >> value))
+    {
+        if (value >= std::numeric_limits<double>::max() || value <= std::numeric_limits<double>::lowest())
+        {
+            throw std::out_of_range{"Number is out of range"};
+        }
+        throw std::invalid_argument{"Text is not a number"};
+    }
+    parsed = iss.eof() ? text.size() : static_cast<size_t>(iss.tellg());
+    return value;
+}
+
+__CAITLYN_DETAIL_NAMESPACE_END
+__CAITLYN_GLOBAL_NAMESPACE_END
+
+#endif // CAITLYN_CORE_STRING_DECIMAL_H_
diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index af0cdc3..afe65af 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -29,6 +29,7 @@
 
 #include "Caitlyn/__Base.h"
 #include "Caitlyn/__Core/Char.h"
+#include "Caitlyn/__Core/String/Decimal.h"
 #include "Caitlyn/__Core/Traits/Constraints/String.h"
 #include "Caitlyn/__Core/Traits/Types/Base.h"
 #include "Caitlyn/__Core/Traits/Types/Primary.h"
@@ -736,7 +737,7 @@ private:
         template <typename T>
         static Required<IsFloating<T>(), String> ToString(const T& value)
         {
-            return std::to_string(value);
+            return __Detail::DecimalToString(value);
         }
 
         template <typename T>
diff --git a/include/Caitlyn/__Numeric/Types/BigFloat.h b/include/Caitlyn/__Numeric/Types/BigFloat.h
index 854a18b..acf171a 100644
--- a/include/Caitlyn/__Numeric/Types/BigFloat.h
+++ b/include/Caitlyn/__Numeric/Types/BigFloat.h
@@ -30,7 +30,7 @@ public:
 public:
     BigFloat() = default;
 
-    BigFloat(const double value) : BigFloat{std::to_string(value)}
+    BigFloat(const double value) : BigFloat{__Detail::DecimalToString(value)}
     {
     }
 
diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index aedda63..bab04a2 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -21,6 +21,7 @@
 #include <algorithm>
 #include <cmath>
 #include <limits>
+#include <locale>
 #include <memory>
 #include <sstream>
 #include <stdexcept>
@@ -365,6 +366,7 @@ public:
     {
         std::ostringstream oss;
         oss.exceptions(std::ios_base::badbit);
+        oss.imbue(std::locale::classic());
         MakeOutput(oss, mangling, indent, indent);
         return oss.str();
     }
@@ -523,14 +525,16 @@ private:
         }
         // The shortest text that is read back as the same number
         std::string text;
+        SizeType parsed{};
         for (int precision = 6; precision <= std::numeric_limits<FloatingType>::max_digits10; ++precision)
         {
             std::ostringstream number;
             number.exceptions(std::ios_base::badbit);
+            number.imbue(std::locale::classic());
             number.precision(precision);
             number << value;
             text = number.str();
-            if (static_cast<FloatingType>(std::stod(text)) == value)
+            if (static_cast<FloatingType>(Caitlyn::__Detail::DecimalFromString(text, parsed)) == value)
             {
                 break;
             }
diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 1b7b3a7..3198a63 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -411,7 +411,7 @@ private:
                 number_str.Find(Def::LatinSmallLetterE) != String::NPosition ||
                 number_str.Find(Def::LatinCapitalLetterE) != String::NPosition)
             {
-                const auto value = static_cast<JsonData::FloatingType>(std::stod(number_str.str(), &parsed));
+                const auto value = static_cast<JsonData::FloatingType>(Caitlyn::__Detail::DecimalFromString(number_str.str(), parsed));
                 if (std::isinf(value))
                 {
                     throw std::out_of_range{"Number is out of range"};
-- 
2.43.0


From 53657611aaba4692cee66485be9f5a64e7a4fdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:36 +0000
Subject: [PATCH 65/70] fix: the application can be initialised from static
 constructors

---
 include/Caitlyn/__Caitlyn/Application.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Caitlyn/Application.h b/include/Caitlyn/__Caitlyn/Application.h
index 0aefeea..3f35da2 100644
--- a/include/Caitlyn/__Caitlyn/Application.h
+++ b/include/Caitlyn/__Caitlyn/Application.h
@@ -35,6 +35,13 @@ class Application;
 template <typename T>
 struct __ApplicationState
 {
+    // Also reached from static constructors, before application_ is set
+    static T* Instance()
+    {
+        static T* const instance = new T();
+        return instance;
+    }
+
     static T* application_;
     static bool initialized_;
 };
@@ -54,6 +61,7 @@ public:
             throw std::runtime_error("caitlyn::init can only be called once.");
         }
 
+        State::application_ = State::Instance();
         State::initialized_ = true;
         return State::application_;
     }
@@ -65,6 +73,7 @@ public:
             throw std::runtime_error("caitlyn::init can only be called once.");
         }
 
+        State::application_ = State::Instance();
         State::application_->SetArgs(argc, argv);
         State::initialized_ = true;
 
@@ -155,7 +164,7 @@ private:
 };
 
 template <typename T>
-T* __ApplicationState<T>::application_ = new T();
+T* __ApplicationState<T>::application_ = __ApplicationState<T>::Instance();
 
 template <typename T>
 bool __ApplicationState<T>::initialized_ = false;
-- 
2.43.0


From 47f35c7c31a8fb16f7621d57d3257faa25056096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:36 +0000
Subject: [PATCH 66/70] fix: character tables can be used until the end of the
 program

---
 include/Caitlyn/__Core/Char/Utility.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/Caitlyn/__Core/Char/Utility.h b/include/Caitlyn/__Core/Char/Utility.h
index 6964ff5..728e140 100644
--- a/include/Caitlyn/__Core/Char/Utility.h
+++ b/include/Caitlyn/__Core/Char/Utility.h
@@ -25,9 +25,11 @@
 
 __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 
+// The tables are never destroyed: destructors of static objects may use them.
+
 inline bool IsSpace(const CodePoint codePoint)
 {
-    static const std::unordered_set<CodePoint> SpaceCodepoints{
+    static const std::unordered_set<CodePoint>& SpaceCodepoints = *new std::unordered_set<CodePoint>{
         CodePoint{0x0009}, // CHARACTER TABULATION
         CodePoint{0x000A}, // LINE FEED
         CodePoint{0x000B}, // LINE TABULATION
@@ -136,7 +138,7 @@ inline bool IsDigit(const CodePoint codePoint)
 
 inline CodePoint ToUppercase(const CodePoint codePoint)
 {
-    static const std::unordered_map<CodePoint, CodePoint> SpecialCaseUpper{
+    static const std::unordered_map<CodePoint, CodePoint>& SpecialCaseUpper = *new std::unordered_map<CodePoint, CodePoint>{
         {CodePoint{0x00DF}, CodePoint{0x1E9E}}, // ß -> ẞ
         {CodePoint{0x0131}, CodePoint{0x0049}}, // ı -> I
         {CodePoint{0x0149}, CodePoint{0x02BC}}  // ŉ -> ’n
@@ -251,7 +253,7 @@ inline CodePoint ToUppercase(const CodePoint codePoint)
 
 inline CodePoint ToLowercase(const CodePoint codePoint)
 {
-    static const std::unordered_map<CodePoint, CodePoint> SpecialCaseLower{
+    static const std::unordered_map<CodePoint, CodePoint>& SpecialCaseLower = *new std::unordered_map<CodePoint, CodePoint>{
         {CodePoint{0x1E9E}, CodePoint{0x00DF}}, // ẞ -> ß
         {CodePoint{0x0130}, CodePoint{0x0069}}, // İ -> i
         {CodePoint{0x212A}, CodePoint{0x006B}}, // K -> k
@@ -393,7 +395,7 @@ inline Char ToLowercase(const Char& value)
 
 inline bool IsUppercase(const CodePoint codePoint)
 {
-    static const std::unordered_set<CodePoint> SpecialUppercase{
+    static const std::unordered_set<CodePoint>& SpecialUppercase = *new std::unordered_set<CodePoint>{
         CodePoint{0x1E9E}, // ẞ
         CodePoint{0x0130}, // İ
         CodePoint{0x212A}, // K
@@ -468,7 +470,7 @@ inline bool IsUppercase(const CodePoint codePoint)
 
 inline bool IsLowercase(const CodePoint codePoint)
 {
-    static const std::unordered_set<CodePoint> SpecialLowercase{
+    static const std::unordered_set<CodePoint>& SpecialLowercase = *new std::unordered_set<CodePoint>{
         CodePoint{0x00DF}, // ß
         CodePoint{0x0131}, // ı
         CodePoint{0x0149}  // ŉ
-- 
2.43.0


From 736a349020d976bf00dd2fa2f6435ca93ea6f7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:42 +0000
Subject: [PATCH 67/70] fix: the default of Expected can be used until the end
 of the program

---
 include/Caitlyn/__Core/Error/Expected.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Error/Expected.h b/include/Caitlyn/__Core/Error/Expected.h
index a09ea8b..5513d37 100644
--- a/include/Caitlyn/__Core/Error/Expected.h
+++ b/include/Caitlyn/__Core/Error/Expected.h
@@ -213,7 +213,8 @@ public:
 
     const ValueType& UnwrapOrDefault() const
     {
-        static const ValueType default_value{};
+        // Never destroyed: callers may keep the reference until the program's end
+        static const ValueType& default_value = *new ValueType{};
         return UnwrapOrDefault(default_value);
     }
 
-- 
2.43.0


From 0f4df27615b68c95256f5d08a1b948c8d0552fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:42 +0000
Subject: [PATCH 68/70] fix: an Expected can be assigned from a part of its own
 content

---
 include/Caitlyn/__Core/Error/Expected.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Core/Error/Expected.h b/include/Caitlyn/__Core/Error/Expected.h
index 5513d37..b1757d2 100644
--- a/include/Caitlyn/__Core/Error/Expected.h
+++ b/include/Caitlyn/__Core/Error/Expected.h
@@ -315,8 +315,10 @@ private:
     Required<NothrowMoveConstructible<Content>() || !MoveAssignable<Content>()>
     Renew(Content& content, Content&& source)
     {
+        // The source may be a part of the old content
+        Content value{std::move(source)};
         DestroyUnion();
-        new (&content) Content{std::move(source)};
+        new (&content) Content{std::move(value)};
     }
 
     template <typename Content>
@@ -328,7 +330,8 @@ private:
 
     void ChangeSide(Expected&& other)
     {
-        if (other.hasValue_)
+        const bool has_value = other.hasValue_;
+        if (has_value)
         {
             Replace(data_.error, data_.value, std::move(other.data_.value));
         }
@@ -336,15 +339,16 @@ private:
         {
             Replace(data_.value, data_.error, std::move(other.data_.error));
         }
-        hasValue_ = other.hasValue_;
+        hasValue_ = has_value;
     }
 
     // Replaces the content by content of the other side; if that throws, the old content is put back
     template <typename Old, typename New>
     Required<NothrowMoveConstructible<New>()> Replace(Old&, New& content, New&& source)
     {
+        New value{std::move(source)};
         DestroyUnion();
-        new (&content) New{std::move(source)};
+        new (&content) New{std::move(value)};
     }
 
     template <typename Old, typename New>
-- 
2.43.0


From 566de03f70a591caaa8b9f38fbb9527db0607013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:42 +0000
Subject: [PATCH 69/70] fix: a member is added to a JSON value under a key that
 is part of its old value

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index bab04a2..d0a1c1b 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -169,7 +169,16 @@ public:
 public:
     JsonData& operator[](const StringType& key)
     {
-        SetType(JsonClass::Object);
+        if (type_ != JsonClass::Object)
+        {
+            // The key may be a part of the old value
+            std::unique_ptr<JsonData> item{new JsonData()};
+            ObjectType object;
+            object.emplace_back(key, item.get());
+            SetType(JsonClass::Object);
+            data_.object_value = std::move(object);
+            return *item.release();
+        }
         auto& object = data_.object_value;
         const auto it = std::find_if(
             object.begin(),
-- 
2.43.0


From 53300468eab35fea5ed11e199adc497a2848e922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:43 +0000
Subject: [PATCH 70/70] fix: an Expected holds types that take lists of
 themselves or have operators of their own

---
 include/Caitlyn/__Core/Error/Expected.h   | 53 +++++++++++++++--------
 include/Caitlyn/__Core/Error/Unexpected.h |  2 +-
 2 files changed, 37 insertions(+), 18 deletions(-)

diff --git a/include/Caitlyn/__Core/Error/Expected.h b/include/Caitlyn/__Core/Error/Expected.h
index b1757d2..8c5adab 100644
--- a/include/Caitlyn/__Core/Error/Expected.h
+++ b/include/Caitlyn/__Core/Error/Expected.h
@@ -18,6 +18,8 @@
 #ifndef CAITLYN_CORE_ERROR_EXPECTED_H_
 #define CAITLYN_CORE_ERROR_EXPECTED_H_
 
+#include <memory>
+#include <new>
 #include <stdexcept>
 #include <type_traits>
 #include <utility>
@@ -37,33 +39,33 @@ public:
 
     Expected(const ValueType& value) : hasValue_{true}
     {
-        new (&data_.value) ValueType{value};
+        Construct(data_.value, value);
     }
 
     Expected(ValueType&& value) : hasValue_{true}
     {
-        new (&data_.value) ValueType{std::move(value)};
+        Construct(data_.value, std::move(value));
     }
 
     Expected(const Unexpected<ErrorType>& error) : hasValue_{false}
     {
-        new (&data_.error) Unexpected<ErrorType>{error};
+        Construct(data_.error, error);
     }
 
     Expected(Unexpected<ErrorType>&& error) : hasValue_{false}
     {
-        new (&data_.error) Unexpected<ErrorType>{std::move(error)};
+        Construct(data_.error, std::move(error));
     }
 
     Expected(const Expected& other) : hasValue_{other.hasValue_}
     {
         if (other.hasValue_)
         {
-            new (&data_.value) ValueType{other.data_.value};
+            Construct(data_.value, other.data_.value);
         }
         else
         {
-            new (&data_.error) Unexpected<ErrorType>{other.data_.error};
+            Construct(data_.error, other.data_.error);
         }
     }
 
@@ -82,11 +84,11 @@ public:
     {
         if (hasValue_)
         {
-            new (&data_.value) ValueType{std::move(other.data_.value)};
+            Construct(data_.value, std::move(other.data_.value));
         }
         else
         {
-            new (&data_.error) Unexpected<ErrorType>{std::move(other.data_.error)};
+            Construct(data_.error, std::move(other.data_.error));
         }
     }
 
@@ -214,8 +216,18 @@ public:
     const ValueType& UnwrapOrDefault() const
     {
         // Never destroyed: callers may keep the reference until the program's end
-        static const ValueType& default_value = *new ValueType{};
-        return UnwrapOrDefault(default_value);
+        union Storage
+        {
+            Storage() : value{}
+            {
+            }
+            ~Storage()
+            {
+            }
+            ValueType value;
+        };
+        static const Storage default_value;
+        return UnwrapOrDefault(default_value.value);
     }
 
     const ValueType& UnwrapOrDefault(const ValueType& default_value) const
@@ -310,15 +322,22 @@ public:
     }
 
 private:
+    // Copies and moves are never taken for lists of one element, and the content's own operators are left alone
+    template <typename Content, typename Source>
+    static void Construct(Content& place, Source&& source)
+    {
+        ::new (static_cast<void*>(std::addressof(place))) Content(std::forward<Source>(source));
+    }
+
     // Takes over content of the same side; content whose move may throw is assigned, so that it survives
     template <typename Content>
     Required<NothrowMoveConstructible<Content>() || !MoveAssignable<Content>()>
     Renew(Content& content, Content&& source)
     {
         // The source may be a part of the old content
-        Content value{std::move(source)};
+        Content value(std::move(source));
         DestroyUnion();
-        new (&content) Content{std::move(value)};
+        Construct(content, std::move(value));
     }
 
     template <typename Content>
@@ -346,23 +365,23 @@ private:
     template <typename Old, typename New>
     Required<NothrowMoveConstructible<New>()> Replace(Old&, New& content, New&& source)
     {
-        New value{std::move(source)};
+        New value(std::move(source));
         DestroyUnion();
-        new (&content) New{std::move(value)};
+        Construct(content, std::move(value));
     }
 
     template <typename Old, typename New>
     Required<!NothrowMoveConstructible<New>()> Replace(Old& old, New& content, New&& source)
     {
-        Old backup{std::move(old)};
+        Old backup(std::move(old));
         DestroyUnion();
         try
         {
-            new (&content) New{std::move(source)};
+            Construct(content, std::move(source));
         }
         catch (...)
         {
-            new (&old) Old{std::move(backup)};
+            Construct(old, std::move(backup));
             throw;
         }
     }
diff --git a/include/Caitlyn/__Core/Error/Unexpected.h b/include/Caitlyn/__Core/Error/Unexpected.h
index 2ca1572..a77a78c 100644
--- a/include/Caitlyn/__Core/Error/Unexpected.h
+++ b/include/Caitlyn/__Core/Error/Unexpected.h
@@ -26,7 +26,7 @@ template <typename E>
 class Unexpected
 {
 public:
-    explicit Unexpected(E error) : error_{std::move(error)}
+    explicit Unexpected(E error) : error_(std::move(error))
     {
     }
 
-- 
2.43.0

