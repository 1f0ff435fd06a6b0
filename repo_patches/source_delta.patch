From 74892b1acbe87c9f3f9f62c404252171ff166dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:32 +0000
Subject: [PATCH 01/41] fix: classify fields of any length without regex
 recursion

std::regex_match recurses per character, so a field of some tens of
kilobytes overflowed the stack. The same grammars are now scanned.
---
 source/parser/csv.hpp          |  1 +
 source/parser/type_checker.hpp | 76 ++++++++++++++++++++++++++++------
 2 files changed, 64 insertions(+), 13 deletions(-)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index d3a9eaf..151801d 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -31,6 +31,7 @@
 
 #include "parser.hpp"
 
+#include <algorithm>
 #include <cstddef>
 #include <string>
 #include <sstream>
diff --git a/source/parser/type_checker.hpp b/source/parser/type_checker.hpp
index 1376eaa..21bf97e 100644
--- a/source/parser/type_checker.hpp
+++ b/source/parser/type_checker.hpp
@@ -32,29 +32,79 @@
 #include <string>
 #include <sstream>
 #include <vector>
-#include <regex>
 
 namespace EdgeLearning {
 
 /**
- * \brief Regex to detect float values in string.
+ * \brief Skip the digits of a string from a position.
+ * \param in  The string.
+ * \param pos The position from which skip the digits.
+ * \return std::size_t The position of the first non digit character.
  */
-const std::regex _float_regex   { "^[-+]?[0-9]*\\.?[0-9]+([eE][-+]?[0-9]+)?$" };
+inline std::size_t _skip_digits(const std::string& in, std::size_t pos)
+{
+    while (pos < in.size() && in[pos] >= '0' && in[pos] <= '9') ++pos;
+    return pos;
+}
+
+/**
+ * \brief Skip the optional sign of a string from a position.
+ * \param in  The string.
+ * \param pos The position of the optional sign.
+ * \return std::size_t The position after the optional sign.
+ */
+inline std::size_t _skip_sign(const std::string& in, std::size_t pos)
+{
+    return pos < in.size() && (in[pos] == '-' || in[pos] == '+') ?
+        pos + 1 : pos;
+}
+
+/**
+ * \brief Detect float values in string:
+ * ^[-+]?[0-9]*\.?[0-9]+([eE][-+]?[0-9]+)?$
+ */
+inline bool _match_float(const std::string& in)
+{
+    auto begin = _skip_sign(in, 0);
+    auto pos = _skip_digits(in, begin);
+    if (pos < in.size() && in[pos] == '.') begin = ++pos;
+    pos = _skip_digits(in, pos);
+    if (pos == begin) return false;
+    if (pos < in.size() && (in[pos] == 'e' || in[pos] == 'E'))
+    {
+        begin = _skip_sign(in, pos + 1);
+        pos = _skip_digits(in, begin);
+        if (pos == begin) return false;
+    }
+    return pos == in.size();
+}
 
 /**
- * \brief Regex to detect int values in string.
+ * \brief Detect int values in string: ^[-+]?(0|[1-9][0-9]*)$
  */
-const std::regex _integer_regex { "^[-+]?(0|[1-9][0-9]*)$" };
+inline bool _match_integer(const std::string& in)
+{
+    auto begin = _skip_sign(in, 0);
+    auto pos = _skip_digits(in, begin);
+    return pos == in.size() && pos != begin
+        && (in[begin] != '0' || pos == begin + 1);
+}
 
 /**
- * \brief Regex to detect bool values in string.
+ * \brief Detect bool values in string: ^(true|false)$
  */
-const std::regex _boolean_regex { "^(true|false)$" };
+inline bool _match_boolean(const std::string& in)
+{
+    return in == "true" || in == "false";
+}
 
 /**
- * \brief Regex to detect strings
+ * \brief Detect strings: ^".*"$
  */
-const std::regex _string_regex  { "^\".*\"$" };
+inline bool _match_string(const std::string& in)
+{
+    return in.size() >= 2 && in.front() == '"' && in.back() == '"';
+}
 
 /**
  * \brief Convert a string in the templated type T and put the result in the
@@ -273,19 +323,19 @@ public:
             return TypeChecker::Type::NONE;
         }
 
-        if (std::regex_match(field, _string_regex))
+        if (_match_string(field))
         {
             return TypeChecker::Type::STRING;
         }
-        else if (std::regex_match(field, _boolean_regex))
+        else if (_match_boolean(field))
         {
             return TypeChecker::Type::BOOL;
         }
-        else if (std::regex_match(field, _integer_regex))
+        else if (_match_integer(field))
         {
             return TypeChecker::Type::INT;
         }
-        else if (std::regex_match(field, _float_regex))
+        else if (_match_float(field))
         {
             return TypeChecker::Type::FLOAT;
         }
-- 
2.43.0


From 5d53bcc24b3698f82f2a26e3a49d255e56c0505c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:17 +0000
Subject: [PATCH 02/41] fix: write floating-point values without losing digits

std::to_string keeps six decimals, so numbers in JSON documents (and the
parameters of dumped models) did not read back as the same value.
---
 source/parser/json.hpp         |  2 +-
 source/parser/type_checker.hpp | 44 ++++++++++++++++++++++++++++++++++
 2 files changed, 45 insertions(+), 1 deletion(-)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index 0f1f32a..fbd7b02 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -537,7 +537,7 @@ public:
      * \param val double A double as a value.
      */
     JsonLeaf(double val)
-        : JsonLeaf(std::to_string(val), TypeChecker::Type::FLOAT)
+        : JsonLeaf(convert<double>(val), TypeChecker::Type::FLOAT)
     { }
 
     /**
diff --git a/source/parser/type_checker.hpp b/source/parser/type_checker.hpp
index 21bf97e..74224f7 100644
--- a/source/parser/type_checker.hpp
+++ b/source/parser/type_checker.hpp
@@ -29,6 +29,8 @@
 #ifndef EDGE_LEARNING_PARSER_TYPE_CHECKER_HPP
 #define EDGE_LEARNING_PARSER_TYPE_CHECKER_HPP
 
+#include <cmath>
+#include <limits>
 #include <string>
 #include <sstream>
 #include <vector>
@@ -172,6 +174,48 @@ inline std::string convert(T v)
     return std::to_string(v);
 }
 
+/**
+ * \brief Convert a floating-point value in a string that reads back as the
+ * same value.
+ * \tparam T The type of the floating-point value.
+ * \param v T The value to convert.
+ * \return std::string The string converted.
+ */
+template<typename T>
+inline std::string convert_float(T v)
+{
+    auto ret = std::to_string(v);
+    T check{};
+    if (!std::isfinite(v) || (convert<T>(ret, check) && check == v)) return ret;
+
+    std::ostringstream ss;
+    ss.precision(std::numeric_limits<T>::max_digits10);
+    ss << v;
+    return ss.str();
+}
+
+/**
+ * \brief Template specialization for float of convert<T>.
+ * \param v The float to convert.
+ * \return std::string The string converted.
+ */
+template<>
+inline std::string convert<float>(float v)
+{
+    return convert_float<float>(v);
+}
+
+/**
+ * \brief Template specialization for double of convert<T>.
+ * \param v The double to convert.
+ * \return std::string The string converted.
+ */
+template<>
+inline std::string convert<double>(double v)
+{
+    return convert_float<double>(v);
+}
+
 /**
  * \brief Template specialization for boolean of convert<T>.
  * \param v The boolean to convert.
-- 
2.43.0


From 157c2e585a9582d54b60cfdf0eff5e01767adc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:00 +0000
Subject: [PATCH 03/41] fix: count, iterate and index all the rows of a CSV
 file

A last line without newline was not counted (a single one made the
indexing divide by zero), iteration left the last row out and never ended
on a file with only the header, whose row 1 did not wrap around.
---
 source/parser/csv.hpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index 151801d..0246d63 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -656,11 +656,15 @@ public:
             throw std::runtime_error("Could not open file");
         }
 
-        // Get number of rows.
-        file.unsetf(std::ios_base::skipws);
-        _rows_amount = static_cast<std::size_t>(
-            std::count(std::istream_iterator<char>(file), 
-                std::istream_iterator<char>(), '\n'));
+        // Get number of rows: the last one may not end with a newline.
+        _rows_amount = 0;
+        char last = '\n';
+        for (std::istreambuf_iterator<char> it(file), end; it != end; ++it)
+        {
+            last = *it;
+            if (last == '\n') ++_rows_amount;
+        }
+        if (last != '\n') ++_rows_amount;
         file.clear();
         file.seekg(0);
 
@@ -731,10 +735,14 @@ public:
      */
     CSVRow operator[](std::size_t idx)
     {
+        if (_rows_amount == 0)
+        {
+            throw std::runtime_error("operator[] failed: empty file");
+        }
+        // Handle overflow with a circular indexing.
+        idx = idx % _rows_amount;
         // Manage row saved in cache.
         if (_row_cache.idx() == idx) return _row_cache;
-        // Handle overflow with a circular indexing.
-        idx = idx % _rows_amount; 
 
         auto file = std::ifstream{_fn};
         // file.seekg(_row_header._line.size() + 1);
@@ -766,7 +774,8 @@ public:
      */
     CSVIterator end()
     { 
-        return CSVIterator{_fn, _rows_amount - 1, _cols_amount, _types, 
+        return CSVIterator{_fn, std::max(_rows_amount, std::size_t(1)),
+                           _cols_amount, _types, 
                            _separator}; 
     }
 
@@ -890,7 +899,7 @@ public:
 
     SizeType entries_amount() const override
     {
-        return rows_size() - 1;
+        return rows_size() == 0 ? 0 : rows_size() - 1;
     }
 
     SizeType feature_size() const override
-- 
2.43.0


From c68c9e5640c493fb6db0763a2001c5b2538ba313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:34 +0000
Subject: [PATCH 04/41] fix: let the rows of a copied CSV refer to its own
 types

The implicit copy kept references to the types of the source, which
dangle when the source is destroyed first.
---
 source/parser/csv.hpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index 0246d63..41b1a1f 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -699,6 +699,32 @@ public:
         file.close();
     }
 
+    /**
+     * \brief Copy constructor of CSV object.
+     * The rows of the copy refer to the types of the copy.
+     * \param obj The object to copy.
+     */
+    CSV(const CSV& obj)
+        : DatasetParser(obj)
+        , _fn{obj._fn}
+        , _types{obj._types}
+        , _row_header{obj._row_header._line, obj._row_header._idx,
+            obj._cols_amount, _types, obj._separator}
+        , _row_cache{obj._row_cache._line, obj._row_cache._idx,
+            obj._cols_amount, _types, obj._separator}
+        , _cols_amount{obj._cols_amount}
+        , _rows_amount{obj._rows_amount}
+        , _separator{obj._separator}
+        , _labels_idx{obj._labels_idx}
+    { }
+
+    /**
+     * \brief Copy assignment of CSV object.
+     * \param obj The object to copy.
+     * \return CSV& The assigned object.
+     */
+    CSV& operator=(const CSV& obj) = default;
+
     /**
      * \brief Destroy the CSV object.
      */
-- 
2.43.0


From ecab24219921ab11c6db29d58fa9ccb6faafc18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:55 +0000
Subject: [PATCH 05/41] fix: assigning a CSV row or field leaves its former
 reader's types alone

Rows and fields held references to the column types, so assigning one
over another overwrote the column types of the reader behind it.
---
 source/parser/csv.hpp | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index 41b1a1f..974d754 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -69,7 +69,7 @@ public:
     {
         if (_type == TypeChecker::Type::AUTO)
         {
-            _type = _tc(_field);
+            _type = type = _tc(_field);
         }
     }
 
@@ -140,7 +140,7 @@ public:
 
 private:
     std::string _field;     ///< CSV field string.
-    TypeChecker::Type& _type;            ///< CSV field type.
+    TypeChecker::Type _type; ///< CSV field type.
     std::size_t _col_index; ///> CSV field column index.
 };
 
@@ -173,7 +173,7 @@ public:
         , _line{line}
         , _idx{row_idx}
         , _cols_amount{cols_amount}
-        , _types{types}
+        , _types{&types}
         , _separator{separator}
     {
         if((std::find(types.begin(), types.end(), TypeChecker::Type::AUTO) != types.end())
@@ -181,12 +181,12 @@ public:
             || types.size() != cols_amount) 
         {
             std::stringstream ss{line};
-            _types = std::vector<TypeChecker::Type>{};
+            types = std::vector<TypeChecker::Type>{};
             for (std::size_t i = 0; i < cols_amount; ++i)
             {
                 std::string s;
                 std::getline(ss, s, separator);
-                _types.push_back(_tc(s));
+                types.push_back(_tc(s));
             }
         }
     }
@@ -285,7 +285,7 @@ public:
         {
             if(i == idx)
             {
-                return CSVField{field, _types.at(idx), idx};
+                return CSVField{field, _types->at(idx), idx};
             }
 
             i++;
@@ -351,7 +351,7 @@ public:
         {
             std::string s;
             std::getline(ss, s, _separator);
-            ret.push_back(CSVField{s, _types.at(i), i});
+            ret.push_back(CSVField{s, _types->at(i), i});
         }
         return ret;
     }
@@ -418,7 +418,7 @@ public:
      * \brief Column types getter.
      * \return const std::vector<TypeChecker::Type>& The vector of column types.
      */
-    const std::vector<TypeChecker::Type>& types() const { return _types; } 
+    const std::vector<TypeChecker::Type>& types() const { return *_types; } 
     
     /**
      * \brief Getter of CSVRow index.
@@ -436,7 +436,7 @@ private:
     std::string _line;         ///< The line in string. 
     std::size_t _idx;          ///< The index of the CSV row.
     std::size_t _cols_amount;  ///< The column amount of the row.
-    std::vector<TypeChecker::Type>& _types; ///< The types of each field in the row.
+    std::vector<TypeChecker::Type>* _types; ///< The types of each field in the row.
     char _separator;           ///< The separator of each field.
 };
 
@@ -477,7 +477,7 @@ public:
     CSVIterator(const CSVIterator& obj)
         : _fn{obj._fn}
         , _row{std::string(), 0, obj._row._cols_amount, 
-            obj._row._types, obj._row._separator}
+            *obj._row._types, obj._row._separator}
         , _req_row_idx{obj._req_row_idx}
         , _stream{obj._fn}
     {
@@ -723,7 +723,20 @@ public:
      * \param obj The object to copy.
      * \return CSV& The assigned object.
      */
-    CSV& operator=(const CSV& obj) = default;
+    CSV& operator=(const CSV& obj)
+    {
+        _fn = obj._fn;
+        _types = obj._types;
+        _cols_amount = obj._cols_amount;
+        _rows_amount = obj._rows_amount;
+        _separator = obj._separator;
+        _labels_idx = obj._labels_idx;
+        _row_header = CSVRow{obj._row_header._line, obj._row_header._idx,
+            _cols_amount, _types, _separator};
+        _row_cache = CSVRow{obj._row_cache._line, obj._row_cache._idx,
+            _cols_amount, _types, _separator};
+        return *this;
+    }
 
     /**
      * \brief Destroy the CSV object.
-- 
2.43.0


From 2a46b2c51fd434c1825f248a88520a14f6895ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:26 +0000
Subject: [PATCH 06/41] fix: read a missing or empty value as zero instead of
 indeterminate

Extracting from an empty text leaves the destination untouched, which was
uninitialised in CSV fields, CSV rows and JSON leaves.
---
 source/parser/csv.hpp  | 4 ++--
 source/parser/json.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index 974d754..7cefccc 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -121,7 +121,7 @@ public:
     template<typename T>
     T as() const
     {
-        T ret;
+        T ret{};
         as(ret);
         return ret;
     }
@@ -381,7 +381,7 @@ public:
         {
             std::string s;
             std::getline(ss, s, _separator);
-            T t;
+            T t{};
             _tc.template operator()<T>(s, t);
             ret[i] = t;
         }
diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index fbd7b02..a16cc33 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -590,7 +590,7 @@ public:
     template<typename T>
     T as() const
     {
-        T ret;
+        T ret{};
         as(ret);
         return ret;
     }
-- 
2.43.0


From dc0fc9119f7263dd32520a543dcb487dd8b2e516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:32 +0000
Subject: [PATCH 07/41] fix: give access to an empty last field of a CSV row

---
 source/parser/csv.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index 7cefccc..d7cfdef 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -291,6 +291,12 @@ public:
             i++;
         }
 
+        // The text after the last separator is a field also when empty.
+        if (i == idx && (_line.empty() || _line.back() == _separator))
+        {
+            return CSVField{std::string(), _types->at(idx), idx};
+        }
+
         throw std::runtime_error("CSV bad format: fields missing");
     }
 
-- 
2.43.0


From cc0607fd04cbf33a9d8cc748fe9efca09cdd6b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 08/41] fix: one-hot encode inputs that follow a label column

Inputs kept their original position, so with a label column before them
they were written into (and lost under) the one-hot blocks.
---
 source/parser/parser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/parser/parser.hpp b/source/parser/parser.hpp
index 57502ae..f21a1c4 100644
--- a/source/parser/parser.hpp
+++ b/source/parser/parser.hpp
@@ -246,13 +246,15 @@ public:
                     auto row = entry(row_idx);
 
                     // Copy the input.
+                    SizeType input_idx = 0;
                     for (SizeType col_idx = 0; col_idx < feature_size();
                          ++col_idx)
                     {
                         if (label_indexes.find(
                             col_idx) == label_indexes.end())
                         {
-                            ret[row_idx * entry_size + col_idx] = row[col_idx];
+                            ret[row_idx * entry_size + input_idx++] =
+                                row[col_idx];
                         }
                     }
 
-- 
2.43.0


From f3d4b1b7896ce10ec5f4cbe84eb3e944808992fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:16 +0000
Subject: [PATCH 09/41] fix: read JSON texts as written, and reject malformed
 ones

Empty lists and dictionaries, strings with structural characters and
whitespace between tokens were misread, and a truncated or malformed text
made the readers loop forever, consuming memory. An empty text is written
as an empty string, so that it is told from no element at all.
---
 source/parser/json.hpp | 217 ++++++++++++++++++++++++++---------------
 1 file changed, 137 insertions(+), 80 deletions(-)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index a16cc33..9431f85 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -265,6 +265,17 @@ public:
      */
     JsonItem& operator=(const JsonItem& obj);
 
+    /**
+     * \brief Move constructor of JsonItem object.
+     * \param obj The object to move, left empty.
+     */
+    JsonItem(JsonItem&& obj) noexcept
+        : JsonObject(obj._json_type)
+        , _value(std::move(obj._value))
+    {
+        obj._json_type = JsonType::NONE;
+    }
+
     /**
      * \brief Subscript operator overloading for contained list json.
      * It can be used to write the object and if the JsonItem is empty or there
@@ -1475,7 +1486,7 @@ inline std::istream& operator>>(std::istream& os, JsonObject& obj)
 
 inline std::ostream& operator<<(std::ostream& os, const JsonLeaf& obj)
 {
-    if (obj._type == TypeChecker::Type::STRING)
+    if (obj._type == TypeChecker::Type::STRING || obj._val.empty())
     {
         os << "\"" << obj._val << "\"";
     }
@@ -1486,34 +1497,119 @@ inline std::ostream& operator<<(std::ostream& os, const JsonLeaf& obj)
     return os;
 }
 
-inline std::istream& operator>>(std::istream &os, JsonLeaf& obj)
+/**
+ * \brief Bound the nesting of the JSON objects that are read, because each
+ * level takes a part of the stack.
+ */
+class JsonReadDepth
 {
-    char c;
-    os.read(&c, 1);
-    if (c == '\"')
+public:
+    JsonReadDepth()
     {
-        obj._type = TypeChecker::Type::STRING;
-        std::getline(os, obj._val, '\"');
-        if (!os.eof())
+        if (depth() >= 1000)
         {
-            os.read(&c, 1);
-            if (c != ',') os.seekg(-1, os.cur);
+            throw std::runtime_error("JSON bad format: too many levels");
         }
+        ++depth();
+    }
+    ~JsonReadDepth() { --depth(); }
+    JsonReadDepth(const JsonReadDepth&) = delete;
+    JsonReadDepth& operator=(const JsonReadDepth&) = delete;
+
+private:
+    static int& depth()
+    {
+        thread_local int d = 0;
+        return d;
+    }
+};
+
+/**
+ * \brief Get the next character of a JSON text that is not a whitespace,
+ * without consuming it.
+ * \param is std::istream& The stream.
+ * \return char The next character.
+ */
+inline char json_peek(std::istream& is)
+{
+    is >> std::ws;
+    auto c = is.peek();
+    if (c == std::istream::traits_type::eof())
+    {
+        throw std::runtime_error("JSON bad format: unexpected end");
+    }
+    return std::istream::traits_type::to_char_type(c);
+}
+
+/**
+ * \brief Consume the given character, that must be the next one that is not
+ * a whitespace.
+ * \param is       std::istream& The stream.
+ * \param expected char The expected character.
+ */
+inline void json_expect(std::istream& is, char expected)
+{
+    if (json_peek(is) != expected)
+    {
+        throw std::runtime_error(
+            std::string("JSON bad format: expected ") + expected);
+    }
+    is.get();
+}
+
+/**
+ * \brief Consume a text between double quotes.
+ * \param is std::istream& The stream.
+ * \return std::string The text without the quotes.
+ */
+inline std::string json_read_string(std::istream& is)
+{
+    json_expect(is, '\"');
+    std::string ret;
+    std::getline(is, ret, '\"');
+    if (is.eof() || is.fail())
+    {
+        throw std::runtime_error("JSON bad format: unterminated string");
+    }
+    return ret;
+}
+
+/**
+ * \brief Consume the comma between two elements, if it is there.
+ * \param is    std::istream& The stream.
+ * \param close char The character that closes the sequence of elements.
+ */
+inline void json_separator(std::istream& is, char close)
+{
+    auto c = json_peek(is);
+    if (c == ',')
+    {
+        is.get();
+    }
+    else if (c != close)
+    {
+        throw std::runtime_error("JSON bad format: separator missing");
+    }
+}
+
+inline std::istream& operator>>(std::istream &os, JsonLeaf& obj)
+{
+    if (json_peek(os) == '\"')
+    {
+        obj._val = json_read_string(os);
+        obj._type = TypeChecker::Type::STRING;
     }
     else
     {
-        os.seekg(-1, os.cur);
-        std::getline(os, obj._val, ',');
-        auto obj_val_len = obj._val.size();
-        auto pos_square = obj._val.find(']');
-        auto pos_bracket = obj._val.find('}');
-        auto pos = std::min(pos_square, pos_bracket);
-        if (pos != std::string::npos)
+        std::string val;
+        for (auto c = os.peek(); c != std::istream::traits_type::eof()
+             && c != ',' && c != ']' && c != '}'; c = os.peek())
         {
-            obj._val = obj._val.substr(0, pos);
-            if (!os.eof()) os.seekg(-1, os.cur); // ','
-            os.seekg(-long(obj_val_len - pos), os.cur);
+            val += std::istream::traits_type::to_char_type(c);
+            os.get();
         }
+        val.erase(val.find_last_not_of(" \t\n\v\f\r") + 1);
+        obj._val = val;
         obj._type = obj._tc(obj._val);
     }
     return os;
@@ -1537,33 +1633,18 @@ inline std::ostream& operator<<(std::ostream& os, const JsonList& obj)
 
 inline std::istream& operator>>(std::istream &os, JsonList& obj)
 {
-    char c;
-    os.read(&c, 1);
-
-    std::string more_items;
-    while (true) {
-        std::getline(os, more_items, ']');
-        os.seekg(-long(more_items.size() + 1), os.cur);
+    JsonReadDepth depth;
+    std::vector<JsonItem> list;
+    json_expect(os, '[');
+    while (json_peek(os) != ']')
+    {
         JsonItem ji;
         os >> ji;
-        obj._list.push_back(ji);
-
-        os.read(&c, 1);
-        if (c == ']')
-        {
-            break;
-        }
-        else
-        {
-            os.seekg(-1, os.cur);
-        }
-    }
-
-    if (!os.eof())
-    {
-        os.read(&c, 1);
-        if (c != ',') os.seekg(-1, os.cur);
+        list.push_back(std::move(ji));
+        json_separator(os, ']');
     }
+    json_expect(os, ']');
+    obj._list = std::move(list);
     return os;
 }
 
@@ -1585,39 +1666,18 @@ inline std::ostream& operator<<(std::ostream& os, const JsonDict& obj)
 
 inline std::istream& operator>>(std::istream& os, JsonDict& obj)
 {
-    char c;
-    os.read(&c, 1);
-
-    std::string more_items;
-    while (true)
-    {
-        std::getline(os, more_items, '}');
-        os.seekg(-long(more_items.size() + 1), os.cur);
-        os.read(&c, 1);
-        std::string key;
-        std::getline(os, key, '\"');
-        os.read(&c, 1);
-
-        JsonItem ji;
-        os >> ji;
-        obj._map[key] = ji;
-
-        os.read(&c, 1);
-        if (c == '}')
-        {
-            break;
-        }
-        else
-        {
-            os.seekg(-1, os.cur);
-        }
-    }
-
-    if (!os.eof())
-    {
-        os.read(&c, 1);
-        if (c != ',') os.seekg(-1, os.cur);
+    JsonReadDepth depth;
+    std::map<std::string, JsonItem> map;
+    json_expect(os, '{');
+    while (json_peek(os) != '}')
+    {
+        auto key = json_read_string(os);
+        json_expect(os, ':');
+        os >> map[key];
+        json_separator(os, '}');
     }
+    json_expect(os, '}');
+    obj._map = std::move(map);
     return os;
 }
 
@@ -1629,10 +1689,7 @@ inline std::ostream& operator<<(std::ostream& os, const JsonItem& obj)
 
 inline std::istream& operator>>(std::istream& os, JsonItem& obj)
 {
-    char c;
-    os.read(&c, 1);
-    os.seekg(-1, os.cur);
-    switch(c)
+    switch(json_peek(os))
     {
         case '[':
         {
-- 
2.43.0


From 7b5e37ae1643e9ae4754436cd264c96eaef72afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:47 +0000
Subject: [PATCH 10/41] fix: compare empty JSON items without dereferencing
 them

---
 source/parser/json.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index 9431f85..3797f8f 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -1787,6 +1787,7 @@ inline bool JsonDict::operator==(const JsonDict& rhs) const
 
 inline bool JsonItem::operator==(const JsonItem& rhs) const
 {
+    if (!_value || !rhs._value) return !_value && !rhs._value;
     return *_value == *rhs._value;
 }
 
-- 
2.43.0


From 1557ed7fe41b25b8ef49aa00503040c070b8b6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:14 +0000
Subject: [PATCH 11/41] fix: keep MNIST and CIFAR readers usable after a failed
 read

One read past the end of a file left the stream in a failed state, so all
later reads returned zeros. An MNIST pair without images divided by zero
and a truncated header was compared with an indeterminate value.
---
 source/parser/cifar.hpp |  2 ++
 source/parser/mnist.hpp | 12 +++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/source/parser/cifar.hpp b/source/parser/cifar.hpp
index 59a5089..2fc21f7 100644
--- a/source/parser/cifar.hpp
+++ b/source/parser/cifar.hpp
@@ -484,6 +484,7 @@ public:
     CifarImage image(std::size_t idx)
     {
         idx = idx % SIZE;
+        _batch_ifs.clear(); // A previous read may have failed.
         _batch_ifs.seekg(
             static_cast<std::int64_t>(
                 (idx * (height() * width() * channels() + _label_offset))
@@ -500,6 +501,7 @@ public:
     CifarLabel label(std::size_t idx)
     {
         idx = idx % SIZE;
+        _batch_ifs.clear(); // A previous read may have failed.
         _batch_ifs.seekg(static_cast<std::int64_t>(
             idx * (height() * width() * channels() + _label_offset)),
             _batch_ifs.beg);
diff --git a/source/parser/mnist.hpp b/source/parser/mnist.hpp
index 558d760..28c4c55 100644
--- a/source/parser/mnist.hpp
+++ b/source/parser/mnist.hpp
@@ -72,7 +72,7 @@ static inline std::uint32_t& uint32_endian_order(std::uint32_t& i)
  */
 static inline uint32_t read_uint32_endian_order(std::ifstream& ifs)
 {
-    std::uint32_t ret;
+    std::uint32_t ret = 0;
     char* buf = reinterpret_cast<char*>(&ret);
     ifs.read(buf, 4);
     uint32_endian_order(ret);
@@ -370,7 +370,12 @@ public:
      */
     MnistImage image(std::size_t idx)
     {
+        if (_size == 0)
+        {
+            throw std::runtime_error("image() failed: empty dataset");
+        }
         idx = idx % _size;
+        _image_ifs.clear(); // A previous read may have failed.
         _image_ifs.seekg(static_cast<std::int64_t>(
             IMAGE_HEADER_SIZE + idx * height() * width()), _image_ifs.beg);
         return MnistImage{_image_ifs, idx};
@@ -383,7 +388,12 @@ public:
      */
     MnistLabel label(std::size_t idx)
     {
+        if (_size == 0)
+        {
+            throw std::runtime_error("label() failed: empty dataset");
+        }
         idx = idx % _size;
+        _label_ifs.clear(); // A previous read may have failed.
         _label_ifs.seekg(static_cast<std::int64_t>(
             LABEL_HEADER_SIZE + idx), _label_ifs.beg);
         return MnistLabel{_label_ifs, idx};
-- 
2.43.0


From 6f90415d18e39c4e8e33ff5e402a103113b6de6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:20 +0000
Subject: [PATCH 12/41] fix: add the blue part to the CIFAR brightness

Green and blue were multiplied, which exceeds the range of the result.
---
 source/parser/cifar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/parser/cifar.hpp b/source/parser/cifar.hpp
index 2fc21f7..9356685 100644
--- a/source/parser/cifar.hpp
+++ b/source/parser/cifar.hpp
@@ -68,7 +68,7 @@ enum class CifarShapeOrder
 static std::uint8_t perception_brightness(
     std::uint8_t r, std::uint8_t g, std::uint8_t b)
 {
-    return static_cast<std::uint8_t>(r * 0.21 + g * 0.72 * b * 0.07);
+    return static_cast<std::uint8_t>(r * 0.21 + g * 0.72 + b * 0.07);
 }
 
 /**
-- 
2.43.0


From ec110f11535f8630d0b83283ab42805766558300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:25 +0000
Subject: [PATCH 13/41] fix: count only the kept rows of a dataset built from a
 matrix

Rows that do not fill a sequence are dropped from the data, but they were
still counted, so accessing them read beyond the data.
---
 source/data/dataset.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/data/dataset.hpp b/source/data/dataset.hpp
index b1ea7ea..0f8802c 100644
--- a/source/data/dataset.hpp
+++ b/source/data/dataset.hpp
@@ -174,7 +174,8 @@ public:
         }
         _sequence_amount = _feature_amount 
             / std::max(_sequence_size, SizeType(1));
-        _dataset_size = _sequence_amount * _sequence_size * _feature_size;
+        _feature_amount = _sequence_amount * _sequence_size;
+        _dataset_size = _feature_amount * _feature_size;
         _data.resize(_dataset_size);
 
         // Init indexes set.
-- 
2.43.0


From c5e87d5091e31719a20e647d063c0b05d4c8f68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:37 +0000
Subject: [PATCH 14/41] fix: resize the sequences of and split an empty dataset

Both divided by a sequence size of zero.
---
 source/data/dataset.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/data/dataset.hpp b/source/data/dataset.hpp
index 0f8802c..dcfc51a 100644
--- a/source/data/dataset.hpp
+++ b/source/data/dataset.hpp
@@ -341,9 +341,10 @@ public:
     void sequence_size(SizeType s)
     {
         _sequence_size = std::min(s, _feature_amount);
-        _sequence_amount = _feature_amount / _sequence_size;
-        _dataset_size = _sequence_size * _sequence_amount * _feature_size;
-        _feature_amount = _dataset_size / _feature_size;
+        _sequence_amount = _feature_amount
+            / std::max(_sequence_size, SizeType(1));
+        _feature_amount = _sequence_amount * _sequence_size;
+        _dataset_size = _feature_amount * _feature_size;
         _data.resize(_dataset_size);
     }
     const SizeType& sequence_size() const { return _sequence_size; };
@@ -579,7 +580,8 @@ public:
         if (perc < 0.0) perc = 0.0;
         auto to = static_cast<SizeType>(perc
             * static_cast<NumType>(_feature_amount)
-            / static_cast<NumType>(_sequence_size)) * _sequence_size;
+            / static_cast<NumType>(std::max(_sequence_size, SizeType(1))))
+            * _sequence_size;
         return SplitDataset(subdata(0, to), subdata(to, _feature_amount));
     }
 
-- 
2.43.0


From 20d672bf2e50d3a021c62ca1b3e22f6e4e30cf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:48 +0000
Subject: [PATCH 15/41] fix: normalize a column of equal values to zero instead
 of NaN

---
 source/data/dataset.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/data/dataset.hpp b/source/data/dataset.hpp
index dcfc51a..7ac0e94 100644
--- a/source/data/dataset.hpp
+++ b/source/data/dataset.hpp
@@ -663,9 +663,10 @@ public:
         {
             for (std::size_t col = 0; col < _feature_size; ++col)
             {
-                _data[row * _feature_size + col]
-                    = (_data[row * _feature_size + col] - min_vec[col])
-                        / (max_vec[col] - min_vec[col]);
+                auto range = max_vec[col] - min_vec[col];
+                _data[row * _feature_size + col] = range == T(0) ? T(0)
+                    : (_data[row * _feature_size + col] - min_vec[col])
+                        / range;
             }
         }
         return *this;
-- 
2.43.0


From abad4001b18c64b3ef2e562acdc338f9e9589c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:47 +0000
Subject: [PATCH 16/41] fix: propagate the average pooling gradient to the
 first cell of each window

---
 source/dnn/avg_pooling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/dnn/avg_pooling.cpp b/source/dnn/avg_pooling.cpp
index 22956ce..062814a 100644
--- a/source/dnn/avg_pooling.cpp
+++ b/source/dnn/avg_pooling.cpp
@@ -71,7 +71,7 @@ const std::vector<NumType>& AveragePoolingLayer::backward(
                 + dst_coord.col * src_shape.channels()
                 + c] / static_cast<NumType>(k_shape.width() * k_shape.height());
 
-            for (SizeType k_i = 1; k_i < k_shape.height() * k_shape.width(); ++k_i)
+            for (SizeType k_i = 0; k_i < k_shape.height() * k_shape.width(); ++k_i)
             {
                 auto row_k = k_i / k_shape.width();
                 auto col_k = k_i % k_shape.width();
-- 
2.43.0


From 718bda0c7db624c65d1fcf7dd20531533a95d890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:47 +0000
Subject: [PATCH 17/41] fix: send the max pooling gradient to a maximum in the
 first cell of a window

---
 source/dnn/max_pooling.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/dnn/max_pooling.cpp b/source/dnn/max_pooling.cpp
index 438d6ff..ab7e7cb 100644
--- a/source/dnn/max_pooling.cpp
+++ b/source/dnn/max_pooling.cpp
@@ -72,7 +72,8 @@ const std::vector<NumType>& MaxPoolingLayer::backward(
 
             NumType max = src[row * static_cast<int64_t>(src_step)
                               + col + static_cast<int64_t>(c)];
-            int64_t max_row = 0, max_col = 0;
+            int64_t max_row = row * static_cast<int64_t>(src_step);
+            int64_t max_col = col + static_cast<int64_t>(c);
             for (SizeType k_i = 1; k_i < k_shape.height() * k_shape.width(); ++k_i)
             {
                 auto row_k = k_i / k_shape.width();
-- 
2.43.0


From 3b741070cd51f46385e67741ff3301a9f3b95920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:47 +0000
Subject: [PATCH 18/41] fix: accumulate the bias gradients of a convolution
 like its weight gradients

---
 source/dnn/convolutional.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/dnn/convolutional.cpp b/source/dnn/convolutional.cpp
index b1302d1..163804d 100644
--- a/source/dnn/convolutional.cpp
+++ b/source/dnn/convolutional.cpp
@@ -129,7 +129,7 @@ const std::vector<NumType>& ConvolutionalLayer::backward(
                 sum += gradients[r * step + c * _n_filters + f];
             }
         }
-        _bias_gradients[f] = sum;
+        _bias_gradients[f] += sum;
     }
 
     /*
-- 
2.43.0


From cd48c1e565a3df66abdcfae8b47ee76b288ab8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:48 +0000
Subject: [PATCH 19/41] fix: add the filter biases in the forward pass of a
 convolution

---
 source/dnn/convolutional.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/dnn/convolutional.cpp b/source/dnn/convolutional.cpp
index 163804d..0a79ea5 100644
--- a/source/dnn/convolutional.cpp
+++ b/source/dnn/convolutional.cpp
@@ -106,6 +106,12 @@ const std::vector<NumType>& ConvolutionalLayer::forward(
         _shared_fields->input_shape().shape(),
         _weights.data(), _kernel_shape, _n_filters, _stride, _padding);
 
+    // Add the bias of each filter, the last dimension of the output.
+    for (SizeType i = 0; i < _output_activations.size(); ++i)
+    {
+        _output_activations[i] += _biases[i % _n_filters];
+    }
+
     return FeedforwardLayer::forward(_output_activations);
 }
 
-- 
2.43.0


From ff3cb6c64072c58852b70395e1e73041cb027e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 20/41] fix: use the previous hidden state in a recurrence of
 one time step

---
 source/dnn/recurrent.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/source/dnn/recurrent.cpp b/source/dnn/recurrent.cpp
index 073d064..f891240 100644
--- a/source/dnn/recurrent.cpp
+++ b/source/dnn/recurrent.cpp
@@ -131,6 +131,15 @@ const std::vector<NumType>& RecurrentLayer::forward(
         curr_hs_idx = t;
         next_hs_idx = (t == (_time_steps - 1)) ? 0 : t + 1;
 
+        /*
+         * Compute the product of the hidden state with its 
+         * hidden_to_hidden weights, before h(t+1) takes the place of h(t) when
+         * the sequence has only one time step.
+         */
+        DLMath::matarr_mul<NumType>(tmp_mul, _weights_h_to_h.data(),
+            _hidden_state.data() + curr_hs_idx * _hidden_size, 
+            _hidden_size, _hidden_size);
+
         /*
          * Compute the product of the input with its input_to_hidden weights.
          * h(t+1) = W_ih * x 
@@ -141,13 +150,9 @@ const std::vector<NumType>& RecurrentLayer::forward(
             curr_sequence, _hidden_size, _shared_fields->input_size());
 
         /*
-         * Compute the product of the hidden state with its 
-         * hidden_to_hidden weights and the sum with the to_hidden bias.
+         * Sum with the hidden_to_hidden product and the to_hidden bias.
          * h(t+1) += W_hh * h(t) + b_h
          */
-        DLMath::matarr_mul<NumType>(tmp_mul, _weights_h_to_h.data(),
-            _hidden_state.data() + curr_hs_idx * _hidden_size, 
-            _hidden_size, _hidden_size);
         DLMath::arr_sum<NumType>(
             _hidden_state.data() + next_hs_idx * _hidden_size,
             _hidden_state.data() + next_hs_idx * _hidden_size,
-- 
2.43.0


From 61b549357ec823188257887389a2888e7f9daf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 21/41] fix: use the starting hidden state in the first step of
 recurrent backpropagation

---
 source/dnn/recurrent.cpp | 12 +++++++++---
 source/dnn/recurrent.hpp |  2 ++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/source/dnn/recurrent.cpp b/source/dnn/recurrent.cpp
index f891240..09e673a 100644
--- a/source/dnn/recurrent.cpp
+++ b/source/dnn/recurrent.cpp
@@ -124,6 +124,11 @@ const std::vector<NumType>& RecurrentLayer::forward(
 
     auto *tmp_mul = new NumType[_hidden_size];
 
+    // The last time step overwrites the starting hidden state.
+    _first_hidden_state.assign(
+        _hidden_state.begin(),
+        _hidden_state.begin() + static_cast<std::int64_t>(_hidden_size));
+
     // Loop the time sequences.
     for (SizeType t = 0; t < _time_steps; ++t)
     {
@@ -224,7 +229,6 @@ const std::vector<NumType>& RecurrentLayer::backward(
 {
     const NumType* curr_sequence_gradients; //< Ptr to the current gradients.
     SizeType curr_hs_idx; //< Current hidden state index.
-    SizeType prev_hs_idx; //< Previous hidden state index.
 
     std::vector<NumType> next_hidden_state(
         static_cast<std::size_t>(_hidden_size), NumType{0.0});
@@ -235,7 +239,9 @@ const std::vector<NumType>& RecurrentLayer::backward(
     {
         SizeType t_idx = t - 1;
         curr_hs_idx = (t >= _time_steps) ? 0 : t;
-        prev_hs_idx = t_idx;
+        const NumType* prev_hidden_state = t_idx == 0
+            ? _first_hidden_state.data()
+            : _hidden_state.data() + t_idx * _hidden_size;
         curr_sequence_gradients = gradients.data() + (t_idx * _shared_fields->output_size());
 
         // Bias gradient to output.
@@ -324,7 +330,7 @@ const std::vector<NumType>& RecurrentLayer::backward(
             {
                 _weights_h_to_h_gradients[(i * _hidden_size) + j] += 
                     next_hidden_state[i] 
-                    * _hidden_state[(SizeType(prev_hs_idx) * _hidden_size) + j];
+                    * prev_hidden_state[j];
             }
         }
 
diff --git a/source/dnn/recurrent.hpp b/source/dnn/recurrent.hpp
index 9c51d22..78ed6d8 100644
--- a/source/dnn/recurrent.hpp
+++ b/source/dnn/recurrent.hpp
@@ -158,6 +158,8 @@ private:
     SizeType _hidden_size;
 
     std::vector<NumType> _hidden_state;
+    /// \brief Hidden state at the start of the last forwarded sequence.
+    std::vector<NumType> _first_hidden_state;
     SizeType _time_steps;
 
     // == Layer parameters ==
-- 
2.43.0


From bf4c9001eb74376b902931c4740e5000d3ed8ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:30 +0000
Subject: [PATCH 22/41] fix: compute each input gradient of the threaded dense
 kernel in one task

---
 source/dnn/dlmath.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/source/dnn/dlmath.hpp b/source/dnn/dlmath.hpp
index 9c24244..b8681d1 100644
--- a/source/dnn/dlmath.hpp
+++ b/source/dnn/dlmath.hpp
@@ -1889,11 +1889,21 @@ public:
                     {
                         weight_gradients[(out_idx * input_size) + j] +=
                             gradients[out_idx] * last_input[j];
-                        input_gradients[j] +=
-                            gradients[out_idx] * weights[(out_idx * input_size) + j];
                     }
                 }, i));
         }
+        // Each input gradient depends on all the outputs: one task per input.
+        for (SizeType j = 0; j < input_size; ++j)
+        {
+            futures.push_back(tm.enqueue(
+                [&](SizeType in_idx) {
+                    for (SizeType i = 0; i < output_size; ++i)
+                    {
+                        input_gradients[in_idx] +=
+                            gradients[i] * weights[(i * input_size) + in_idx];
+                    }
+                }, j));
+        }
         for (auto& f: futures) f.get();
         return input_gradients;
     }
-- 
2.43.0


From eba28fdedcec0694cb896e761620359bc0d8c150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:30 +0000
Subject: [PATCH 23/41] fix: name layers and models built in different threads
 without a data race

---
 source/dnn/dlmath.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/dnn/dlmath.hpp b/source/dnn/dlmath.hpp
index b8681d1..e9406d8 100644
--- a/source/dnn/dlmath.hpp
+++ b/source/dnn/dlmath.hpp
@@ -29,6 +29,7 @@
 #include "type.hpp"
 #include "betterthreads/task_manager.hpp"
 
+#include <atomic>
 #include <cmath>
 #include <functional>
 #include <cassert>
@@ -455,7 +456,7 @@ public:
 
     static SizeType unique()
     {
-        static SizeType id = 0;
+        static std::atomic<SizeType> id{0};
         return id++;
     }
 
-- 
2.43.0


From fda141aefa2073a76d54621af960ea612ef57be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:59 +0000
Subject: [PATCH 24/41] fix: keep the Adam moments of every parameter instead
 of one shared pair

---
 source/dnn/adam_optimizer.cpp | 30 ++++++++++++++++++------------
 source/dnn/adam_optimizer.hpp | 17 ++++++++++++++---
 2 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/source/dnn/adam_optimizer.cpp b/source/dnn/adam_optimizer.cpp
index 0d84a63..e709b95 100644
--- a/source/dnn/adam_optimizer.cpp
+++ b/source/dnn/adam_optimizer.cpp
@@ -35,43 +35,49 @@ AdamOptimizer::AdamOptimizer(
     , _beta_1{beta_1}
     , _beta_2{beta_2}
     , _epsilon{epsilon}
-    , _m{0.0}
-    , _v{0.0}
-    , _t{1}
 { }
 
 void AdamOptimizer::_train(Layer& layer_from, Layer& layer_to)
 {
     SizeType param_count = layer_to.param_count();
+    if (param_count == 0) return;
+
+    auto& moments = _moments[&layer_to.param(0)];
+    if (moments.m.size() != param_count)
+    {
+        moments.m.assign(param_count, NumType{0.0});
+        moments.v.assign(param_count, NumType{0.0});
+        moments.t = 1;
+    }
+
     for (SizeType i = 0; i < param_count; ++i)
     {
         NumType& param    = layer_to.param(i);
         NumType& gradient = layer_from.gradient(i);
 
         // beta 1 - Momentum optimizer.
-        _m = _beta_1 * _m + (1 - _beta_1) * gradient;
+        auto& m = moments.m[i];
+        m = _beta_1 * m + (1 - _beta_1) * gradient;
 
         // beta 2 - RMSProp optimizer.
-        _v = _beta_2 * _v + (1 - _beta_2) * (gradient * gradient);
+        auto& v = moments.v[i];
+        v = _beta_2 * v + (1 - _beta_2) * (gradient * gradient);
 
         // bias correction.
-        auto m_corrected = _m / (1 - std::pow(_beta_1, _t));
-        auto v_corrected = _v / (1 - std::pow(_beta_2, _t));
+        auto m_corrected = m / (1 - std::pow(_beta_1, moments.t));
+        auto v_corrected = v / (1 - std::pow(_beta_2, moments.t));
 
         param -= _eta * (m_corrected / (std::sqrt(v_corrected) + _epsilon));
 
-        ++_t;
-
         // Reset the gradient accumulated again in the next training epoch.
         gradient = NumType{0.0};
     }
+    ++moments.t;
 }
 
 void AdamOptimizer::reset()
 {
-    _t = 1;
-    _m = 0;
-    _v = 0;
+    _moments.clear();
 }
 
 } // namespace EdgeLearning
diff --git a/source/dnn/adam_optimizer.hpp b/source/dnn/adam_optimizer.hpp
index f362c19..f9d4892 100644
--- a/source/dnn/adam_optimizer.hpp
+++ b/source/dnn/adam_optimizer.hpp
@@ -31,6 +31,8 @@
 
 #include "optimizer.hpp"
 
+#include <unordered_map>
+#include <vector>
 
 namespace EdgeLearning {
 
@@ -82,9 +84,18 @@ private:
     NumType _beta_2;  ///< \brief Exponential decay for the second moment.
     NumType _epsilon; ///< \brief A value near to zero.
 
-    NumType _m;  ///< \brief The first moment (momentum optimizer algorithm).
-    NumType _v;  ///< \brief The second moment (RMSProp optimizer algorithm).
-    SizeType _t; ///< \brief Incremental timestamp (temperature).
+    /// \brief State of the optimization of the parameters of a layer.
+    struct Moments
+    {
+        /// \brief The first moments (momentum optimizer algorithm).
+        std::vector<NumType> m;
+        /// \brief The second moments (RMSProp optimizer algorithm).
+        std::vector<NumType> v;
+        SizeType t = 1; ///< \brief Incremental timestamp (temperature).
+    };
+
+    /// \brief Moments of each layer by the address of its first parameter.
+    std::unordered_map<const NumType*, Moments> _moments;
 };
 
 } // namespace EdgeLearning
-- 
2.43.0


From d6a650657d4a0e148388e69dbd4bb3861594df3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:45 +0000
Subject: [PATCH 25/41] fix: hand the inputs of a dropout layer on to the next
 layer in predictions

---
 source/dnn/dropout.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/dnn/dropout.hpp b/source/dnn/dropout.hpp
index 915284f..646e835 100644
--- a/source/dnn/dropout.hpp
+++ b/source/dnn/dropout.hpp
@@ -70,7 +70,8 @@ public:
         const std::vector<NumType>& inputs) override
     {
         _last_input = inputs.data();
-        return FeedforwardLayer::forward(inputs);
+        _output_activations = inputs;
+        return FeedforwardLayer::forward(_output_activations);
     }
 
     /**
-- 
2.43.0


From 99470d56d0a43be798dd436fb4983ad0bf24f64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:30 +0000
Subject: [PATCH 26/41] fix: save and load the saturation value of an ELU layer

---
 source/dnn/activation.cpp | 18 ++++++++++++++++++
 source/dnn/activation.hpp | 13 +++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/source/dnn/activation.cpp b/source/dnn/activation.cpp
index 8509aa1..e8ae70b 100644
--- a/source/dnn/activation.cpp
+++ b/source/dnn/activation.cpp
@@ -130,6 +130,24 @@ const std::vector<NumType>& EluLayer::backward(
                     gradients.data(), size);
     return ActivationLayer::backward(_input_gradients);
 }
+
+Json EluLayer::dump() const
+{
+    Json out = ActivationLayer::dump();
+
+    Json others;
+    others["alpha"] = _alpha;
+    out[dump_fields.at(DumpFields::OTHERS)] = others;
+    return out;
+}
+
+void EluLayer::load(const Json& in)
+{
+    ActivationLayer::load(in);
+
+    _alpha = in.at(dump_fields.at(DumpFields::OTHERS))
+        .at("alpha").as<NumType>();
+}
 // =============================================================================
 
 // ================================ Softmax ====================================
diff --git a/source/dnn/activation.hpp b/source/dnn/activation.hpp
index fe73ccb..4c4f12d 100644
--- a/source/dnn/activation.hpp
+++ b/source/dnn/activation.hpp
@@ -143,6 +143,19 @@ public:
         const std::vector<NumType>& inputs) override;
     const std::vector<NumType>& backward(
         const std::vector<NumType>& gradients) override;
+
+    /**
+     * \brief Save the layer infos to disk.
+     * \return Json Layer dump.
+     */
+    Json dump() const override;
+
+    /**
+     * \brief Load the layer infos from disk.
+     * \param in const Json& Json to read.
+     */
+    void load(const Json& in) override;
+
 private:
     NumType _alpha;
 };
-- 
2.43.0


From fef0c82cdd2516043fb0b664d6304641bfcf213e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:33 +0000
Subject: [PATCH 27/41] fix: let an assigned model run the layers of its own
 graph

---
 source/dnn/model.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/dnn/model.cpp b/source/dnn/model.cpp
index a575b10..2e601c9 100644
--- a/source/dnn/model.cpp
+++ b/source/dnn/model.cpp
@@ -62,6 +62,9 @@ void swap(Model& lop, Model& rop)
     using std::swap;
     swap(lop._shared_fields, rop._shared_fields);
     swap(lop._state, rop._state);
+    // The graphs are cloned while they are swapped: refer to their new layers.
+    lop._state.update();
+    rop._state.update();
 }
 
 void Model::create_back_arc(
-- 
2.43.0


From 3a58cea5cb926cd9a500b9dce48da0236d7619fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:50 +0000
Subject: [PATCH 28/41] fix: know the input and output layer of a network of
 one layer and its loss

---
 source/dnn/dlgraph.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/dnn/dlgraph.cpp b/source/dnn/dlgraph.cpp
index 3c95613..24406ec 100644
--- a/source/dnn/dlgraph.cpp
+++ b/source/dnn/dlgraph.cpp
@@ -148,6 +148,8 @@ void DLGraph::add_arc_forward(
     {
         _training_forward_graph.add_arc(from, to);
     }
+    _compute_input_layers();
+    _compute_output_layers();
 }
 
 void DLGraph::add_arc_backward(
-- 
2.43.0


From 6b9fb92c59fe8ae65d1cd6a1bf27c8d38e09b2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:55 +0000
Subject: [PATCH 29/41] fix: adding a loss layer twice to a graph changes
 nothing

---
 source/dnn/dlgraph.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/dnn/dlgraph.cpp b/source/dnn/dlgraph.cpp
index 24406ec..5df3f5c 100644
--- a/source/dnn/dlgraph.cpp
+++ b/source/dnn/dlgraph.cpp
@@ -192,7 +192,11 @@ void DLGraph::add_arc_backward(
 void DLGraph::add_loss(std::shared_ptr<LossLayer> layer)
 {
     add_node(layer);
-    _loss_layers_idx.push_back(_layers.size() - 1);
+    auto layer_idx = static_cast<SizeType>(index_of(*layer));
+    if (DLMath::index_of(_loss_layers_idx, layer_idx) == -1)
+    {
+        _loss_layers_idx.push_back(layer_idx);
+    }
 }
 
 bool DLGraph::has_training_forward(std::size_t layer_idx) const
-- 
2.43.0


From d49ca3496d5b5690f43bc0336a9a7181f594c3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:03 +0000
Subject: [PATCH 30/41] fix: update the parameters in parallel training once no
 task reads them

---
 source/middleware/fnn.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/middleware/fnn.hpp b/source/middleware/fnn.hpp
index 4aaacd0..1370e20 100644
--- a/source/middleware/fnn.hpp
+++ b/source/middleware/fnn.hpp
@@ -103,10 +103,10 @@ public:
                     std::cout << "step " << i << std::endl;
                 }
 
-                for (auto& f: futures) {
-                    Model m = f.get();
-                    model.train(o, m);
-                }
+                // Update the parameters when no task reads them anymore.
+                std::vector<Model> models;
+                for (auto& f: futures) models.push_back(f.get());
+                for (auto& m: models) model.train(o, m);
             }
         }
     }
@@ -147,10 +147,10 @@ public:
                     i += batch_size;
                 }
 
-                for (auto& f: futures) {
-                    Model m = f.get();
-                    model.train(o, m);
-                }
+                // Update the parameters when no task reads them anymore.
+                std::vector<Model> models;
+                for (auto& f: futures) models.push_back(f.get());
+                for (auto& m: models) model.train(o, m);
             }
         }
     }
-- 
2.43.0


From 1c817d6d5b590976fa05651b2900bfad949f9b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:11 +0000
Subject: [PATCH 31/41] fix: run no parallel batch and no update behind the end
 of the dataset

---
 source/middleware/fnn.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/middleware/fnn.hpp b/source/middleware/fnn.hpp
index 1370e20..2440ea8 100644
--- a/source/middleware/fnn.hpp
+++ b/source/middleware/fnn.hpp
@@ -128,7 +128,8 @@ public:
                 model.reset_score();
 
                 std::vector<BetterThreads::Future<Model>> futures;
-                for (SizeType t = 0; t < tm.concurrency(); ++t)
+                for (SizeType t = 0; t < tm.concurrency()
+                                     && i < data.size(); ++t)
                 {
                     futures.push_back(tm.enqueue(
                         [&, batch_size](SizeType idx)
-- 
2.43.0


From 5e4e5a29af6067e95b561f83cae9e2895bd98a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:44 +0000
Subject: [PATCH 32/41] fix: scale the gradients by the batch size of each fit,
 not of the first

---
 source/dnn/loss.cpp       | 6 ++++++
 source/dnn/loss.hpp       | 6 ++++++
 source/middleware/fnn.hpp | 4 ++++
 3 files changed, 16 insertions(+)

diff --git a/source/dnn/loss.cpp b/source/dnn/loss.cpp
index 5b30ebf..74090a7 100644
--- a/source/dnn/loss.cpp
+++ b/source/dnn/loss.cpp
@@ -72,6 +72,12 @@ void LossLayer::reset_score()
     _incorrect       = 0;
 }
 
+void LossLayer::batch_size(SizeType batch_size)
+{
+    _inv_batch_size =
+        NumType{1.0} / static_cast<NumType>(std::max(batch_size, SizeType{1}));
+}
+
 void LossLayer::print() const
 {
     std::cout << "Avg Loss: " << avg_loss()
diff --git a/source/dnn/loss.hpp b/source/dnn/loss.hpp
index 2b0220e..d7e4b5b 100644
--- a/source/dnn/loss.hpp
+++ b/source/dnn/loss.hpp
@@ -134,6 +134,12 @@ public:
      */
     void reset_score();
 
+    /**
+     * \brief Set the batch size used to scale the gradients.
+     * \param batch_size SizeType The amount of samples in each batch.
+     */
+    void batch_size(SizeType batch_size);
+
     /**
      * \brief Print loss info.
      */
diff --git a/source/middleware/fnn.hpp b/source/middleware/fnn.hpp
index 2440ea8..6d220d5 100644
--- a/source/middleware/fnn.hpp
+++ b/source/middleware/fnn.hpp
@@ -220,6 +220,10 @@ public:
                 _m.create_loss_edge(output_layer, loss_layer);
             }
         }
+        for (const auto& loss_layer: _m.loss_layers())
+        {
+            loss_layer->batch_size(batch_size);
+        }
 
         // Train.
         _m.init(MapInit<Framework::EDGE_LEARNING, IT>::type,
-- 
2.43.0


From e59a28a538f8cff29e3c801a8a614773ec656876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:34 +0000
Subject: [PATCH 33/41] fix: derive the hidden activation of a recurrent layer
 from its output

---
 source/dnn/recurrent.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/dnn/recurrent.cpp b/source/dnn/recurrent.cpp
index 09e673a..870a32b 100644
--- a/source/dnn/recurrent.cpp
+++ b/source/dnn/recurrent.cpp
@@ -296,7 +296,7 @@ const std::vector<NumType>& RecurrentLayer::backward(
             case HiddenActivation::TanH:
             default:
             {
-                DLMath::tanh_1<NumType>(
+                DLMath::tanh_1_opt<NumType>(
                     next_hidden_state.data(), 
                     _hidden_state.data() + curr_hs_idx * _hidden_size, 
                     _hidden_size);
-- 
2.43.0


From 1464de6f193877d0e3cdf02755c6ce5368af8d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:19 +0000
Subject: [PATCH 34/41] fix: normalize a dataset without rows

---
 source/data/dataset.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/data/dataset.hpp b/source/data/dataset.hpp
index 7ac0e94..d305c21 100644
--- a/source/data/dataset.hpp
+++ b/source/data/dataset.hpp
@@ -637,6 +637,8 @@ public:
 
     Dataset<T>& min_max_normalization()
     {
+        if (_feature_amount == 0) return *this;
+
         std::vector<T> min_vec(static_cast<std::size_t>(_feature_size));
         std::vector<T> max_vec(static_cast<std::size_t>(_feature_size));
 
-- 
2.43.0


From e4b27eedbc0cff2ece0f2abcbc33b0d1a5f5b7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:16 +0000
Subject: [PATCH 35/41] fix: keep the input and output layers of a copied graph

---
 source/dnn/dlgraph.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/source/dnn/dlgraph.cpp b/source/dnn/dlgraph.cpp
index 5df3f5c..22132df 100644
--- a/source/dnn/dlgraph.cpp
+++ b/source/dnn/dlgraph.cpp
@@ -43,8 +43,8 @@ DLGraph::DLGraph(const DLGraph& obj)
     , _training_forward_graph(_layers)
     , _backward_graph(_layers)
     , _loss_layers_idx(obj._loss_layers_idx)
-    , _input_layers_idx()
-    , _output_layers_idx()
+    , _input_layers_idx(obj._input_layers_idx)
+    , _output_layers_idx(obj._output_layers_idx)
 {
     for(const auto& l: obj._layers)
     {
@@ -53,8 +53,6 @@ DLGraph::DLGraph(const DLGraph& obj)
     _forward_graph._edges = obj._forward_graph._edges;
     _training_forward_graph._edges = obj._training_forward_graph._edges;
     _backward_graph._edges = obj._backward_graph._edges;
-    _compute_input_layers();
-    _compute_output_layers();
 }
 
 DLGraph& DLGraph::operator=(const DLGraph& obj)
@@ -74,8 +72,8 @@ DLGraph& DLGraph::operator=(const DLGraph& obj)
     _forward_graph._edges = obj._forward_graph._edges;
     _training_forward_graph._edges = obj._training_forward_graph._edges;
     _backward_graph._edges = obj._backward_graph._edges;
-    _compute_input_layers();
-    _compute_output_layers();
+    _input_layers_idx = obj._input_layers_idx;
+    _output_layers_idx = obj._output_layers_idx;
     return *this;
 }
 
-- 
2.43.0


From 28d05a1f3d1e4b0bdd796dc8bb1d168748867149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:16 +0000
Subject: [PATCH 36/41] fix: keep the shape behind a dropout layer of a
 described network

---
 source/middleware/fnn.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/middleware/fnn.hpp b/source/middleware/fnn.hpp
index 6d220d5..cc1c836 100644
--- a/source/middleware/fnn.hpp
+++ b/source/middleware/fnn.hpp
@@ -185,7 +185,11 @@ public:
 
         auto layer = _add_layer(ld, _output_shape);
         if (!layer) return;
-        _output_shape = layer->output_shape();
+        if (ld.type() != LayerType::Dropout)
+        {
+            // Dropout works on flat data, the shape is not changed by it.
+            _output_shape = layer->output_shape();
+        }
         if (_m.layers().size() > 1)
         {
             _m.create_edge(_m.layers()[_m.layers().size() - 2], layer);
-- 
2.43.0


From 68f9ce5cd09074af36b5262e74a166110ded53b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:02 +0000
Subject: [PATCH 37/41] fix: leave no training task behind when a step throws

---
 source/middleware/fnn.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/middleware/fnn.hpp b/source/middleware/fnn.hpp
index cc1c836..2f833eb 100644
--- a/source/middleware/fnn.hpp
+++ b/source/middleware/fnn.hpp
@@ -103,7 +103,9 @@ public:
                     std::cout << "step " << i << std::endl;
                 }
 
-                // Update the parameters when no task reads them anymore.
+                // Update the parameters when no task reads them anymore,
+                // and leave no task behind if one of them throws.
+                for (auto& f: futures) f.wait();
                 std::vector<Model> models;
                 for (auto& f: futures) models.push_back(f.get());
                 for (auto& m: models) model.train(o, m);
@@ -148,7 +150,9 @@ public:
                     i += batch_size;
                 }
 
-                // Update the parameters when no task reads them anymore.
+                // Update the parameters when no task reads them anymore,
+                // and leave no task behind if one of them throws.
+                for (auto& f: futures) f.wait();
                 std::vector<Model> models;
                 for (auto& f: futures) models.push_back(f.get());
                 for (auto& m: models) model.train(o, m);
-- 
2.43.0


From 93a3b38799414af20b832f5f362027ff95f14e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:41 +0000
Subject: [PATCH 38/41] fix: leave the durations of a failed run out of the
 next profile

---
 profile/profile.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/profile/profile.hpp b/profile/profile.hpp
index 450ff97..1d14678 100644
--- a/profile/profile.hpp
+++ b/profile/profile.hpp
@@ -121,6 +121,7 @@ public:
         SizeType num_tries, std::string profile_name)
     {
         std::cout << msg << std::endl;
+        _sw.reset();
         profile(std::move(function), num_tries);
         std::cout << "completed " << _pretty_print() << std::endl;
         std::string fn(profile_name + ".csv");
-- 
2.43.0


From 338600f3a13adbd90e1283afe036a64ebf11925a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:12 +0000
Subject: [PATCH 39/41] fix: set the input shape of a concatenate layer without
 endless recursion

---
 source/dnn/concatenate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/dnn/concatenate.cpp b/source/dnn/concatenate.cpp
index f4b38d0..d9cd7ea 100644
--- a/source/dnn/concatenate.cpp
+++ b/source/dnn/concatenate.cpp
@@ -153,7 +153,7 @@ void ConcatenateLayer::load(const Json& in)
 
 void ConcatenateLayer::_set_input_shape(LayerShape input_shape)
 {
-    FeedforwardLayer::input_shape(input_shape);
+    FeedforwardLayer::_set_input_shape(input_shape);
 }
 
 } // namespace EdgeLearning
-- 
2.43.0


From a0246e82789f7138ca0baa32df838445813914cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:35 +0000
Subject: [PATCH 40/41] fix: RecurrentLayer leaks its working memory when a
 later allocation fails

---
 source/dnn/recurrent.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/source/dnn/recurrent.cpp b/source/dnn/recurrent.cpp
index 870a32b..4b9f4dc 100644
--- a/source/dnn/recurrent.cpp
+++ b/source/dnn/recurrent.cpp
@@ -122,7 +122,8 @@ const std::vector<NumType>& RecurrentLayer::forward(
     SizeType curr_hs_idx;         //< Current hidden state index.
     SizeType next_hs_idx;         //< Next hidden state index.
 
-    auto *tmp_mul = new NumType[_hidden_size];
+    std::vector<NumType> tmp_mul_buffer(_hidden_size);
+    auto *tmp_mul = tmp_mul_buffer.data();
 
     // The last time step overwrites the starting hidden state.
     _first_hidden_state.assign(
@@ -219,8 +220,6 @@ const std::vector<NumType>& RecurrentLayer::forward(
             _biases_to_o.data(), _shared_fields->output_size());
     }
 
-    delete[] tmp_mul;
-
     return Layer::forward(_output_activations);
 }
 
@@ -232,7 +231,8 @@ const std::vector<NumType>& RecurrentLayer::backward(
 
     std::vector<NumType> next_hidden_state(
         static_cast<std::size_t>(_hidden_size), NumType{0.0});
-    auto *tmp_mul = new NumType[_hidden_size];
+    std::vector<NumType> tmp_mul_buffer(_hidden_size);
+    auto *tmp_mul = tmp_mul_buffer.data();
 
     // Loop the gradient sequences in reverse.
     for (SizeType t = _time_steps; t > 0; --t)
@@ -362,8 +362,6 @@ const std::vector<NumType>& RecurrentLayer::backward(
             tmp_mul + _hidden_size);
     }
 
-    delete[] tmp_mul;
-
     return Layer::backward(_input_gradients);
 }
 
-- 
2.43.0


From 2f437edde23e507cea040d0c9b9b96c50ee0ce44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:05 +0000
Subject: [PATCH 41/41] fix: assigning a graph leaves it unusable when an
 allocation fails

---
 source/dnn/dlgraph.cpp | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/source/dnn/dlgraph.cpp b/source/dnn/dlgraph.cpp
index 22132df..028453d 100644
--- a/source/dnn/dlgraph.cpp
+++ b/source/dnn/dlgraph.cpp
@@ -58,22 +58,16 @@ DLGraph::DLGraph(const DLGraph& obj)
 DLGraph& DLGraph::operator=(const DLGraph& obj)
 {
     if (this == &obj) return *this;
-    _loss_layers_idx = obj._loss_layers_idx;
 
-    _layers.clear();
-    for(const auto& l: obj._layers)
-    {
-        _layers.push_back(l->clone());
-    }
-
-    _forward_graph = Graph(_layers);
-    _training_forward_graph = Graph(_layers);
-    _backward_graph = Graph(_layers);
-    _forward_graph._edges = obj._forward_graph._edges;
-    _training_forward_graph._edges = obj._training_forward_graph._edges;
-    _backward_graph._edges = obj._backward_graph._edges;
-    _input_layers_idx = obj._input_layers_idx;
-    _output_layers_idx = obj._output_layers_idx;
+    // Copy first: a failure leaves this graph as it was.
+    DLGraph copy(obj);
+    std::swap(_layers, copy._layers);
+    std::swap(_forward_graph._edges, copy._forward_graph._edges);
+    std::swap(_training_forward_graph._edges, copy._training_forward_graph._edges);
+    std::swap(_backward_graph._edges, copy._backward_graph._edges);
+    std::swap(_loss_layers_idx, copy._loss_layers_idx);
+    std::swap(_input_layers_idx, copy._input_layers_idx);
+    std::swap(_output_layers_idx, copy._output_layers_idx);
     return *this;
 }
 
-- 
2.43.0

