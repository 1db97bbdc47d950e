From 96add13dccdaaa6124d42fab8c045dd1c8d315c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:21 +0000
Subject: [PATCH 01/11] fix: reject enum container indexes and iterator offsets
 that wrap around Size

---
 libs/utils/include/kt_utils/EnumContainer.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libs/utils/include/kt_utils/EnumContainer.h b/libs/utils/include/kt_utils/EnumContainer.h
index 9847a8e..3942e94 100644
--- a/libs/utils/include/kt_utils/EnumContainer.h
+++ b/libs/utils/include/kt_utils/EnumContainer.h
@@ -143,8 +143,9 @@ protected:
 template <scoped_enum T, Enum::Size N> template <typename I>
 requires std::integral<I> || std::same_as<T, I>
 auto EnumContainer<T, N>::checkIndex(I i, const String& name) {
-  const auto x{static_cast<Size>(i)};
-  if (x >= N) {
+  // check the value before casting it to Size, otherwise a value that doesn't
+  // fit (like '256') would wrap around and could be treated as a valid index
+  if (const auto x{static_cast<std::intmax_t>(i)}; x < 0 || x >= N) {
     String msg{name};
     if constexpr (std::is_same_v<I, T>)
       msg += "enum value " + std::to_string(x);
@@ -152,7 +153,7 @@ auto EnumContainer<T, N>::checkIndex(I i, const String& name) {
       msg += std::to_string(i);
     rangeError(msg + RangeMsg);
   }
-  return x;
+  return static_cast<Size>(i);
 }
 
 template <scoped_enum T, Enum::Size N>
@@ -197,12 +198,13 @@ auto EnumContainer<T, N>::Iterator<Derived>::operator[](
 template <scoped_enum T, Enum::Size N>
 template <typename Derived>
 auto& EnumContainer<T, N>::Iterator<Derived>::operator+=(difference_type i) {
-  if (difference_type curIndex{index()}; (curIndex += i) < 0)
+  // check 'i' before adding so that the result can't overflow or be narrowed
+  if (const difference_type curIndex{index()}; i < -curIndex)
     rangeError(BadBegin);
-  else if (const auto j{static_cast<Size>(curIndex)}; j > N)
+  else if (i > N - curIndex)
     rangeError(BadEnd);
   else
-    index() = j;
+    index() = static_cast<Size>(curIndex + i);
   return derived();
 }
 
-- 
2.43.0


From 316d8ca641a586cf4578d8bd32e13bed25ec9597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:40 +0000
Subject: [PATCH 02/11] =?UTF-8?q?fix:=20convert=20repeated=20upper=20case?=
 =?UTF-8?q?=20r=C5=8Dmaji=20consonants=20to=20small=20tsu?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 libs/kana/src/Converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index 063af05..b221ed7 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -339,7 +339,7 @@ void Converter::processRomaji(String& letters, String& result) const {
     // unconverted since no valid romaji can be longer than 3 letters
     result += lower[0] == 'n' ? getN()
               : lower[0] == lower[1] || lower[0] == 't' && lower[1] == 'c'
-                  ? repeatingConsonants().contains(letters[0])
+                  ? repeatingConsonants().contains(lower[0])
                         ? getSmallTsu()
                         : letters.substr(0, 1) // error: first letter not valid
                   : letters.substr(0, 1);      // error: first letter not valid
-- 
2.43.0


From 029de742321104362de1ba5cb118ffee7e330ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:38 +0000
Subject: [PATCH 03/11] fix: print the last line of a file when it ends with
 kanji

---
 apps/formatMain.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/formatMain.cpp b/apps/formatMain.cpp
index 299c411..0bbedfb 100644
--- a/apps/formatMain.cpp
+++ b/apps/formatMain.cpp
@@ -40,6 +40,7 @@ void format(Args args) {
       std::cout << line << '\n';
     prevLine = line;
   }
+  if (prevLineEndedWithKanji) std::cout << prevLine << '\n';
 }
 
 int main(int argc, const char** argv) {
-- 
2.43.0


From 6a5ac1a2ff410f39f64f20b86989bf134643ba95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:30 +0000
Subject: [PATCH 04/11] fix: open text and data files for reading only so
 read-only files work

---
 apps/formatMain.cpp                      | 2 +-
 libs/stats/src/Utf8Count.cpp             | 4 ++--
 libs/utils/include/kt_utils/ColumnFile.h | 2 +-
 libs/utils/src/ColumnFile.cpp            | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/apps/formatMain.cpp b/apps/formatMain.cpp
index 0bbedfb..b26858b 100644
--- a/apps/formatMain.cpp
+++ b/apps/formatMain.cpp
@@ -16,7 +16,7 @@ void format(Args args) {
     throw DomainError("file not found: " + file.string());
   const std::wregex endsWithKanji{std::wstring{L"["} + KanjiRange() + L"]{1}$"},
       allKana{std::wstring{L"^["} + KanaRange() + L"]+$"};
-  std::fstream f{file};
+  std::ifstream f{file};
   String line, prevLine;
   auto prevLineEndedWithKanji{false};
   while (std::getline(f, line)) {
diff --git a/libs/stats/src/Utf8Count.cpp b/libs/stats/src/Utf8Count.cpp
index 1bdaa28..27c4414 100644
--- a/libs/stats/src/Utf8Count.cpp
+++ b/libs/stats/src/Utf8Count.cpp
@@ -119,14 +119,14 @@ size_t Utf8Count::processFile(const fs::path& file, const OptString& tag) {
   if (_find) return processFileWithRegex(file, tag);
   size_t added{};
   String line;
-  for (std::fstream f{file}; (std::getline(f, line));) added += add(line, tag);
+  for (std::ifstream f{file}; (std::getline(f, line));) added += add(line, tag);
   return added;
 }
 
 size_t Utf8Count::processFileWithRegex(
     const fs::path& file, const OptString& tag) {
   size_t added{};
-  std::fstream f{file};
+  std::ifstream f{file};
   String line, prevLine;
   for (auto prevUnclosed{false}; std::getline(f, line);
        prevUnclosed = hasUnclosedBrackets(prevLine)) {
diff --git a/libs/utils/include/kt_utils/ColumnFile.h b/libs/utils/include/kt_utils/ColumnFile.h
index 1219b8d..03ecf20 100644
--- a/libs/utils/include/kt_utils/ColumnFile.h
+++ b/libs/utils/include/kt_utils/ColumnFile.h
@@ -137,7 +137,7 @@ private:
 
   [[nodiscard]] String errorMsg(const String&) const;
 
-  std::fstream _file;
+  std::ifstream _file;
   const char _delimiter;
 
   /// holds the 'last component name' of the file being processed
diff --git a/libs/utils/src/ColumnFile.cpp b/libs/utils/src/ColumnFile.cpp
index 141df70..1f38466 100644
--- a/libs/utils/src/ColumnFile.cpp
+++ b/libs/utils/src/ColumnFile.cpp
@@ -28,7 +28,7 @@ size_t ColumnFile::getColumnNumber(const String& name) {
 }
 
 ColumnFile::ColumnFile(const Path& p, const Columns& columns, char delim)
-    : _file{std::fstream(p)}, _delimiter{delim},
+    : _file{std::ifstream(p)}, _delimiter{delim},
       _fileName{p.filename().string()}, _rowValues{columns.size()},
       _columnToPosition(_allColumns.size(), ColNotFound) {
   assert(_columnToPosition.size() == _allColumns.size()); // need () ctor
-- 
2.43.0


From 0466f05335dd56f71ec4c711d15477c095485371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:30 +0000
Subject: [PATCH 05/11] fix: map upper case group quiz answers to the right
 reading

---
 libs/quiz/src/GroupQuiz.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/quiz/src/GroupQuiz.cpp b/libs/quiz/src/GroupQuiz.cpp
index 4ee0f79..f44d1b1 100644
--- a/libs/quiz/src/GroupQuiz.cpp
+++ b/libs/quiz/src/GroupQuiz.cpp
@@ -258,7 +258,7 @@ void GroupQuiz::checkAnswers(
   size_t correctCount{};
   for (size_t count{}; auto i : _answers) {
     const auto answer{
-        static_cast<size_t>(i <= 'z' ? i - 'a' : i - 'A' + TotalLetters)};
+        static_cast<size_t>(i >= 'a' ? i - 'a' : i - 'A' + TotalLetters)};
     // always look at reading for a match and only additionally require matching
     // meanings if '_showMeanings' is true
     if (questions[count]->reading() == readings[answer]->reading() &&
-- 
2.43.0


From c8d1f7b4dcafcf390412551bff2f81217c4c9d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:31 +0000
Subject: [PATCH 06/11] fix: make the ordering of stats counts a strict weak
 ordering

---
 libs/stats/src/Stats.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libs/stats/src/Stats.cpp b/libs/stats/src/Stats.cpp
index dcaf834..deec26a 100644
--- a/libs/stats/src/Stats.cpp
+++ b/libs/stats/src/Stats.cpp
@@ -111,9 +111,11 @@ KanjiTypes Stats::Count::type() const {
 
 bool Stats::Count::operator<(const Count& x) const {
   return _count > x._count ||
-         (_count == x._count && frequency() < x.frequency() ||
-             (frequency() == x.frequency() && type() < x.type() ||
-                 (type() == x.type() && _name < x._name)));
+         (_count == x._count &&
+             (frequency() < x.frequency() ||
+                 (frequency() == x.frequency() &&
+                     (type() < x.type() ||
+                         (type() == x.type() && _name < x._name)))));
 }
 
 std::ostream& operator<<(std::ostream& os, const Stats::Count& c) {
-- 
2.43.0


From be46ea3e13ec78e087a6115773527f3ece2a8f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:55 +0000
Subject: [PATCH 07/11] fix: stop asking for a choice when there's no more
 input

---
 libs/kana/include/kt_kana/Choice.h |  8 +++++++-
 libs/kana/src/Choice.cpp           | 26 ++++++++++++++++++--------
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/libs/kana/include/kt_kana/Choice.h b/libs/kana/include/kt_kana/Choice.h
index 1198a60..84b3052 100644
--- a/libs/kana/include/kt_kana/Choice.h
+++ b/libs/kana/include/kt_kana/Choice.h
@@ -93,7 +93,13 @@ public:
   [[nodiscard]] char get(Range, const String&) const;
   [[nodiscard]] char get(Range, const String&, OptChar) const; ///@}
 private:
-  [[nodiscard]] static char getOneChar();
+  /// return the value to use when there's no more input: 'quit option' if it's
+  /// allowed, otherwise `def`
+  /// \throw DomainError if there's nothing to return
+  [[nodiscard]] char endOfInput(bool useQuit, OptChar def) const;
+
+  /// return a char read from stdin or empty if there's no more input
+  [[nodiscard]] static OptChar getOneChar();
   static void add(String& prompt, const Choices&);
   static void checkPrintableAscii(char x, const String& msg);
   static void error(const String&);
diff --git a/libs/kana/src/Choice.cpp b/libs/kana/src/Choice.cpp
index 3c0d604..4e4f4f1 100644
--- a/libs/kana/src/Choice.cpp
+++ b/libs/kana/src/Choice.cpp
@@ -53,15 +53,17 @@ char Choice::get(const String& msg, bool useQuit, const Choices& choices,
   do {
     _out << prompt;
     _out.flush();
-    if (_in)
-      std::getline(*_in, line);
-    else {
+    if (_in) {
+      if (!std::getline(*_in, line)) return endOfInput(useQuit, def);
+    } else {
       // XCOV_EXCL_START - code only used in interactive mode
-      if (const auto choice{getOneChar()}; choice == '\n')
+      const auto choice{getOneChar()};
+      _out << '\n';
+      if (!choice) return endOfInput(useQuit, def);
+      if (*choice == '\n')
         line.clear();
       else
-        line = choice;
-      _out << '\n';
+        line = *choice;
       // XCOV_EXCL_STOP
     }
     if (line.empty() && def) return *def;
@@ -69,6 +71,12 @@ char Choice::get(const String& msg, bool useQuit, const Choices& choices,
   return line[0];
 }
 
+char Choice::endOfInput(bool useQuit, OptChar def) const {
+  if (useQuit && _quit) return *_quit;
+  if (!def) error("no more input");
+  return *def;
+}
+
 char Choice::get(
     const String& msg, bool useQuit, const Choices& choices) const {
   return get(msg, useQuit, choices, {});
@@ -118,7 +126,7 @@ char Choice::get(Range range, const String& msg, OptChar def) const {
 }
 
 // XCOV_EXCL_START - this code requires user input (so not covered by tests)
-char Choice::getOneChar() {
+Choice::OptChar Choice::getOneChar() {
   static constexpr tcflag_t Icanon{ICANON}, Echo{ECHO};
   struct termios settings {};
   if (tcgetattr(0, &settings) < 0) perror("tcsetattr()");
@@ -131,12 +139,14 @@ char Choice::getOneChar() {
     perror("tcsetattr() - turning on raw mode");
   // read a single char
   char result{};
-  if (read(0, &result, 1) < 0) perror("read()");
+  const auto count{read(0, &result, 1)};
+  if (count < 0) perror("read()");
   // turn raw mode off
   settings.c_lflag |= Icanon;
   settings.c_lflag |= Echo;
   if (tcsetattr(0, TCSADRAIN, &settings) < 0)
     perror("tcsetattr() - turning off raw mode");
+  if (count < 1) return {};
   return result;
 }
 // XCOV_EXCL_STOP
-- 
2.43.0


From 25229eac5577379a83bdefbfc1f9a5744505f2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:55 +0000
Subject: [PATCH 08/11] fix: restore the original terminal settings after
 reading a choice

---
 libs/kana/src/Choice.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/libs/kana/src/Choice.cpp b/libs/kana/src/Choice.cpp
index 4e4f4f1..1195afd 100644
--- a/libs/kana/src/Choice.cpp
+++ b/libs/kana/src/Choice.cpp
@@ -130,6 +130,7 @@ Choice::OptChar Choice::getOneChar() {
   static constexpr tcflag_t Icanon{ICANON}, Echo{ECHO};
   struct termios settings {};
   if (tcgetattr(0, &settings) < 0) perror("tcsetattr()");
+  const auto original{settings};
   // turn raw mode on - allows getting single char without waiting for 'return'
   settings.c_lflag &= ~Icanon;
   settings.c_lflag &= ~Echo;
@@ -142,9 +143,7 @@ Choice::OptChar Choice::getOneChar() {
   const auto count{read(0, &result, 1)};
   if (count < 0) perror("read()");
   // turn raw mode off
-  settings.c_lflag |= Icanon;
-  settings.c_lflag |= Echo;
-  if (tcsetattr(0, TCSADRAIN, &settings) < 0)
+  if (tcsetattr(0, TCSADRAIN, &original) < 0)
     perror("tcsetattr() - turning off raw mode");
   if (count < 1) return {};
   return result;
-- 
2.43.0


From d8c05bfbc048e2a8c5ad5d153b6839e5012c4cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:43 +0000
Subject: [PATCH 09/11] fix: reject numeric columns with signs, spaces or
 trailing text

---
 libs/utils/src/ColumnFile.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/utils/src/ColumnFile.cpp b/libs/utils/src/ColumnFile.cpp
index 1f38466..59bcb03 100644
--- a/libs/utils/src/ColumnFile.cpp
+++ b/libs/utils/src/ColumnFile.cpp
@@ -118,11 +118,16 @@ ColumnFile::OptU64 ColumnFile::getOptU64(const Column& c, uint64_t max) const {
 
 uint64_t ColumnFile::processU64(
     const String& s, const Column& column, uint64_t max) const {
+  static const String ConvertError{"failed to convert to unsigned number"};
+
   uint64_t i{};
+  // 'stoul' allows spaces and signs ("-1" wraps) and ignores trailing text
+  if (s.find_first_not_of("0123456789") != String::npos)
+    error(ConvertError, column, s);
   try {
     i = std::stoul(s);
   } catch (...) {
-    error("failed to convert to unsigned number", column, s);
+    error(ConvertError, column, s);
   }
   if (max && max < i)
     error("exceeded max value of " + std::to_string(max), column, s);
-- 
2.43.0


From 4bd7495bde26ff27c5ca1a25ba055965aa4e6d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:35 +0000
Subject: [PATCH 10/11] fix: don't negate the offset when moving an enum
 container iterator back

---
 libs/utils/include/kt_utils/EnumContainer.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libs/utils/include/kt_utils/EnumContainer.h b/libs/utils/include/kt_utils/EnumContainer.h
index 3942e94..6e78ebb 100644
--- a/libs/utils/include/kt_utils/EnumContainer.h
+++ b/libs/utils/include/kt_utils/EnumContainer.h
@@ -211,7 +211,14 @@ auto& EnumContainer<T, N>::Iterator<Derived>::operator+=(difference_type i) {
 template <scoped_enum T, Enum::Size N>
 template <typename Derived>
 auto& EnumContainer<T, N>::Iterator<Derived>::operator-=(difference_type i) {
-  return *this += -i;
+  // don't call '+=' with '-i' since the lowest value can't be negated
+  if (const difference_type curIndex{index()}; i > curIndex)
+    rangeError(BadBegin);
+  else if (i < curIndex - N)
+    rangeError(BadEnd);
+  else
+    index() = static_cast<Size>(curIndex - i);
+  return derived();
 }
 
 template <scoped_enum T, Enum::Size N>
-- 
2.43.0


From 30b945521b653f61bf4955d5f2875140e9fd5246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:13 +0000
Subject: [PATCH 11/11] fix: reject rows with an additional empty column

An empty field after the last column (a trailing delimiter) wasn't noticed by
ColumnFile::nextRow, which must throw if a row has too many columns.
---
 libs/utils/src/ColumnFile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/utils/src/ColumnFile.cpp b/libs/utils/src/ColumnFile.cpp
index 59bcb03..4adb5ef 100644
--- a/libs/utils/src/ColumnFile.cpp
+++ b/libs/utils/src/ColumnFile.cpp
@@ -90,6 +90,8 @@ bool ColumnFile::nextRow() {
       _rowValues[_rowValues.size() - 1] = emptyString();
     else if (i < _rowValues.size())
       error("not enough columns");
+    else if (line.ends_with(_delimiter)) // there's another (empty) column
+      error("too many columns");
     return true;
   }
   return false;
-- 
2.43.0

