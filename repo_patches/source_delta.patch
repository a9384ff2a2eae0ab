From fe3efd4d3bc8d354d056282f97712ec44fdf27ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:03 +0000
Subject: [PATCH 01/51] fix: deserialise 16-bit code units without truncating
 them to char

---
 lttoolbox/deserialiser.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/deserialiser.h b/lttoolbox/deserialiser.h
index 9062930..0d0a899 100644
--- a/lttoolbox/deserialiser.h
+++ b/lttoolbox/deserialiser.h
@@ -85,7 +85,7 @@ public:
 
 template <> class Deserialiser<UChar> {
 public:
-  inline static char deserialise(std::istream &Stream_);
+  inline static UChar deserialise(std::istream &Stream_);
 };
 
 template<> class Deserialiser<double> {
@@ -174,7 +174,7 @@ char Deserialiser<char>::deserialise(std::istream &Stream_) {
   return int_deserialise<uint8_t>(Stream_);
 }
 
-char Deserialiser<UChar>::deserialise(std::istream &Stream_) {
+UChar Deserialiser<UChar>::deserialise(std::istream &Stream_) {
   return int_deserialise<uint16_t>(Stream_);
 }
 
-- 
2.43.0


From 52337fc5b13b280027f8297a4b3808f56be7843b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:04 +0000
Subject: [PATCH 02/51] fix: rebuild the whole symbol-pair index when
 deserialising an alphabet

---
 lttoolbox/alphabet.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/alphabet.cc b/lttoolbox/alphabet.cc
index 0531005..2097c0c 100644
--- a/lttoolbox/alphabet.cc
+++ b/lttoolbox/alphabet.cc
@@ -206,7 +206,7 @@ Alphabet::deserialise(std::istream &serialised)
     slexic[slexicinv[i]] = -i - 1; // ToDo: This does not turn the result negative due to unsigned semantics
   }
   spairinv = Deserialiser<std::vector<std::pair<int32_t, int32_t> > >::deserialise(serialised);
-  for (size_t i = 0; i < slexicinv.size(); i++) {
+  for (size_t i = 0; i < spairinv.size(); i++) {
     spair[spairinv[i]] = i;
   }
 }
-- 
2.43.0


From e24fe408d4024978a860e8fedfca726bcba45034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:26 +0000
Subject: [PATCH 03/51] fix: copy the arcs of a node, not only their number

Dest::copy allocated arrays of the right size but left them uninitialised.
---
 lttoolbox/node.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lttoolbox/node.h b/lttoolbox/node.h
index 34ae538..374f2fb 100644
--- a/lttoolbox/node.h
+++ b/lttoolbox/node.h
@@ -44,6 +44,12 @@ private:
     out_tag = new int[size];
     dest = new Node*[size];
     out_weight = new double[size];
+    for(int i = 0; i < size; i++)
+    {
+      out_tag[i] = d.out_tag[i];
+      dest[i] = d.dest[i];
+      out_weight[i] = d.out_weight[i];
+    }
   }
 
   void destroy()
-- 
2.43.0


From 2d13f47de2a61a264851509b1844bd0ef6d31a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:26 +0000
Subject: [PATCH 04/51] fix: copy whole elements when copying a Buffer

The element count was passed to memcpy as a byte count.
---
 lttoolbox/buffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/buffer.h b/lttoolbox/buffer.h
index 6ea1f64..c600fd5 100644
--- a/lttoolbox/buffer.h
+++ b/lttoolbox/buffer.h
@@ -17,6 +17,7 @@
 #ifndef _BUFFER_
 #define _BUFFER_
 
+#include <algorithm>
 #include <iostream>
 #include <cstdlib>
 #include <cstring>
@@ -55,7 +56,7 @@ private:
       lastpos = b.lastpos;
       size = b.size;
       buf = new T[size];
-      memcpy(buf, b.buf, size);
+      std::copy(b.buf, b.buf + size, buf);
     }
 
   void destroy()
-- 
2.43.0


From 807eb56a72b1e59242e1f1844a5a119cdccbd21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:26 +0000
Subject: [PATCH 05/51] fix: copy-construct a MatchState with storage of its
 own

copy() tested the not yet initialised state pointer.
---
 lttoolbox/match_state.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/match_state.cc b/lttoolbox/match_state.cc
index 097af0d..bfd8196 100644
--- a/lttoolbox/match_state.cc
+++ b/lttoolbox/match_state.cc
@@ -33,7 +33,8 @@ MatchState::~MatchState()
   destroy();
 }
 
-MatchState::MatchState(MatchState const &s)
+MatchState::MatchState(MatchState const &s) :
+state(0)
 {
   copy(s);
 }
-- 
2.43.0


From 518251a595314b1c6692d6f03088f73da89cea4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:26 +0000
Subject: [PATCH 06/51] fix: carry over input position and bracket set when
 copying a RegexpCompiler

---
 lttoolbox/regexp_compiler.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lttoolbox/regexp_compiler.cc b/lttoolbox/regexp_compiler.cc
index 18c7bee..77c0d2e 100644
--- a/lttoolbox/regexp_compiler.cc
+++ b/lttoolbox/regexp_compiler.cc
@@ -51,6 +51,7 @@ RegexpCompiler::copy(RegexpCompiler const &rec)
 {
   token = rec.token;
   input = rec.input;
+  index = rec.index;
   transducer = rec.transducer;
   letter = rec.letter;
   alphabet = rec.alphabet;
@@ -58,6 +59,7 @@ RegexpCompiler::copy(RegexpCompiler const &rec)
   letter = rec.letter;
   postop = rec.postop;
   default_weight = rec.default_weight;
+  brackets = rec.brackets;
 }
 
 bool
-- 
2.43.0


From 02f6e1d73926f9207edb70b7a243d402a4bbf76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:36 +0000
Subject: [PATCH 07/51] fix: give every scalar member a value at construction

Expander decided whether to print word boundaries from an uninitialised flag
unless the caller set it; EntryToken and FSTProcessor had members of the same kind.
---
 lttoolbox/entry_token.h   | 2 +-
 lttoolbox/expander.h      | 2 +-
 lttoolbox/fst_processor.h | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lttoolbox/entry_token.h b/lttoolbox/entry_token.h
index 0f82c80..8c58de6 100644
--- a/lttoolbox/entry_token.h
+++ b/lttoolbox/entry_token.h
@@ -47,7 +47,7 @@ private:
   /**
    * Weight value for the entry (default_weight if unspecified)
    */
-  double weight;
+  double weight = 0.0000;
 
   /**
    * Left side of transduction (if 'single_transduction')
diff --git a/lttoolbox/expander.h b/lttoolbox/expander.h
index 4a54429..cdc755b 100644
--- a/lttoolbox/expander.h
+++ b/lttoolbox/expander.h
@@ -70,7 +70,7 @@ private:
   /**
    * Do we print boundaries or not?
    */
-  bool keep_boundaries;
+  bool keep_boundaries = false;
 
   /**
    * Paradigms
diff --git a/lttoolbox/fst_processor.h b/lttoolbox/fst_processor.h
index c0a1c42..0dd9cf9 100644
--- a/lttoolbox/fst_processor.h
+++ b/lttoolbox/fst_processor.h
@@ -140,7 +140,7 @@ private:
   /**
    * Original char being restored
    */
-  int rcx_current_char;
+  int rcx_current_char = 0;
 
   /**
    * Alphabet
@@ -256,7 +256,7 @@ private:
   /**
    * The alphabet index of the tag <ANY_CHAR>
    */
-  int any_char;
+  int any_char = 0;
 
   /**
    * Prints an error of input stream and exits
@@ -445,7 +445,7 @@ private:
 
   bool isLastBlankTM = false;
 
-  xmlTextReaderPtr reader;
+  xmlTextReaderPtr reader = NULL;
 
   static constexpr size_t max_case_insensitive_state_size = 65536;
   bool max_case_insensitive_state_size_warned = false;
-- 
2.43.0


From f18e87283458a6bec37c416273bdc43ec585a692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:00 +0000
Subject: [PATCH 08/51] fix: lt-merge reads the input file also when no output
 file is given

---
 lttoolbox/lt_merge.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/lt_merge.cc b/lttoolbox/lt_merge.cc
index d3939f7..d176f20 100644
--- a/lttoolbox/lt_merge.cc
+++ b/lttoolbox/lt_merge.cc
@@ -35,7 +35,7 @@ int main(int argc, char *argv[])
   auto strs = cli.get_strs();
   bool unmerge = cli.get_bools()["unmerge"];
   InputFile input;
-  if (!cli.get_files()[1].empty()) {
+  if (!cli.get_files()[0].empty()) {
     input.open_or_exit(cli.get_files()[0].c_str());
   }
   UFILE* output = openOutTextFile(cli.get_files()[1]);
-- 
2.43.0


From 9063fa72a7f075100bdbc90003dcb092486609a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:00 +0000
Subject: [PATCH 09/51] fix: lt-tmxcomp accepts its documented options

The argument count was checked before the options were removed, so any use of
-o or -m ended in the usage message.
---
 lttoolbox/lt_tmxcomp.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lttoolbox/lt_tmxcomp.cc b/lttoolbox/lt_tmxcomp.cc
index 914f30a..8c30189 100644
--- a/lttoolbox/lt_tmxcomp.cc
+++ b/lttoolbox/lt_tmxcomp.cc
@@ -49,11 +49,6 @@ int main(int argc, char *argv[])
 {
   LtLocale::tryToSetLocale();
 
-  if(argc != 4)
-  {
-    endProgram(argv[0]);
-  }
-
   TMXCompiler c;
 
 #if HAVE_GETOPT_LONG
@@ -94,6 +89,11 @@ int main(int argc, char *argv[])
     }
   }
 
+  if(argc - optind != 3)
+  {
+    endProgram(argv[0]);
+  }
+
   UString opc = to_ustring(argv[argc-3]);
   UString lo = opc.substr(0, opc.find('-'));
   UString lm = opc.substr(opc.find('-')+1);
@@ -107,7 +107,7 @@ int main(int argc, char *argv[])
   FILE *output = fopen(argv[argc-1], "wb");
   if(!output)
   {
-    std::cerr << "Error: Cannot open file '" << argv[2] << "'." << std::endl;
+    std::cerr << "Error: Cannot open file '" << argv[argc-1] << "'." << std::endl;
     exit(EXIT_FAILURE);
   }
   c.write(output);
-- 
2.43.0


From c4a11b5ce028e664b4428a0f0d7eb65d126586d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:00 +0000
Subject: [PATCH 10/51] fix: terminate the long option table

getopt_long read past the end of the vector for any unknown long option.
---
 lttoolbox/cli.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/cli.cc b/lttoolbox/cli.cc
index c1a78bb..3254dee 100644
--- a/lttoolbox/cli.cc
+++ b/lttoolbox/cli.cc
@@ -124,7 +124,7 @@ void CLI::parse_args(int argc, char* argv[])
   prog_name = basename(argv[0]);
   std::string arg_str;
 #if HAVE_GETOPT_LONG
-  std::vector<struct option> long_options(options.size());
+  std::vector<struct option> long_options(options.size() + 1);
   int option_index = 0;
 #endif
   for (size_t i = 0; i < options.size(); i++) {
-- 
2.43.0


From 9654a25c69121f38762ce2886b8f40bddaa6dc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:00 +0000
Subject: [PATCH 11/51] fix: declare the jobs option lt-compose consults

---
 lttoolbox/lt_compose.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lttoolbox/lt_compose.cc b/lttoolbox/lt_compose.cc
index 6ec365d..a945fb2 100644
--- a/lttoolbox/lt_compose.cc
+++ b/lttoolbox/lt_compose.cc
@@ -103,6 +103,7 @@ int main(int argc, char *argv[])
   CLI cli("compose transducer1 with transducer2", PACKAGE_VERSION);
   cli.add_bool_arg('i', "inverted", "run composition right-to-left on transducer1");
   cli.add_bool_arg('a', "anywhere", "don't require anchored matches, let transducer2 optionally compose at any sub-path");
+  cli.add_bool_arg('j', "jobs", "use one cpu core per section when composing");
   cli.add_file_arg("transducer1_bin_file", false);
   cli.add_file_arg("transducer2_bin_file");
   cli.add_file_arg("trimmed_bin_file");
-- 
2.43.0


From 7344b1c1ffb4676b23c1b71caca3e30ffd2196a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:26 +0000
Subject: [PATCH 12/51] fix: write letters outside the basic plane as they are

The set of letters was converted to UTF-16 by truncating each code point, so
lt-trim, lt-append, lt-invert, ... and compiling ATT files corrupted it.
---
 lttoolbox/att_compiler.cc | 3 +--
 lttoolbox/att_compiler.h  | 2 +-
 lttoolbox/file_utils.cc   | 6 +++++-
 lttoolbox/lt_append.cc    | 3 +--
 4 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/lttoolbox/att_compiler.cc b/lttoolbox/att_compiler.cc
index 4c415c1..71e39c3 100644
--- a/lttoolbox/att_compiler.cc
+++ b/lttoolbox/att_compiler.cc
@@ -531,8 +531,7 @@ AttCompiler::write(FILE *output)
   } else {
     temp["main@standard"_u] = extract_transducer(UNDECIDED);
   }
-  writeTransducerSet(output, UString(letters.begin(), letters.end()),
-                     alphabet, temp);
+  writeTransducerSet(output, letters, alphabet, temp);
 }
 
 void
diff --git a/lttoolbox/att_compiler.h b/lttoolbox/att_compiler.h
index 4d4af15..533ddb6 100644
--- a/lttoolbox/att_compiler.h
+++ b/lttoolbox/att_compiler.h
@@ -108,7 +108,7 @@ private:
 
   Alphabet alphabet;
   /** All non-multicharacter symbols. */
-  std::set<UChar> letters;
+  std::set<UChar32> letters;
 
   /** Used in AttNode. */
   struct Transduction
diff --git a/lttoolbox/file_utils.cc b/lttoolbox/file_utils.cc
index 31608cc..4eb3d68 100644
--- a/lttoolbox/file_utils.cc
+++ b/lttoolbox/file_utils.cc
@@ -90,7 +90,11 @@ writeTransducerSet(FILE* output, const std::set<UChar32>& letters,
                    Alphabet& alpha,
                    std::map<UString, Transducer>& trans)
 {
-  writeTransducerSet(output, UString(letters.begin(), letters.end()), alpha, trans);
+  UString chars;
+  for (auto& it : letters) {
+    chars += it;
+  }
+  writeTransducerSet(output, chars, alpha, trans);
 }
 
 void
diff --git a/lttoolbox/lt_append.cc b/lttoolbox/lt_append.cc
index a8358fb..a15d0b7 100644
--- a/lttoolbox/lt_append.cc
+++ b/lttoolbox/lt_append.cc
@@ -49,7 +49,6 @@ int main(int argc, char *argv[])
   for (auto& it : chars2) {
     chars1.insert(it);
   }
-  UString chars(chars1.begin(), chars1.end());
 
   for (auto& it : trans2) {
     if (trans1.find(it.first) != trans1.end()) {
@@ -63,7 +62,7 @@ int main(int argc, char *argv[])
     trans1[it.first] = it.second;
   }
 
-  writeTransducerSet(output, chars, alpha1, trans1);
+  writeTransducerSet(output, chars1, alpha1, trans1);
 
   fclose(input1);
   fclose(input2);
-- 
2.43.0


From a9be80ed9fba3e263fe2bdbe7b843bc74e74ab08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:27 +0000
Subject: [PATCH 13/51] fix: lt-print --alpha prints letters outside the basic
 plane

%C takes a UTF-16 unit, so the code point was truncated.
---
 lttoolbox/lt_print.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/lt_print.cc b/lttoolbox/lt_print.cc
index 6619530..b4f023d 100644
--- a/lttoolbox/lt_print.cc
+++ b/lttoolbox/lt_print.cc
@@ -46,7 +46,8 @@ int main(int argc, char *argv[])
 
   if (alpha) {
     for (auto& it : alphabetic_chars) {
-      u_fprintf(output, "%C\n", it);
+      u_fputc(it, output);
+      u_fputc('\n', output);
     }
     for (int i = 1; i <= alphabet.size(); i++) {
       alphabet.writeSymbol(-i, output);
-- 
2.43.0


From 3bd68b22de59761aab46244af3ac5065ea9b3f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:44 +0000
Subject: [PATCH 14/51] fix: looking up an unknown tag does not give the first
 tag

The const lookup returned -1, which is the code of the first tag of every
alphabet, so tokenize() mistook unknown tags for it.
---
 lttoolbox/alphabet.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/alphabet.cc b/lttoolbox/alphabet.cc
index 2097c0c..ff34065 100644
--- a/lttoolbox/alphabet.cc
+++ b/lttoolbox/alphabet.cc
@@ -112,7 +112,7 @@ Alphabet::operator()(UStringView s) const
 {
   auto it = slexic.find(s);
   if (it == slexic.end()) {
-    return -1;
+    return 0;
   }
   return it->second;
 }
-- 
2.43.0


From 39428cffd6d1282873f6baf543a94ea101c1f9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:16 +0000
Subject: [PATCH 15/51] fix: look up characters outside the basic plane as one
 symbol

Words were taken apart by UTF-16 unit (or a surrogate pair was looked up as a
tag) in the lowercase and compound fallbacks, bilingual lookup with queue,
lt-paradigm patterns, pattern lists and ICX/RCX files.
---
 lttoolbox/alphabet.cc      | 12 ++++++++++--
 lttoolbox/alphabet.h       |  7 +++++++
 lttoolbox/fst_processor.cc | 32 ++++++++++++++++----------------
 lttoolbox/lt_paradigm.cc   |  2 +-
 lttoolbox/pattern_list.cc  |  8 +++++---
 lttoolbox/ustring.h        | 13 +++++++++++++
 6 files changed, 52 insertions(+), 22 deletions(-)

diff --git a/lttoolbox/alphabet.cc b/lttoolbox/alphabet.cc
index ff34065..e278a38 100644
--- a/lttoolbox/alphabet.cc
+++ b/lttoolbox/alphabet.cc
@@ -308,13 +308,21 @@ Alphabet::createLoopbackSymbols(std::set<int32_t> &symbols, const Alphabet &basi
   }
 }
 
+int32_t
+Alphabet::symbolCode(UStringView sym) const
+{
+  if (sym.size() > 1 && sym[0] == '<') {
+    return operator()(sym);
+  }
+  return first_char32(sym);
+}
+
 std::vector<int32_t>
 Alphabet::tokenize(UStringView str) const
 {
   std::vector<int32_t> ret;
   for (auto sym : symbol_iter(str)) {
-    if (sym.size() > 1) ret.push_back(operator()(sym));
-    else ret.push_back(static_cast<int32_t>(sym[0]));
+    ret.push_back(symbolCode(sym));
   }
   return ret;
 }
diff --git a/lttoolbox/alphabet.h b/lttoolbox/alphabet.h
index a213fa1..b31b5d5 100644
--- a/lttoolbox/alphabet.h
+++ b/lttoolbox/alphabet.h
@@ -199,6 +199,13 @@ public:
 
   std::vector<int32_t> tokenize(UStringView str) const;
 
+  /**
+   * Gets the code of a symbol as delimited by symbol_iter
+   * @param sym a tag, or a single character
+   * @return the code of the tag, or the code point of the character
+   */
+  int32_t symbolCode(UStringView sym) const;
+
   bool sameSymbol(int32_t tsym, const Alphabet& other, int32_t osym,
                   bool allow_anys=false) const;
 };
diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 7024e83..f7706bc 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -123,7 +123,7 @@ FSTProcessor::procNodeICX()
   }
   else if(name == XML_CHAR_ELEM)
   {
-    ignored_chars.insert(static_cast<int32_t>(XMLParseUtil::attrib(reader, XML_VALUE_ATTR)[0]));
+    ignored_chars.insert(first_char32(XMLParseUtil::attrib(reader, XML_VALUE_ATTR)));
   }
   else if(name == XML_COMMENT_NODE)
   {
@@ -157,11 +157,11 @@ FSTProcessor::procNodeRCX()
   }
   else if(name == XML_CHAR_ELEM)
   {
-    rcx_current_char = static_cast<int32_t>(XMLParseUtil::attrib(reader, XML_VALUE_ATTR)[0]);
+    rcx_current_char = first_char32(XMLParseUtil::attrib(reader, XML_VALUE_ATTR));
   }
   else if(name == XML_RESTORE_CHAR_ELEM)
   {
-    rcx_map[rcx_current_char].insert(static_cast<int32_t>(XMLParseUtil::attrib(reader, XML_VALUE_ATTR)[0]));
+    rcx_map[rcx_current_char].insert(first_char32(XMLParseUtil::attrib(reader, XML_VALUE_ATTR)));
   }
   else if(name == XML_COMMENT_NODE)
   {
@@ -684,22 +684,23 @@ FSTProcessor::compoundAnalysis(UString input_word)
 
   State current_state = initial_state;
 
-  for(unsigned int i=0; i<input_word.size(); i++)
+  for(size_t i=0; i<input_word.size();)
   {
-    UChar val=input_word[i];
+    UChar32 val;
+    U16_NEXT(input_word.data(), i, input_word.size(), val);
 
     current_state.step_case(val, beCaseSensitive(current_state));
 
     if(current_state.size() > MAX_COMBINATIONS)
     {
       std::cerr << "Warning: compoundAnalysis's MAX_COMBINATIONS exceeded for '" << input_word << "'" << std::endl;
-      std::cerr << "         gave up at char " << i << " '" << val << "'." << std::endl;
+      std::cerr << "         gave up before char " << i << "." << std::endl;
 
       UString nullString;
       return  nullString;
     }
 
-    if(i < input_word.size()-1)
+    if(i < input_word.size())
     {
       current_state.restartFinals(all_finals, compoundOnlyLSymbol, &initial_state, '+');
     }
@@ -727,8 +728,10 @@ FSTProcessor::compoundAnalysisOrLowering(UString input_cased) {
   // If we failed due to state explosion, we may try again with the lowercased string:
   UString input_lowered = StringUtils::tolower(input_cased);
   State current_state = initial_state;
-  for(unsigned int i=0; i<input_lowered.size(); i++) {
-    current_state.step_case(input_lowered[i], beCaseSensitive(current_state));
+  for(size_t i=0; i<input_lowered.size();) {
+    UChar32 val;
+    U16_NEXT(input_lowered.data(), i, input_lowered.size(), val);
+    current_state.step_case(val, beCaseSensitive(current_state));
     if(current_state.size()==0) {
       break;
     }
@@ -1602,7 +1605,7 @@ FSTProcessor::step_biltrans(UStringView word, std::vector<UString>& result, UStr
   bool firstupper = u_isupper(word[0]);
   bool uppercase = firstupper && u_isupper(word[1]);
   for (auto symbol : symbol_iter(word)) {
-    int32_t val = (symbol.size() == 1 ? symbol[0] : alphabet(symbol));
+    int32_t val = alphabet.symbolCode(symbol);
     if (current_state.size() != 0) {
       current_state.step(val, beCaseSensitive(current_state));
     }
@@ -1895,11 +1898,8 @@ FSTProcessor::biltransWithQueue(UStringView input_word, bool with_delim)
 
   UStringView word = input_word.substr(start_point, end_point-start_point);
   for (auto symbol : symbol_iter(word)) {
-    int32_t val;
-    if (symbol.size() == 1) {
-      val = symbol[0];
-    } else {
-      val = alphabet(symbol);
+    int32_t val = alphabet.symbolCode(symbol);
+    if (symbol.size() > 1 && symbol[0] == '<') {
       seentags = true;
     }
     if(current_state.size() != 0)
@@ -2491,7 +2491,7 @@ FSTProcessor::lookup(UStringView word, std::vector<UString>& result)
   bool firstupper = u_isupper(word[0]);
   bool uppercase = firstupper && u_isupper(word[1]);
   for (auto symbol : symbol_iter(word)) {
-    int32_t val = (symbol.size() == 1 ? symbol[0] : alphabet(symbol));
+    int32_t val = alphabet.symbolCode(symbol);
     if (current_state.size() != 0) {
       current_state.step(val, beCaseSensitive(current_state));
     }
diff --git a/lttoolbox/lt_paradigm.cc b/lttoolbox/lt_paradigm.cc
index e0d5858..b589b4d 100644
--- a/lttoolbox/lt_paradigm.cc
+++ b/lttoolbox/lt_paradigm.cc
@@ -83,7 +83,7 @@ void process(UStringView pattern, std::map<UString, Transducer>& trans,
   Transducer other;
   int state = other.getInitial();
   for (auto sym : symbol_iter(pattern)) {
-    int32_t it = (sym.size() == 1 ? sym[0] : alpha(sym));
+    int32_t it = alpha.symbolCode(sym);
     if (it == any_char) {
       state = other.insertNewSingleTransduction(0, state);
       for (auto& sym : letters) {
diff --git a/lttoolbox/pattern_list.cc b/lttoolbox/pattern_list.cc
index b476de3..4fcc425 100644
--- a/lttoolbox/pattern_list.cc
+++ b/lttoolbox/pattern_list.cc
@@ -112,15 +112,17 @@ PatternList::insertOutOfSequence(UStringView lemma, UStringView tags,
   }
   else
   {
-    for(unsigned int i = 0, limit = lemma.size(); i < limit; i++)
+    std::vector<int32_t> chars;
+    ustring_to_vec32(lemma, chars);
+    for(auto& it : chars)
     {
-      if(lemma[i] == '*')
+      if(it == '*')
       {
         result.push_back(alphabet(ANY_CHAR));
       }
       else
       {
-        result.push_back(static_cast<int32_t>(lemma[i]));
+        result.push_back(it);
       }
     }
   }
diff --git a/lttoolbox/ustring.h b/lttoolbox/ustring.h
index 71fb8d7..73809bf 100644
--- a/lttoolbox/ustring.h
+++ b/lttoolbox/ustring.h
@@ -20,6 +20,7 @@
 
 #include <unicode/ustdio.h>
 #include <unicode/uchar.h>
+#include <unicode/utf16.h>
 #include <string>
 #include <string_view>
 #include <utf8.h>
@@ -87,4 +88,16 @@ inline void operator+=(UString& str, UChar32 c)
   }
 }
 
+// the first code point of a string, 0 if it is empty
+inline UChar32 first_char32(UStringView str)
+{
+  if (str.empty()) {
+    return 0;
+  }
+  size_t i = 0;
+  UChar32 c;
+  U16_NEXT(str.data(), i, str.size(), c);
+  return c;
+}
+
 #endif
-- 
2.43.0


From df0902f5be491ff9844e16f7dcd934f75b06c789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:28 +0000
Subject: [PATCH 16/51] fix: bilingual lookup falls back to lower case

The case-sensitivity flag was passed as an alternative input symbol.
---
 lttoolbox/fst_processor.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index f7706bc..dc207cc 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1607,7 +1607,7 @@ FSTProcessor::step_biltrans(UStringView word, std::vector<UString>& result, UStr
   for (auto symbol : symbol_iter(word)) {
     int32_t val = alphabet.symbolCode(symbol);
     if (current_state.size() != 0) {
-      current_state.step(val, beCaseSensitive(current_state));
+      current_state.step_case(val, beCaseSensitive(current_state));
     }
     if (current_state.isFinal(all_finals)) {
       current_state.filterFinalsArray(result,
@@ -2493,7 +2493,7 @@ FSTProcessor::lookup(UStringView word, std::vector<UString>& result)
   for (auto symbol : symbol_iter(word)) {
     int32_t val = alphabet.symbolCode(symbol);
     if (current_state.size() != 0) {
-      current_state.step(val, beCaseSensitive(current_state));
+      current_state.step_case(val, beCaseSensitive(current_state));
     }
   }
   current_state.filterFinalsArray(result,
-- 
2.43.0


From f6eb6c9f4c85a2a47df4c9ea73979f5366c4a6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:28 +0000
Subject: [PATCH 17/51] fix: restore diacritics of upper-case letters outside
 ASCII

tolower() leaves such letters alone (and is undefined beyond unsigned char), so
the map iterator dereferenced next was end().
---
 lttoolbox/fst_processor.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index dc207cc..fcebef5 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -898,14 +898,14 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
       }
       else if(rcx_map.find(u_tolower(val)) != rcx_map.end())
       {
-        rcx_map_ptr = rcx_map.find(tolower(val));
-        tmpset.insert(tolower(val));
+        rcx_map_ptr = rcx_map.find(u_tolower(val));
+        tmpset.insert(u_tolower(val));
         tmpset.insert(rcx_map_ptr->second.begin(), rcx_map_ptr->second.end());
         current_state.step(val, tmpset);
       }
       else
       {
-        tmpset.insert(tolower(val));
+        tmpset.insert(u_tolower(val));
         current_state.step(val, tmpset);
       }
     }
-- 
2.43.0


From 279c8da0db9591ee282ce2d5d23a513d40e99ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:06 +0000
Subject: [PATCH 18/51] fix: careful-case generation prints words marked as
 unknown

The mode was missing from the switch, so words marked with @ or * vanished.
---
 lttoolbox/fst_processor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index fcebef5..fa80f65 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1303,6 +1303,7 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
           u_fputc(rd.mark, output);
           writeEscaped(rd.content, output);
           break;
+        case gm_carefulcase:
         case gm_unknown:
         case gm_tagged:
           u_fputc(rd.mark, output);
-- 
2.43.0


From 5137e58666414fe57520bec9fc6c1f0f25837b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:19 +0000
Subject: [PATCH 19/51] fix: pass characters outside the basic plane through
 analysis whole

A character that starts a dictionary entry which does not match was written as
its first UTF-16 unit, i.e. came out as U+FFFD.
---
 lttoolbox/fst_processor.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index fa80f65..15ecc39 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -994,7 +994,7 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         if(limit.i_codepoint == 0)
         {
           input_buffer.setPos(1 + last_start);
-          writeEscaped(sf.substr(0,1), output);
+          writeEscaped(sf.substr(0, U16_LENGTH(first_char32(sf))), output);
         }
         else
         {
@@ -1017,7 +1017,7 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         if(limit.i_codepoint == 0)
         {
           input_buffer.setPos(1 + last_start);
-          writeEscaped(sf.substr(0,1), output);
+          writeEscaped(sf.substr(0, U16_LENGTH(first_char32(sf))), output);
         }
         else
         {
-- 
2.43.0


From 840fd9bfef38cd213bbf43c1cc29984a42231bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:00 +0000
Subject: [PATCH 20/51] fix: rewind the input by characters, not by UTF-16
 units

---
 lttoolbox/fst_processor.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 15ecc39..e891ee6 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -25,6 +25,7 @@
 
 #include <iostream>
 #include <cerrno>
+#include <unicode/ustring.h>
 #include <climits>
 
 
@@ -937,7 +938,7 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         } while ((val = readAnalysis(input)) && isAlphabetic(val));
         lf_spcmp = compoundAnalysis(sf);
         if(lf_spcmp.empty()) {  // didn't work, rewind!
-          input_buffer.back(sf.size() - oldsf.size());
+          input_buffer.back(u_countChar32(sf.data() + oldsf.size(), sf.size() - oldsf.size()));
           val = oldval;
           sf.swap(oldsf);
         }
@@ -2336,15 +2337,13 @@ FSTProcessor::SAO(InputFile& input, UFILE *output)
         while((val = readSAO(input)) && isAlphabetic(val));
 
         auto limit = firstNotAlpha(sf);
-        unsigned int size = sf.size(); // TODO: change these to character counts
-        input_buffer.back(1+(size-limit.i_utf16));
+        input_buffer.back(1+u_countChar32(sf.data() + limit.i_utf16, sf.size() - limit.i_utf16));
         u_fprintf(output, "<d>%S</d>", sf.c_str());
       }
       else if(lf.empty())
       {
         auto limit = firstNotAlpha(sf);
-        unsigned int size = sf.size(); // TODO: change these to character counts
-        input_buffer.back(1+(size-limit.i_utf16));
+        input_buffer.back(1+u_countChar32(sf.data() + limit.i_utf16, sf.size() - limit.i_utf16));
         u_fprintf(output, "<d>%S</d>", sf.c_str());
       }
       else
-- 
2.43.0


From 2d52c2de6e34f5042df70667e234b667a66c3980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:59 +0000
Subject: [PATCH 21/51] fix: analyse the words read ahead of the end of the
 input

---
 lttoolbox/fst_processor.cc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index e891ee6..f3a2672 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1042,11 +1042,6 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         input_buffer.setPos(last);
         input_buffer.back(1);
       }
-      if(val == 0) {
-        if(!input_buffer.isEmpty()) {
-          input_buffer.setPos(last+1);
-        }
-      }
 
       current_state = initial_state;
       lf.clear();
@@ -1057,7 +1052,8 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
       last_preblank = false;
     }
   }
-  while(val);
+  // what was read past the last word is still to be analysed
+  while(val || !input_buffer.isEmpty());
 
   // print remaining blanks
   flushBlanks(output);
-- 
2.43.0


From 886b077b10d004cec50f2e569fe9730d410c32b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:54 +0000
Subject: [PATCH 22/51] fix: a null or the end of the input inside a block or
 after a backslash is not swallowed

---
 lttoolbox/fst_processor.cc | 12 ++++++++----
 lttoolbox/input_file.cc    | 12 ++++++++----
 lttoolbox/stream_reader.cc |  2 +-
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index f3a2672..fba5f19 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -370,11 +370,11 @@ FSTProcessor::readTransliterationWord(InputFile& input)
         if (c == '[') {
           input.unget(c);
           break;
-        } else if (c == '\\') {
+        } else if (c == '\\' && input.peek() != '\0' && input.peek() != U_EOF) {
           word.push_back(static_cast<int32_t>(input.get()));
         } else if (c == '<') {
           word.push_back(alphabet(input.readBlock('<', '>')));
-        } else if (c == '\0') {
+        } else if (c == '\0' || c == U_EOF) {
           input.unget(c);
           break;
         } else {
@@ -389,10 +389,10 @@ FSTProcessor::readTransliterationWord(InputFile& input)
   } else {
     while (!input.eof()) {
       UChar32 c = input.get();
-      if (u_isspace(c) || c == '[' || c == '\0') {
+      if (u_isspace(c) || c == '[' || c == '\0' || c == U_EOF) {
         input.unget(c);
         break;
-      } else if (c == '\\') {
+      } else if (c == '\\' && input.peek() != '\0' && input.peek() != U_EOF) {
         word.push_back(static_cast<int32_t>(input.get()));
       } else if (c == '<') {
         word.push_back(alphabet(input.readBlock('<', '>')));
@@ -2178,6 +2178,10 @@ FSTProcessor::readSAO(InputFile& input)
       {
         while(!StringUtils::endswith(str, u"]]>"))
         {
+          if(input.eof() || input.peek() == '\0')
+          {
+            streamError();
+          }
           str.append(input.readBlock('<', '>').substr(1));
         }
         blankqueue.push(str);
diff --git a/lttoolbox/input_file.cc b/lttoolbox/input_file.cc
index f296927..1351bd1 100644
--- a/lttoolbox/input_file.cc
+++ b/lttoolbox/input_file.cc
@@ -174,11 +174,12 @@ InputFile::readBlock(const UChar32 start, const UChar32 end)
   UChar32 c = 0;
   while (c != end && !eof()) {
     c = get();
-    if (c == '\0') {
+    if (c == '\0' || c == U_EOF) {
+      unget(c);
       break;
     }
     ret += c;
-    if (c == '\\') {
+    if (c == '\\' && peek() != '\0' && peek() != U_EOF) {
       ret += get();
     }
   }
@@ -194,12 +195,15 @@ InputFile::finishWBlank()
   UChar32 c = 0;
   while (!eof()) {
     c = get();
-    if (c == '\0') {
+    if (c == '\0' || c == U_EOF) {
+      unget(c);
       break;
     }
     ret += c;
     if (c == '\\') {
-      ret += get();
+      if (peek() != '\0' && peek() != U_EOF) {
+        ret += get();
+      }
     } else if (c == ']' && peek() == ']') {
       ret += get();
       break;
diff --git a/lttoolbox/stream_reader.cc b/lttoolbox/stream_reader.cc
index 86e1a20..81444fd 100644
--- a/lttoolbox/stream_reader.cc
+++ b/lttoolbox/stream_reader.cc
@@ -80,7 +80,7 @@ void StreamReader::next() {
       }
       else {
         cur.content += c;
-        if (c == '\\') {
+        if (c == '\\' && in->peek() != '\0' && in->peek() != U_EOF) {
           UChar32 c2 = in->get();
           if (alpha) cur.symbols.push_back(static_cast<int32_t>(c2));
           cur.content += c2;
-- 
2.43.0


From d34d8c0199965c0522e212c0a127a4ed96118007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:18 +0000
Subject: [PATCH 23/51] fix: lt-tmxcomp -o and -m set the language codes to
 look for

---
 lttoolbox/tmx_compiler.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lttoolbox/tmx_compiler.cc b/lttoolbox/tmx_compiler.cc
index 8ea56cc..3a04b25 100644
--- a/lttoolbox/tmx_compiler.cc
+++ b/lttoolbox/tmx_compiler.cc
@@ -43,8 +43,14 @@ TMXCompiler::~TMXCompiler()
 void
 TMXCompiler::parse(std::string const &file, UStringView lo, UStringView lm)
 {
-  origin_language = lo;
-  meta_language = lm;
+  if(origin_language.empty())
+  {
+    origin_language = lo;
+  }
+  if(meta_language.empty())
+  {
+    meta_language = lm;
+  }
   reader = xmlReaderForFile(file.c_str(), NULL, 0);
   if(reader == NULL)
   {
@@ -601,11 +607,11 @@ TMXCompiler::vectorcmp(std::vector<int> const &orig, unsigned int begin_orig,
 void
 TMXCompiler::setOriginLanguageCode(UStringView code)
 {
-  // nada
+  origin_language = code;
 }
 
 void
 TMXCompiler::setMetaLanguageCode(UStringView code)
 {
-  // nada
+  meta_language = code;
 }
-- 
2.43.0


From 089c4b4598e3082609f9f04637046713597713d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:57 +0000
Subject: [PATCH 24/51] fix: a dictionary or TMX file that is not well-formed
 ends the run with a failure

---
 lttoolbox/compiler.cc     | 1 +
 lttoolbox/expander.cc     | 1 +
 lttoolbox/tmx_compiler.cc | 1 +
 3 files changed, 3 insertions(+)

diff --git a/lttoolbox/compiler.cc b/lttoolbox/compiler.cc
index df49609..35abf4e 100644
--- a/lttoolbox/compiler.cc
+++ b/lttoolbox/compiler.cc
@@ -62,6 +62,7 @@ Compiler::parse(std::string const &file, UStringView dir)
   if(ret != 0)
   {
     std::cerr << "Error: Parse error at the end of input." << std::endl;
+    exit(EXIT_FAILURE);
   }
 
   xmlFreeTextReader(reader);
diff --git a/lttoolbox/expander.cc b/lttoolbox/expander.cc
index 3ead68c..b9bd76f 100644
--- a/lttoolbox/expander.cc
+++ b/lttoolbox/expander.cc
@@ -47,6 +47,7 @@ Expander::expand(std::string const &file, UFILE* output)
   if(ret != 0)
   {
     std::cerr << "Error: Parse error at the end of input." << std::endl;
+    exit(EXIT_FAILURE);
   }
 
   xmlFreeTextReader(reader);
diff --git a/lttoolbox/tmx_compiler.cc b/lttoolbox/tmx_compiler.cc
index 3a04b25..1516bbb 100644
--- a/lttoolbox/tmx_compiler.cc
+++ b/lttoolbox/tmx_compiler.cc
@@ -68,6 +68,7 @@ TMXCompiler::parse(std::string const &file, UStringView lo, UStringView lm)
   if(ret != 0)
   {
     std::cerr << "Error: Parse error at the end of input." << std::endl;
+    exit(EXIT_FAILURE);
   }
 
   xmlFreeTextReader(reader);
-- 
2.43.0


From 864e1d5747c75415f687665331d3c0466d9aca4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:57 +0000
Subject: [PATCH 25/51] fix: lt-comp: an AT&T file that cannot be opened ends
 the run

---
 lttoolbox/att_compiler.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lttoolbox/att_compiler.cc b/lttoolbox/att_compiler.cc
index 71e39c3..2d82d8d 100644
--- a/lttoolbox/att_compiler.cc
+++ b/lttoolbox/att_compiler.cc
@@ -196,6 +196,7 @@ AttCompiler::parse(std::string const &file_name, bool read_rl)
   UFILE* infile = u_fopen(file_name.c_str(), "r", NULL, NULL);
   if (infile == NULL) {
     std::cerr << "Error: unable to open '" << file_name << "' for reading." << std::endl;
+    exit(EXIT_FAILURE);
   }
   std::vector<UString> tokens;
   bool first_line_in_fst = true;       // First line -- see below
-- 
2.43.0


From a86c326ae6d931a96f25ee2db2ac96de487ea211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:57 +0000
Subject: [PATCH 26/51] fix: a malformed ICX or RCX file is reported instead of
 half used

---
 lttoolbox/fst_processor.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index fba5f19..939d270 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -82,6 +82,11 @@ FSTProcessor::parseICX(std::string const &file)
       procNodeICX();
       ret = xmlTextReaderRead(reader);
     }
+    if(ret != 0)
+    {
+      std::cerr << "Error: Parse error in '" << file << "'." << std::endl;
+      exit(EXIT_FAILURE);
+    }
     // No point trying to process ignored chars if there are none
     if(ignored_chars.size() == 0)
     {
@@ -107,6 +112,11 @@ FSTProcessor::parseRCX(std::string const &file)
       procNodeRCX();
       ret = xmlTextReaderRead(reader);
     }
+    if(ret != 0)
+    {
+      std::cerr << "Error: Parse error in '" << file << "'." << std::endl;
+      exit(EXIT_FAILURE);
+    }
   }
 }
 
-- 
2.43.0


From dc8eedd419f75a61ac725aee545d0fbd3b86d1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:33 +0000
Subject: [PATCH 27/51] fix: lt-comp: entries after a paradigm that is empty in
 this direction were lost

---
 lttoolbox/compiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/compiler.cc b/lttoolbox/compiler.cc
index 35abf4e..4c4dd65 100644
--- a/lttoolbox/compiler.cc
+++ b/lttoolbox/compiler.cc
@@ -194,8 +194,8 @@ Compiler::procParDef()
     {
       paradigms[current_paradigm].minimize();
       paradigms[current_paradigm].joinFinals();
-      current_paradigm.clear();
     }
+    current_paradigm.clear();
   }
 }
 
-- 
2.43.0


From 6e6db938fc933207cab6d82a8b153aa6e670066f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:45 +0000
Subject: [PATCH 28/51] fix: lt-restrict dropped entries with a variant of the
 other side

---
 lttoolbox/lt_restrict.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/lt_restrict.cc b/lttoolbox/lt_restrict.cc
index 0aef3b4..13ee8b8 100644
--- a/lttoolbox/lt_restrict.cc
+++ b/lttoolbox/lt_restrict.cc
@@ -83,13 +83,16 @@ int main(int argc, char* argv[])
     if (StringUtils::startswith(t, u"<r:") ||
         (has_var && StringUtils::startswith(t, u"<v:")) ||
         StringUtils::startswith(t, u"<alt:") ||
-        StringUtils::startswith(t, u"<vl:") ||
-        StringUtils::startswith(t, u"<vr:")) {
+        (dir == "RL" && StringUtils::startswith(t, u"<vl:")) ||
+        (dir == "LR" && StringUtils::startswith(t, u"<vr:"))) {
       int32_t s = alpha(-i, -i);
       if (!keep.count(s)) {
         drop.insert(s);
       }
-    } else if (!has_var && StringUtils::startswith(t, u"<v:")) {
+    } else if (StringUtils::startswith(t, u"<v:") ||
+               StringUtils::startswith(t, u"<vl:") ||
+               StringUtils::startswith(t, u"<vr:")) {
+      // not restricted by this variant or not in this direction
       keep.insert(alpha(-i, -i));
     }
   }
-- 
2.43.0


From 622d78712663a317af3d4ca29653797c24602bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:28 +0000
Subject: [PATCH 29/51] fix: lt-comp: a skipped empty entry swallowed the start
 of the next one

---
 lttoolbox/compiler.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lttoolbox/compiler.cc b/lttoolbox/compiler.cc
index 4c4dd65..e11bbc3 100644
--- a/lttoolbox/compiler.cc
+++ b/lttoolbox/compiler.cc
@@ -809,6 +809,11 @@ Compiler::procEntry()
     // parse to the end of the entry
     UString name;
 
+    if(xmlTextReaderIsEmptyElement(reader))
+    {
+      return;
+    }
+
     while(name != COMPILER_ENTRY_ELEM)
     {
       step(name);
-- 
2.43.0


From 3724c30f74faf3106fe8ab3984a4363203855cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:57 +0000
Subject: [PATCH 30/51] fix: lt-comp: an entry with two empty sides lost its
 weight

---
 lttoolbox/compiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/compiler.cc b/lttoolbox/compiler.cc
index e11bbc3..0dcdc34 100644
--- a/lttoolbox/compiler.cc
+++ b/lttoolbox/compiler.cc
@@ -225,7 +225,7 @@ Compiler::matchTransduction(std::vector<int> const &pi,
 
   if(pi.size() == 0 && pd.size() == 0)
   {
-    state = t.insertNewSingleTransduction(alphabet(0, 0), state, default_weight);
+    state = t.insertNewSingleTransduction(alphabet(0, 0), state, entry_weight);
   }
   else
   {
-- 
2.43.0


From ffa3e7d542e47f56de26e5be97d1b8f9fc9e4f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:48 +0000
Subject: [PATCH 31/51] fix: lt-expand: an empty entry swallowed the start of
 the next one

---
 lttoolbox/expander.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lttoolbox/expander.cc b/lttoolbox/expander.cc
index b9bd76f..3b1ed1f 100644
--- a/lttoolbox/expander.cc
+++ b/lttoolbox/expander.cc
@@ -335,6 +335,11 @@ Expander::procEntry(UFILE* output)
   UString varr      = this->attrib(Compiler::COMPILER_VR_ATTR);
   UString wsweight  = this->attrib(Compiler::COMPILER_WEIGHT_ATTR);
 
+  if(xmlTextReaderIsEmptyElement(reader))
+  {
+    return;
+  }
+
   UString myname;
   if(this->attrib(Compiler::COMPILER_IGNORE_ATTR) == Compiler::COMPILER_IGNORE_YES_VAL
    || (!altval.empty() && altval != alt)
-- 
2.43.0


From 103f5dcec67795a0429bb1ca3facf5d12eaabda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:48 +0000
Subject: [PATCH 32/51] fix: lt-expand lost forms of entries with several
 paradigms, of variants and of one direction

---
 lttoolbox/expander.cc | 56 +++++++++++++------------------------------
 1 file changed, 17 insertions(+), 39 deletions(-)

diff --git a/lttoolbox/expander.cc b/lttoolbox/expander.cc
index 3b1ed1f..3d6e75a 100644
--- a/lttoolbox/expander.cc
+++ b/lttoolbox/expander.cc
@@ -435,45 +435,23 @@ Expander::procEntry(UFILE* output)
         exit(EXIT_FAILURE);
       }
 
-      if(attribute == Compiler::COMPILER_RESTRICTION_LR_VAL)
-      {
-        if(paradigm[p].size() == 0 && paradigm_lr[p].size() == 0)
-        {
-          skip(name, Compiler::COMPILER_ENTRY_ELEM);
-          return;
-        }
-        EntList first = items_lr;
-        append(first, paradigm[p]);
-        append(items_lr, paradigm_lr[p]);
-        items_lr.insert(items_lr.end(), first.begin(), first.end());
-      }
-      else if(attribute == Compiler::COMPILER_RESTRICTION_RL_VAL)
-      {
-        if(paradigm[p].size() == 0 && paradigm_rl[p].size() == 0)
-        {
-          skip(name, Compiler::COMPILER_ENTRY_ELEM);
-          return;
-        }
-        EntList first = items_rl;
-        append(first, paradigm[p]);
-        append(items_rl, paradigm_rl[p]);
-        items_rl.insert(items_rl.end(), first.begin(), first.end());
-      }
-      else
-      {
-        if(paradigm_lr[p].size() > 0)
-        {
-          items_lr.insert(items_lr.end(), items.begin(), items.end());
-        }
-        if(paradigm_rl[p].size() > 0)
-        {
-          items_rl.insert(items_rl.end(), items.begin(), items.end());
-        }
-
-        append(items_lr, paradigm_lr[p]);
-        append(items_rl, paradigm_rl[p]);
-        append(items, paradigm[p]);
-      }
+      // a form made of parts for both directions and parts for one direction
+      // is a form for that one direction
+      EntList lr_both = items_lr, both_lr = items;
+      append(lr_both, paradigm[p]);
+      append(both_lr, paradigm_lr[p]);
+      append(items_lr, paradigm_lr[p]);
+      items_lr.insert(items_lr.end(), lr_both.begin(), lr_both.end());
+      items_lr.insert(items_lr.end(), both_lr.begin(), both_lr.end());
+
+      EntList rl_both = items_rl, both_rl = items;
+      append(rl_both, paradigm[p]);
+      append(both_rl, paradigm_rl[p]);
+      append(items_rl, paradigm_rl[p]);
+      items_rl.insert(items_rl.end(), rl_both.begin(), rl_both.end());
+      items_rl.insert(items_rl.end(), both_rl.begin(), both_rl.end());
+
+      append(items, paradigm[p]);
     }
     else if(name == Compiler::COMPILER_ENTRY_ELEM && type == XML_READER_TYPE_END_ELEMENT)
     {
-- 
2.43.0


From d9c5da4db96c138698785413c432d7bc588a4451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:48 +0000
Subject: [PATCH 33/51] fix: lt-expand did not escape the first character of a
 text

---
 lttoolbox/expander.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/expander.cc b/lttoolbox/expander.cc
index 3d6e75a..7ea3a69 100644
--- a/lttoolbox/expander.cc
+++ b/lttoolbox/expander.cc
@@ -93,7 +93,7 @@ Expander::readString(UString &result, UStringView name)
   {
     UString value = XMLParseUtil::readValue(reader);
     UString escaped = "^$/<>{}\\*@#+~:"_u;
-    for(size_t i = value.size()-1; i > 0; i--)
+    for(size_t i = value.size(); i-- > 0; )
     {
       if(escaped.find(value[i]) != UString::npos) {
         value.insert(value.begin()+i, '\\');
-- 
2.43.0


From f10bd828f1eb2105fa60e63e70ca72d820e8a8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:59 +0000
Subject: [PATCH 34/51] fix: entries after an empty <pardef/> were lost

---
 lttoolbox/compiler.cc | 2 +-
 lttoolbox/expander.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/compiler.cc b/lttoolbox/compiler.cc
index 0dcdc34..756677f 100644
--- a/lttoolbox/compiler.cc
+++ b/lttoolbox/compiler.cc
@@ -188,7 +188,7 @@ Compiler::procParDef()
   {
     current_paradigm = attrib(COMPILER_N_ATTR);
   }
-  else
+  if(type == XML_READER_TYPE_END_ELEMENT || xmlTextReaderIsEmptyElement(reader))
   {
     if(!paradigms[current_paradigm].isEmpty())
     {
diff --git a/lttoolbox/expander.cc b/lttoolbox/expander.cc
index 7ea3a69..c167f03 100644
--- a/lttoolbox/expander.cc
+++ b/lttoolbox/expander.cc
@@ -63,7 +63,7 @@ Expander::procParDef()
   {
     current_paradigm = attrib(Compiler::COMPILER_N_ATTR);
   }
-  else
+  if(type == XML_READER_TYPE_END_ELEMENT || xmlTextReaderIsEmptyElement(reader))
   {
     current_paradigm.clear();
   }
-- 
2.43.0


From 0e1c306c08415ad3737a6d7df8d59bf88faad6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:59 +0000
Subject: [PATCH 35/51] fix: lt-comp: an empty <alphabet/> swallowed the node
 that follows it

---
 lttoolbox/compiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/compiler.cc b/lttoolbox/compiler.cc
index 756677f..4b70e44 100644
--- a/lttoolbox/compiler.cc
+++ b/lttoolbox/compiler.cc
@@ -146,7 +146,7 @@ Compiler::procAlphabet()
 {
   int type=xmlTextReaderNodeType(reader);
 
-  if(type != XML_READER_TYPE_END_ELEMENT)
+  if(type != XML_READER_TYPE_END_ELEMENT && !xmlTextReaderIsEmptyElement(reader))
   {
     int ret = xmlTextReaderRead(reader);
     if(ret == 1)
-- 
2.43.0


From aa25c92e64a10b90ed029b71c7578a3525748a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:07 +0000
Subject: [PATCH 36/51] fix: lt-expand took a paradigm without entries for an
 undefined one

---
 lttoolbox/expander.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lttoolbox/expander.cc b/lttoolbox/expander.cc
index c167f03..093c8ee 100644
--- a/lttoolbox/expander.cc
+++ b/lttoolbox/expander.cc
@@ -65,6 +65,7 @@ Expander::procParDef()
   }
   if(type == XML_READER_TYPE_END_ELEMENT || xmlTextReaderIsEmptyElement(reader))
   {
+    paradigm[current_paradigm]; // defined, even if it has no entries
     current_paradigm.clear();
   }
 }
-- 
2.43.0


From b416a6b9d807fa3e8ad37c567aa2a040a4115086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:58 +0000
Subject: [PATCH 37/51] fix: lt-proc: the length of a compound match was left
 for the next word

last_size was not reset after a word, so a later shorter candidate was
compared with the length of a word already output.
---
 lttoolbox/fst_processor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 939d270..84a6ce7 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1057,6 +1057,7 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
       lf.clear();
       sf.clear();
       last_start = input_buffer.getPos();
+      last_size = 0;
       last_incond = false;
       last_postblank = false;
       last_preblank = false;
-- 
2.43.0


From 06df85e330189a85d272e608edd4777325bcc30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:58 +0000
Subject: [PATCH 38/51] fix: lt-tmxproc: numbers of one segment were used in
 the next

The numbers read in a segment that ended in the middle of a possible match
stayed in the list the next segment's match took its numbers from.
---
 lttoolbox/fst_processor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 84a6ce7..19a0cd6 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1129,6 +1129,7 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
   UString lf;     //lexical form
   UString sf;     //surface form
   int last = 0;
+  numbers.clear(); // left from the segment before
 
   while(int32_t val = readTMAnalysis(input))
   {
-- 
2.43.0


From 8cb90cf8e48df80b60eda5c1a7dff285146ed28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:58 +0000
Subject: [PATCH 39/51] fix: lt-tmxproc: blanks of one segment were printed in
 the next

At the end of a segment the rest of the text is written with its blanks,
but the blanks stayed in the queue and were written again in the next.
---
 lttoolbox/fst_processor.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 19a0cd6..b349bfa 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1210,6 +1210,11 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
         if(val == 0)
         {
           write(sf, output);
+          // its blanks have been written as part of it
+          while(blankqueue.size() > 0)
+          {
+            blankqueue.pop();
+          }
           return;
         }
 
-- 
2.43.0


From 29ba370127551fc1c223c2d96dd4495b6ca40b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:48 +0000
Subject: [PATCH 40/51] fix: lt-compose --jobs: threads changed the alphabet
 they share

---
 lttoolbox/lt_compose.cc | 36 +++++++++++++-----------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/lttoolbox/lt_compose.cc b/lttoolbox/lt_compose.cc
index a945fb2..b17737c 100644
--- a/lttoolbox/lt_compose.cc
+++ b/lttoolbox/lt_compose.cc
@@ -52,40 +52,30 @@ compose(FILE* file_f, FILE* file_g, FILE* file_gf, bool f_inverted, bool g_anywh
       std::cerr << "Warning: section " << it.first << " is empty! Skipping it..." << std::endl;
       continue;
     }
+    // Composing adds symbol pairs to alph_f, which all sections share, so
+    // only the minimisation of the result can be left to another thread.
+    Transducer gf = it.second.compose(union_g, alph_f, alph_g, f_inverted, g_anywhere);
+    if (gf.hasNoFinals()) {
+      std::cerr << "Warning: section " << it.first
+                << " had no final state after composing! Skipping it..."
+                << std::endl;
+      continue;
+    }
     if(jobs) {
       compositions.push_back(std::async(
-          [](Transducer &f, Transducer &g, Alphabet &alph_f, Alphabet &alph_g,
-             bool f_inverted, bool g_anywhere, UString name) {
-            Transducer gf = f.compose(g, alph_f, alph_g, f_inverted, g_anywhere);
-            if (gf.hasNoFinals()) {
-              std::cerr << "Warning: section " << name
-                        << " had no final state after composing! Skipping it..."
-                        << std::endl;
-              ;
-            } else {
-              gf.minimize();
-            }
+          [](Transducer gf, UString name) {
+            gf.minimize();
             return std::make_pair(name, gf);
           },
-          std::ref(it.second), std::ref(union_g), std::ref(alph_f),
-          std::ref(alph_g), f_inverted, g_anywhere, it.first));
+          gf, it.first));
     } else {
-      Transducer gf = it.second.compose(union_g, alph_f, alph_g, f_inverted, g_anywhere);
-      if (gf.hasNoFinals()) {
-        std::cerr << "Warning: section " << it.first
-                  << " had no final state after composing! Skipping it..."
-                  << std::endl;
-        continue;
-      }
       gf.minimize();
       trans_gf[it.first] = gf;
     }
   }
   for (auto &thr : compositions) {
     auto it = thr.get();
-    if (!it.second.hasNoFinals()) {
-      trans_gf[it.first] = it.second;
-    }
+    trans_gf[it.first] = it.second;
   }
 
   if (trans_gf.empty()) {
-- 
2.43.0


From 3c44c4e92a966733eb1bb93efec7c7847a18eb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:52 +0000
Subject: [PATCH 41/51] fix: the weight of a single final state was lost in
 reverse and insertTransducer

---
 lttoolbox/transducer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 20d5377..2c064fd 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -281,7 +281,8 @@ Transducer::closure_all(const int epsilon_tag) const
 void
 Transducer::joinFinals(int const epsilon_tag)
 {
-  if(finals.size() > 1)
+  if(finals.size() > 1 ||
+     (finals.size() == 1 && finals.begin()->second != default_weight))
   {
     int state = newState();
 
-- 
2.43.0


From b3f378e330b28c162bb40d3b021bac47d48c05da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:52 +0000
Subject: [PATCH 42/51] fix: determinize gave final states the weight of
 unrelated states

---
 lttoolbox/transducer.cc | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 2c064fd..3574208 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -324,11 +324,6 @@ Transducer::determinize(int const epsilon_tag)
   int initial_prime = 0;
   std::map<int, double> finals_prime;
 
-  if(isFinal(initial))
-  {
-    finals_prime.insert({0, default_weight});
-  }
-
   int t = 0;
 
   sorted_vector<int> finals_state;
@@ -344,12 +339,14 @@ Transducer::determinize(int const epsilon_tag)
     for(auto& it : R[t])
     {
       if (Q_prime[it].intersects(finals_state)) {
-        double w = default_weight;
-        auto it3 = finals.find(it);
-        if (it3 != finals.end()) {
-          w = it3->second;
+        for (auto& it2 : Q_prime[it]) {
+          auto it3 = finals.find(it2);
+          if (it3 == finals.end()) continue;
+          auto res = finals_prime.insert({it, it3->second});
+          if (!res.second) {
+            res.first->second = std::min(res.first->second, it3->second);
+          }
         }
-        finals_prime.insert({it, w});
       }
 
       std::map<std::pair<int, double>, sorted_vector<int> > mymap;
-- 
2.43.0


From e0156d07bc686f34991f1d45c3b1de40f3be04ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:52 +0000
Subject: [PATCH 43/51] fix: lt-proc: weights of transitions without input and
 output were not counted

---
 lttoolbox/state.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index 64ac197..903bd20 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -296,7 +296,7 @@ State::epsilonClosure()
       {
         auto tmp = new_sequence();
         *tmp = *(state[i].sequence);
-        if(it2->second.out_tag[j] != 0)
+        if(it2->second.out_tag[j] != 0 || it2->second.out_weight[j] != 0)
         {
           tmp->push_back({it2->second.out_tag[j], it2->second.out_weight[j]});
         }
-- 
2.43.0


From 43a1e15768abb945e06062c8b43543549a6a03da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:52 +0000
Subject: [PATCH 44/51] fix: lt-proc: the final weight of the left parts of a
 compound was not counted

---
 lttoolbox/state.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index 903bd20..c3eeecb 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -908,7 +908,8 @@ State::restartFinals(const std::map<Node *, double> &finals, int requiredSymbol,
     TNodeState state_i = state.at(i);
     // A state can be a possible final state and still have transitions
 
-    if(finals.count(state_i.where) > 0)
+    auto fin = finals.find(state_i.where);
+    if(fin != finals.end())
     {
       bool restart = lastPartHasRequiredSymbol(*(state_i.sequence), requiredSymbol, separationSymbol);
       if(restart)
@@ -926,7 +927,7 @@ State::restartFinals(const std::map<Node *, double> &finals, int requiredSymbol,
               tnvec->push_back(state_i.sequence->at(k));
             }
             TNodeState tn(initst.where, tnvec, state_i.dirty);
-            tn.sequence->push_back({separationSymbol, 0.0});
+            tn.sequence->push_back({separationSymbol, fin->second});
             state.push_back(tn);
           }
         }
-- 
2.43.0


From dd7488f878c4dd98189c214609f484b730edddf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:52 +0000
Subject: [PATCH 45/51] fix: moveLemqsLast dropped the weights of transitions

---
 lttoolbox/transducer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 3574208..ccaa051 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -1003,6 +1003,7 @@ Transducer::moveLemqsLast(Alphabet const &alphabet,
     {
       int label = trans_it.first,
        this_trg = trans_it.second.first;
+      double this_wt = trans_it.second.second;
       UString left;
       alphabet.getSymbol(left, alphabet.decode(label).first);
       int new_src = states_this_new[this_src];
@@ -1019,7 +1020,7 @@ Transducer::moveLemqsLast(Alphabet const &alphabet,
           states_this_new.insert({this_trg, new_t.newState()});
         }
         int new_trg = states_this_new[this_trg];
-        new_t.linkStates(new_src, new_trg, label, default_weight);
+        new_t.linkStates(new_src, new_trg, label, this_wt);
         if(seen.find(this_trg) == seen.end())
         {
           todo.push_back(this_trg);
-- 
2.43.0


From d10a191b22b3a2fe25e2175493c435e185cd0465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:06 +0000
Subject: [PATCH 46/51] fix: carry the weight of a single final state in
 reverse and insertTransducer, not in joinFinals

---
 lttoolbox/transducer.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index ccaa051..581940a 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -144,7 +144,12 @@ Transducer::insertTransducer(int const source, Transducer &t,
 
   transitions[source].insert({epsilon_tag, std::make_pair(relation[t.initial], default_weight)});
 
-  return relation[t.finals.begin()->first];
+  int last = relation[t.finals.begin()->first];
+  if(t.finals.begin()->second != default_weight)
+  {
+    last = insertNewSingleTransduction(epsilon_tag, last, t.finals.begin()->second);
+  }
+  return last;
 }
 
 void
@@ -281,8 +286,7 @@ Transducer::closure_all(const int epsilon_tag) const
 void
 Transducer::joinFinals(int const epsilon_tag)
 {
-  if(finals.size() > 1 ||
-     (finals.size() == 1 && finals.begin()->second != default_weight))
+  if(finals.size() > 1)
   {
     int state = newState();
 
@@ -682,6 +686,14 @@ void
 Transducer::reverse(int const epsilon_tag)
 {
   joinFinals(epsilon_tag);
+  if(finals.begin()->second != default_weight)
+  {
+    // initial states have no weight, so put it on a transition
+    int state = newState();
+    linkStates(finals.begin()->first, state, epsilon_tag, finals.begin()->second);
+    finals.clear();
+    finals.insert({state, default_weight});
+  }
 
   std::map<int, std::multimap<int, std::pair<int, double> > > tmp_transitions;
 
-- 
2.43.0


From ce904772ebe24885cf37f3a6fd1f8699afa5b8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:06 +0000
Subject: [PATCH 47/51] fix: lt-trim: final weights of separable dictionaries
 were dropped

---
 lttoolbox/transducer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 581940a..50f3891 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -1175,7 +1175,7 @@ Transducer::trim(Transducer &trimmer,
                            this_label, // symbol-pair, using this alphabet
                            this_wt); //weight of transduction
         if (sym_lsx.count(this_right) && isFinal(this_trg)) {
-          trimmed.setFinal(trimmed_trg, default_weight);
+          trimmed.setFinal(trimmed_trg, finals[this_trg]);
         }
       }
       else if (sym_cmp_or_eps.count(this_right)) {
-- 
2.43.0


From 256e778fe991395db9496a2d6168e74eba5c959d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:55 +0000
Subject: [PATCH 48/51] fix: moveLemqsLast dropped the weight of the group
 symbol and of the final states after it

---
 lttoolbox/transducer.cc | 9 +++++----
 lttoolbox/transducer.h  | 4 +++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 50f3891..a651036 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -885,7 +885,8 @@ Transducer
 Transducer::copyWithTagsFirst(int start,
                               int group_label,
                               Alphabet const &alphabet,
-                              int const epsilon_tag)
+                              int const epsilon_tag,
+                              double const group_weight)
 {
   Transducer new_t;
   Transducer lemq;
@@ -985,10 +986,10 @@ Transducer::copyWithTagsFirst(int start,
     newlemq.minimize();
 
     int group_start = new_t.newState();
-    new_t.linkStates(states_this_new[last_tag], group_start, group_label, default_weight);
+    new_t.linkStates(states_this_new[last_tag], group_start, group_label, group_weight);
 
     // append newlemq into the group after last_tag:
-    new_t.finals.insert({new_t.insertTransducer(group_start, newlemq), default_weight});
+    new_t.finals.insert({new_t.insertTransducer(group_start, newlemq), finals[last_tag]});
   }
 
   return new_t;
@@ -1022,7 +1023,7 @@ Transducer::moveLemqsLast(Alphabet const &alphabet,
 
       if(left == GROUP_SYMBOL)
       {
-        Transducer tagsFirst = copyWithTagsFirst(this_trg, label, alphabet, epsilon_tag);
+        Transducer tagsFirst = copyWithTagsFirst(this_trg, label, alphabet, epsilon_tag, this_wt);
         new_t.finals.insert({new_t.insertTransducer(new_src, tagsFirst, epsilon_tag), default_weight});
       }
       else
diff --git a/lttoolbox/transducer.h b/lttoolbox/transducer.h
index 98391fe..2e0764b 100644
--- a/lttoolbox/transducer.h
+++ b/lttoolbox/transducer.h
@@ -389,12 +389,14 @@ public:
    * @param group_label the label of the "#" symbol we saw
    * @param alphabet the alphabet of this transducer
    * @param epsilon_tag the tag to take as epsilon
+   * @param group_weight the weight of the "#" symbol we saw
    * @return a transducer of all paths going from start, but with tags first.
    */
   Transducer copyWithTagsFirst(int start,
                                int group_label,
                                Alphabet const &alphabet,
-                               int epsilon_tag = 0);
+                               int epsilon_tag = 0,
+                               double group_weight = 0.0);
 
   /**
    * Intersect with a bidix transducer, retaining only those analyses
-- 
2.43.0


From 4d97c4bad17e6ca55e8d7884451a50da71a09642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:18 +0000
Subject: [PATCH 49/51] fix: a dictionary or TMX file that breaks off ends
 lt-expand and lt-tmxcomp with an error

Expander and TMXCompiler ignored the result of xmlTextReaderRead() inside
loops that wait for a closing tag, and never ended on truncated input.
---
 lttoolbox/expander.cc       | 18 +++++++++---------
 lttoolbox/tmx_compiler.cc   | 10 +++++-----
 lttoolbox/xml_parse_util.cc |  8 ++++++++
 lttoolbox/xml_parse_util.h  |  3 +++
 4 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/lttoolbox/expander.cc b/lttoolbox/expander.cc
index 093c8ee..dfd783d 100644
--- a/lttoolbox/expander.cc
+++ b/lttoolbox/expander.cc
@@ -169,7 +169,7 @@ Expander::skipBlanks(UString &name)
       std::cerr << "): Invalid construction." << std::endl;
       exit(EXIT_FAILURE);
     }
-    xmlTextReaderRead(reader);
+    XMLParseUtil::read_or_die(reader);
     name = XMLParseUtil::readName(reader);
   }
 }
@@ -177,7 +177,7 @@ Expander::skipBlanks(UString &name)
 void
 Expander::skip(UString &name, UStringView elem)
 {
-  xmlTextReaderRead(reader);
+  XMLParseUtil::read_or_die(reader);
   name = XMLParseUtil::readName(reader);
 
   if(name == Compiler::COMPILER_TEXT_NODE)
@@ -188,7 +188,7 @@ Expander::skip(UString &name, UStringView elem)
       std::cerr << "): Invalid construction." << std::endl;
       exit(EXIT_FAILURE);
     }
-    xmlTextReaderRead(reader);
+    XMLParseUtil::read_or_die(reader);
     name = XMLParseUtil::readName(reader);
   }
 
@@ -211,7 +211,7 @@ Expander::procIdentity()
 
     while(true)
     {
-      xmlTextReaderRead(reader);
+      XMLParseUtil::read_or_die(reader);
       name = XMLParseUtil::readName(reader);
       if(name == Compiler::COMPILER_IDENTITY_ELEM)
       {
@@ -236,7 +236,7 @@ Expander::procIdentityGroup()
 
     while(true)
     {
-      xmlTextReaderRead(reader);
+      XMLParseUtil::read_or_die(reader);
       name = XMLParseUtil::readName(reader);
       if(name == Compiler::COMPILER_IDENTITYGROUP_ELEM)
       {
@@ -265,7 +265,7 @@ Expander::procTransduction()
     name.clear();
     while(true)
     {
-      xmlTextReaderRead(reader);
+      XMLParseUtil::read_or_die(reader);
       name = XMLParseUtil::readName(reader);
       if(name == Compiler::COMPILER_LEFT_ELEM)
       {
@@ -282,7 +282,7 @@ Expander::procTransduction()
     name.clear();
     while(true)
     {
-      xmlTextReaderRead(reader);
+      XMLParseUtil::read_or_die(reader);
       name = XMLParseUtil::readName(reader);
       if(name == Compiler::COMPILER_RIGHT_ELEM)
       {
@@ -557,7 +557,7 @@ Expander::procNode(UFILE *output)
 UString
 Expander::procRegexp()
 {
-  xmlTextReaderRead(reader);
+  XMLParseUtil::read_or_die(reader);
   UString val = XMLParseUtil::readValue(reader);
   UString escaped = "^$/<>{}*@#+~:"_u;
   UString ret;
@@ -575,7 +575,7 @@ Expander::procRegexp()
     }
     ret += c;
   }
-  xmlTextReaderRead(reader);
+  XMLParseUtil::read_or_die(reader);
   return ret;
 }
 
diff --git a/lttoolbox/tmx_compiler.cc b/lttoolbox/tmx_compiler.cc
index 1516bbb..231aa8a 100644
--- a/lttoolbox/tmx_compiler.cc
+++ b/lttoolbox/tmx_compiler.cc
@@ -118,7 +118,7 @@ TMXCompiler::skipBlanks(UString &name)
       }
     }
 
-    xmlTextReaderRead(reader);
+    XMLParseUtil::read_or_die(reader);
     name = XMLParseUtil::readName(reader);
   }
 }
@@ -126,7 +126,7 @@ TMXCompiler::skipBlanks(UString &name)
 void
 TMXCompiler::skip(UString &name, UStringView elem)
 {
-  xmlTextReaderRead(reader);
+  XMLParseUtil::read_or_die(reader);
   name = XMLParseUtil::readName(reader);
 
   while(name == TMX_COMPILER_TEXT_NODE || name == TMX_COMPILER_COMMENT_NODE)
@@ -140,7 +140,7 @@ TMXCompiler::skip(UString &name, UStringView elem)
         exit(EXIT_FAILURE);
       }
     }
-    xmlTextReaderRead(reader);
+    XMLParseUtil::read_or_die(reader);
     name = XMLParseUtil::readName(reader);
   }
 
@@ -346,7 +346,7 @@ TMXCompiler::procTU()
 
       while(name != TMX_COMPILER_TUV_ELEM || type != XML_READER_TYPE_END_ELEMENT)
       {
-        xmlTextReaderRead(reader);
+        XMLParseUtil::read_or_die(reader);
         name = XMLParseUtil::readName(reader);
         type = xmlTextReaderNodeType(reader);
 
@@ -363,7 +363,7 @@ TMXCompiler::procTU()
         }
       }
     }
-    xmlTextReaderRead(reader);
+    XMLParseUtil::read_or_die(reader);
     name = XMLParseUtil::readName(reader);
     type = xmlTextReaderNodeType(reader);
   }
diff --git a/lttoolbox/xml_parse_util.cc b/lttoolbox/xml_parse_util.cc
index 001b52b..00796dd 100644
--- a/lttoolbox/xml_parse_util.cc
+++ b/lttoolbox/xml_parse_util.cc
@@ -102,6 +102,14 @@ XMLParseUtil::allBlanks(xmlTextReaderPtr reader)
   return true;
 }
 
+void
+XMLParseUtil::read_or_die(xmlTextReaderPtr reader)
+{
+  if (xmlTextReaderRead(reader) != 1) {
+    error_and_die(reader, "Parse error.");
+  }
+}
+
 void
 XMLParseUtil::error_and_die(xmlTextReaderPtr reader, const char* fmt, ...)
 {
diff --git a/lttoolbox/xml_parse_util.h b/lttoolbox/xml_parse_util.h
index 1859677..5403d8a 100644
--- a/lttoolbox/xml_parse_util.h
+++ b/lttoolbox/xml_parse_util.h
@@ -42,6 +42,9 @@ public:
 
   static bool allBlanks(xmlTextReaderPtr reader);
 
+  /* Go to the next node, which has to exist: */
+  static void read_or_die(xmlTextReaderPtr reader);
+
   static void error_and_die(xmlTextReaderPtr reader, const char* fmt, ...);
 };
 
-- 
2.43.0


From 0a3b6e96d61b162e59715a2765c3642d6228a28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:29 +0000
Subject: [PATCH 50/51] fix: a tag the dictionary does not have ended the text
 in analysis

Reading an unknown tag in lt-proc's analysis or lt-tmxproc gave the code 0,
which both take for the end of the segment: with -z an extra NUL was written,
without it the rest of the input was dropped.
---
 lttoolbox/fst_processor.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index b349bfa..56df485 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -186,6 +186,16 @@ FSTProcessor::procNodeRCX()
   }
 }
 
+// the code of the tag that starts here; also one the dictionary does not
+// have gets a code, since 0 would be taken for the end of the text
+static int32_t
+readSymbol(InputFile& input, Alphabet& alphabet)
+{
+  UString tag = input.readBlock('<', '>');
+  alphabet.includeSymbol(tag);
+  return alphabet(tag);
+}
+
 int
 FSTProcessor::readAnalysis(InputFile& input)
 {
@@ -215,7 +225,7 @@ FSTProcessor::readAnalysis(InputFile& input)
     switch(val)
     {
       case '<':
-        altval = alphabet(input.readBlock('<', '>'));
+        altval = readSymbol(input, alphabet);
         input_buffer.add(altval);
         return altval;
 
@@ -273,7 +283,7 @@ FSTProcessor::readTMAnalysis(InputFile& input)
     switch(val)
     {
       case '<':
-        altval = alphabet(input.readBlock('<', '>'));
+        altval = readSymbol(input, alphabet);
         input_buffer.add(altval);
         return altval;
 
-- 
2.43.0


From e89374fd5fb1be3fa1f75d69bfd89dc1da443f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:09 +0000
Subject: [PATCH 51/51] fix: section statistics were printed into a compiled
 dictionary written to standard output

---
 lttoolbox/file_utils.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/file_utils.cc b/lttoolbox/file_utils.cc
index 4eb3d68..3cc0cc3 100644
--- a/lttoolbox/file_utils.cc
+++ b/lttoolbox/file_utils.cc
@@ -76,12 +76,14 @@ writeTransducerSet(FILE* output, UStringView letters,
 
   Compression::string_write(letters, output);
   alpha.write(output);
+  // the compiled dictionary itself may be going to standard output
+  std::ostream& info = (output == stdout ? std::cerr : std::cout);
   Compression::multibyte_write(trans.size(), output);
   for (auto& it : trans) {
     Compression::string_write(it.first, output);
     it.second.write(output);
-    std::cout << it.first << " " << it.second.size();
-    std::cout << " " << it.second.numberOfTransitions() << std::endl;
+    info << it.first << " " << it.second.size();
+    info << " " << it.second.numberOfTransitions() << std::endl;
   }
 }
 
-- 
2.43.0

