From c1719ce4341b7049baaec13c6c337ac74c55864f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:05 +0000
Subject: [PATCH 01/15] fix: hyphenate romanization after a blank syllable

Once a blank had been seen, no hyphen was inserted for the rest of the
string, because the begin-of-word flag was never cleared.
---
 output/output-roman.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/output/output-roman.cxx b/output/output-roman.cxx
index b0e8f57..124246d 100644
--- a/output/output-roman.cxx
+++ b/output/output-roman.cxx
@@ -37,6 +37,7 @@ RomanOutput::output (const SylString& sylStr) const
             outStr += '-';
         }
         outStr += mRomanSylOutput.output (*i);
+        isBegin = false;
     }
 
     return outStr;
-- 
2.43.0


From d566f1f48b76f8209ca5a42b16473ae67f1e550c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:05 +0000
Subject: [PATCH 02/15] fix: do not dereference an empty string in romanization

---
 output/output-roman.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/output/output-roman.cxx b/output/output-roman.cxx
index 124246d..40cd0f0 100644
--- a/output/output-roman.cxx
+++ b/output/output-roman.cxx
@@ -14,6 +14,8 @@ RomanOutput::output (const SylString& sylStr) const
     string outStr;
 
     auto i = sylStr.begin();
+    if (i == sylStr.end())
+        return outStr;
     outStr = mRomanSylOutput.output (*i);
     if (mIsCapitalize) {
         outStr[0] = toupper (outStr[0]);
-- 
2.43.0


From 765d7dad3316e9fccb502af21f128158535bc39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:05 +0000
Subject: [PATCH 03/15] fix: print an empty JSON array when there is no reading

JSON output dereferenced the begin iterator of an empty list or string,
e.g. for a word without any reading.
---
 output/output-json.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/output/output-json.cxx b/output/output-json.cxx
index f37fbb9..efc2cf2 100644
--- a/output/output-json.cxx
+++ b/output/output-json.cxx
@@ -12,6 +12,8 @@ JsonOutput::output (const SylString& sylStr) const
     string outStr;
 
     auto i = sylStr.begin();
+    if (i == sylStr.end())
+        return "[]";
     outStr = "[\"" + mSylOutput->output (*i) + "\"";
     while (++i != sylStr.end()) {
         outStr += ",\"" + mSylOutput->output (*i) + "\"";
@@ -28,6 +30,8 @@ JsonOutput::output (const list<SylString>& strList) const
 
     outStr = "[";
     auto i = strList.begin();
+    if (i == strList.end())
+        return "[]";
     outStr += output (*i);
     while (++i != strList.end()) {
         outStr += "," + output (*i);
-- 
2.43.0


From 8cfd53211f967609e32ad4ff2605f1e33c52449a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:05 +0000
Subject: [PATCH 04/15] fix: escape quotes, backslashes and control characters
 in JSON output

---
 output/output-json.cxx | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/output/output-json.cxx b/output/output-json.cxx
index efc2cf2..4841810 100644
--- a/output/output-json.cxx
+++ b/output/output-json.cxx
@@ -6,6 +6,28 @@
 
 using namespace std;
 
+static string
+EscapeJson (const string& str)
+{
+    static const char hexDigits[] = "0123456789abcdef";
+
+    string outStr;
+    for (auto c : str) {
+        if ('"' == c || '\\' == c) {
+            outStr += '\\';
+            outStr += c;
+        } else if (static_cast<unsigned char> (c) < 0x20) {
+            outStr += "\\u00";
+            outStr += hexDigits[c >> 4];
+            outStr += hexDigits[c & 0xf];
+        } else {
+            outStr += c;
+        }
+    }
+
+    return outStr;
+}
+
 string
 JsonOutput::output (const SylString& sylStr) const
 {
@@ -14,9 +36,9 @@ JsonOutput::output (const SylString& sylStr) const
     auto i = sylStr.begin();
     if (i == sylStr.end())
         return "[]";
-    outStr = "[\"" + mSylOutput->output (*i) + "\"";
+    outStr = "[\"" + EscapeJson (mSylOutput->output (*i)) + "\"";
     while (++i != sylStr.end()) {
-        outStr += ",\"" + mSylOutput->output (*i) + "\"";
+        outStr += ",\"" + EscapeJson (mSylOutput->output (*i)) + "\"";
     }
     outStr += "]";
 
-- 
2.43.0


From d3158e3d3880ed89478805dffd26d696f0edeae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:05 +0000
Subject: [PATCH 05/15] fix: stop at a leading vowel without a consonant after
 it

A word ending in a lone leading vowel other than SARA E failed an
assertion, or threw out_of_range.
---
 parser/parser.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.cxx b/parser/parser.cxx
index 6641bd0..852c599 100644
--- a/parser/parser.cxx
+++ b/parser/parser.cxx
@@ -1500,6 +1500,10 @@ ParseOtherLV (const u16string& u16word, const ParseState& state,
 
     auto ldv = u16word.at (state.pos);
 
+    if (state.pos + 1 >= state.stopPos) {
+        return;
+    }
+
     list<PartialSyl> partialSyls = MatchInitCons (u16word, state.pos + 1,
                                                   state.stopPos,
                                                   state.isLinked);
-- 
2.43.0


From 8bbd36ccf3c7b7cfa89e250c00b2b2f92181c681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:05 +0000
Subject: [PATCH 06/15] fix: do not terminate on invalid UTF-8 input

---
 parser/parser.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parser.cxx b/parser/parser.cxx
index 852c599..18b626e 100644
--- a/parser/parser.cxx
+++ b/parser/parser.cxx
@@ -1980,7 +1980,8 @@ PronunDAG
 Parser::parseWord (string word) const
 {
     // convert UTF-8 word string to UTF-16
-    wstring_convert<codecvt_utf8_utf16<char16_t>, char16_t> u16conv;
+    // (an invalid UTF-8 string is treated as an empty one)
+    wstring_convert<codecvt_utf8_utf16<char16_t>, char16_t> u16conv ("", u"");
     u16string u16word = u16conv.from_bytes (word);
 
     auto brkPos = FindBreaks (u16word, mThBrk);
-- 
2.43.0


From 9837537a3b81683ef660f0f3eb182a162cff3a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:05 +0000
Subject: [PATCH 07/15] fix: keep a period after non-Thai text in the literal

The period in e.g. '3.14' was dropped from the output.
---
 parser/parser.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.cxx b/parser/parser.cxx
index 18b626e..ac5d96a 100644
--- a/parser/parser.cxx
+++ b/parser/parser.cxx
@@ -1913,6 +1913,10 @@ ParseU16 (const u16string& u16word, const Dict* exceptDict,
                 while (s.pronDAG.inDegree (s.pos) > 0) {
                     auto i = s.pronDAG.inEdges (s.pos).first;
                     Syl iSyl = i->second.edgeVal;
+                    if (iSyl.isLiteral()) {
+                        // keep the period in the literal text
+                        iSyl = Syl (s.pos + 1, iSyl.literal() + u'.');
+                    }
                     iSyl.setEndPos (s.pos + 1);
                     s.pronDAG.addEdge (i->second.target, s.pos + 1, iSyl);
                     s.pronDAG.removeEdge (i->second.target, s.pos,
-- 
2.43.0


From 8f94f8fa106736b51deffe99bc8c2b2e3439f61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:05 +0000
Subject: [PATCH 08/15] fix: recognize --help after other options

---
 thpronun/thpronun.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thpronun/thpronun.cxx b/thpronun/thpronun.cxx
index 66815fd..b03d58b 100644
--- a/thpronun/thpronun.cxx
+++ b/thpronun/thpronun.cxx
@@ -201,7 +201,7 @@ main (int argc, const char* argv[])
                 if (strcmp (argv[i]+2, "version") == 0) {
                     Version (argv[0]);
                     return 1;
-                } else if (strcmp (argv[1]+2, "help") == 0) {
+                } else if (strcmp (argv[i]+2, "help") == 0) {
                     Usage (argv[0]);
                     return 1;
                 } else {
-- 
2.43.0


From ab8cab3b7e3a815102900a48a255289cf074981d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:05 +0000
Subject: [PATCH 09/15] fix: close a dictionary whose data bank cannot be read

After a failed open the trie stayed in place without its data, so that
the next lookup dereferenced a null pointer.  A negative data bank size
was not rejected either.
---
 dict/dict.cxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dict/dict.cxx b/dict/dict.cxx
index 7d32077..09c82a3 100644
--- a/dict/dict.cxx
+++ b/dict/dict.cxx
@@ -27,7 +27,7 @@ static char*
 ReadDataBank (FILE* input)
 {
     int bankSize;
-    if (!ReadInt32 (input, bankSize))
+    if (!ReadInt32 (input, bankSize) || bankSize <= 0)
         return nullptr;
 
     char* data = new char[bankSize];
@@ -52,7 +52,12 @@ Dict::open (const char* dictPath)
     mData = ReadDataBank (dictFile);
 
     fclose (dictFile);
-    return mTrie != nullptr && mData != nullptr;
+
+    if (!mTrie || !mData) {
+        close();
+        return false;
+    }
+    return true;
 }
 
 void
-- 
2.43.0


From 269723da82c8ddcfcf782e968079be31bdc98da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:15 +0000
Subject: [PATCH 10/15] fix: reject a dictionary with a wrong data bank size

A size smaller than the data bank was accepted, and lookups then read
beyond the end of the loaded data.
---
 dict/dict.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dict/dict.cxx b/dict/dict.cxx
index 09c82a3..cb98024 100644
--- a/dict/dict.cxx
+++ b/dict/dict.cxx
@@ -31,7 +31,9 @@ ReadDataBank (FILE* input)
         return nullptr;
 
     char* data = new char[bankSize];
-    if (fread (data, bankSize, 1, input) != 1) {
+    if (fread (data, bankSize, 1, input) != 1
+        || data[bankSize - 1] != '\0' || fgetc (input) != EOF)
+    {
         delete[] data;
         return nullptr;
     }
-- 
2.43.0


From 183ae25cd70fa642f809046265441dca304e02ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:15 +0000
Subject: [PATCH 11/15] fix: do not read before the buffer for a line starting
 with NUL

---
 dict/gen-lookup-dict.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dict/gen-lookup-dict.c b/dict/gen-lookup-dict.c
index 12b608f..e9f4f50 100644
--- a/dict/gen-lookup-dict.c
+++ b/dict/gen-lookup-dict.c
@@ -190,7 +190,7 @@ ReadInput (uint32_t *word, int wordMax, char *data, int dataMax, FILE* input)
 
     /* trim newline */
     lineLeft = strlen (line);
-    if (line[lineLeft - 1] == '\n') {
+    if (lineLeft > 0 && line[lineLeft - 1] == '\n') {
         line[--lineLeft] = '\0';
     }
 
-- 
2.43.0


From 2fefe57cb0f3668419c2b1d26f91ee75e79bfe04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:42:26 +0000
Subject: [PATCH 12/15] fix: merge parse states that differ only in arrival
 order

States at the same position were not merged when a linked and a non-linked
state alternated in the pool, so the number of states, and the time to
analyse a word, grew exponentially with its length.
---
 parser/parser.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.cxx b/parser/parser.cxx
index ac5d96a..cb290c0 100644
--- a/parser/parser.cxx
+++ b/parser/parser.cxx
@@ -129,7 +129,7 @@ StatePool::add (const ParseState& state)
             it->pronDAG.unionDAG (state.pronDAG);
             return;
         }
-        if (it->pos >= state.pos) {
+        if (it->pos > state.pos) {
             mStates.insert (it, state);
             return;
         }
-- 
2.43.0


From df9d3022900448b5ed8a0bb1041751de1da08ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:28 +0000
Subject: [PATCH 13/15] fix: do not mix pre-syllables of the same span
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The readings with -au- and with -a- before ri/ra (as in บริเวณ, จระเข้) went
through one shared node, so the first syllable of one was also combined
with the second syllable of the other.
---
 parser/parser.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.cxx b/parser/parser.cxx
index cb290c0..c07def3 100644
--- a/parser/parser.cxx
+++ b/parser/parser.cxx
@@ -245,6 +245,11 @@ AddSyl (const ParseState& prevState, PartialSyl& p, int pos)
 
     if (p.hasPreSyl) {
         int nextPos = -(curPos * 100 + pos);
+        // different pre-syllables of the same span need different nodes,
+        // so that each is followed by its own syllable only
+        if (EVowel::A != p.preSyl.vowel()) {
+            nextPos -= 50;
+        }
         p.preSyl.setEndPos (nextPos);
         dag.addEdge (curPos, nextPos, p.preSyl);
         curPos = nextPos;
-- 
2.43.0


From 6b933118b5ffe0a9c737feea46182e956a9766da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:31:53 +0000
Subject: [PATCH 14/15] fix: keep a syllable string intact when set to one of
 its own syllables

Setting a syllable string cleared it before copying the new syllable.
If that syllable was part of the string itself, freed memory was read.
---
 sylstring/sylstring.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sylstring/sylstring.inl b/sylstring/sylstring.inl
index 177aff7..58925ac 100644
--- a/sylstring/sylstring.inl
+++ b/sylstring/sylstring.inl
@@ -44,8 +44,8 @@ SylString::operator+= (const SylString& other)
 inline SylString&
 SylString::operator= (const Syl& syl)
 {
-    mSyls.clear();
-    return *this += syl;
+    // syl may be one of our own syllables
+    return *this = SylString (syl);
 }
 
 inline SylString&
-- 
2.43.0


From 310313240954f1af264fd28912675f6c593f783e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:31:53 +0000
Subject: [PATCH 15/15] fix: keep a pronunciation group intact when set to one
 of its alternatives

Setting a group cleared it before copying the new string.
If that string was one of its own alternatives, freed memory was read.
---
 lattice/lattice.inl | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lattice/lattice.inl b/lattice/lattice.inl
index 0f00c0d..e6dd81b 100644
--- a/lattice/lattice.inl
+++ b/lattice/lattice.inl
@@ -40,9 +40,8 @@ PronunFrac::operator= (const PronunFrac& other)
 inline PronunFrac&
 PronunFrac::operator= (const SylString& sylString)
 {
-    mAltPronuns.clear();
-    mEndPos = sylString.endPos();
-    return *this += sylString;
+    // sylString may be one of our own alternatives
+    return *this = PronunFrac (sylString.endPos(), sylString);
 }
 
 inline int
-- 
2.43.0

