From b4363ca0101aa9e1f78186a57e03f2d356124842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:12 +0000
Subject: [PATCH 01/16] fix: Do not read past a leading vowel at the end of a
 token

A leading vowel other than SARA E with nothing after it made the parser look
for an initial consonant beyond the end of the token. That failed an
assertion, or read the next token. SARA E already had this guard.
---
 parser/parser.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.cxx b/parser/parser.cxx
index 6641bd0..d69a4a8 100644
--- a/parser/parser.cxx
+++ b/parser/parser.cxx
@@ -1498,6 +1498,10 @@ ParseOtherLV (const u16string& u16word, const ParseState& state,
     assert (th_wcisldvowel (u16word.at (state.pos)));
     assert (UTH_SARA_E != u16word.at (state.pos));
 
+    if (state.pos + 1 >= state.stopPos) {
+        return;
+    }
+
     auto ldv = u16word.at (state.pos);
 
     list<PartialSyl> partialSyls = MatchInitCons (u16word, state.pos + 1,
-- 
2.43.0


From c4a3e76d488dc965c314c4a4362e4e92d202fc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:12 +0000
Subject: [PATCH 02/16] fix: Output an empty list when there is no
 pronunciation

JSON output dereferenced the first element of an empty list for words that
have no possible pronunciation, and crashed. It now writes [].
---
 output/output-json.cxx  | 19 +++++++++++--------
 output/output-roman.cxx |  3 +++
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/output/output-json.cxx b/output/output-json.cxx
index f37fbb9..ab8ceeb 100644
--- a/output/output-json.cxx
+++ b/output/output-json.cxx
@@ -11,10 +11,12 @@ JsonOutput::output (const SylString& sylStr) const
 {
     string outStr;
 
-    auto i = sylStr.begin();
-    outStr = "[\"" + mSylOutput->output (*i) + "\"";
-    while (++i != sylStr.end()) {
-        outStr += ",\"" + mSylOutput->output (*i) + "\"";
+    outStr = "[";
+    for (auto i = sylStr.begin(); i != sylStr.end(); ++i) {
+        if (i != sylStr.begin()) {
+            outStr += ",";
+        }
+        outStr += "\"" + mSylOutput->output (*i) + "\"";
     }
     outStr += "]";
 
@@ -27,10 +29,11 @@ JsonOutput::output (const list<SylString>& strList) const
     string outStr;
 
     outStr = "[";
-    auto i = strList.begin();
-    outStr += output (*i);
-    while (++i != strList.end()) {
-        outStr += "," + output (*i);
+    for (auto i = strList.begin(); i != strList.end(); ++i) {
+        if (i != strList.begin()) {
+            outStr += ",";
+        }
+        outStr += output (*i);
     }
     outStr += "]";
 
diff --git a/output/output-roman.cxx b/output/output-roman.cxx
index b0e8f57..c1ff35d 100644
--- a/output/output-roman.cxx
+++ b/output/output-roman.cxx
@@ -14,6 +14,9 @@ RomanOutput::output (const SylString& sylStr) const
     string outStr;
 
     auto i = sylStr.begin();
+    if (i == sylStr.end())
+        return outStr;
+
     outStr = mRomanSylOutput.output (*i);
     if (mIsCapitalize) {
         outStr[0] = toupper (outStr[0]);
-- 
2.43.0


From 36265335952f700662a31d46a52c734a073b6640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:12 +0000
Subject: [PATCH 03/16] fix: Escape special characters in JSON strings

Text outside Thai script is passed through to the output. A quotation mark,
a backslash or a control character in it made the JSON output invalid.
---
 output/output-json.cxx | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/output/output-json.cxx b/output/output-json.cxx
index ab8ceeb..5ecb8cd 100644
--- a/output/output-json.cxx
+++ b/output/output-json.cxx
@@ -6,6 +6,30 @@
 
 using namespace std;
 
+// Make JSON string literal of a UTF-8 string
+static string
+JsonString (const string& str)
+{
+    static const char hexDigits[] = "0123456789abcdef";
+
+    string outStr = "\"";
+    for (unsigned char c : str) {
+        if ('"' == c || '\\' == c) {
+            outStr += '\\';
+            outStr += c;
+        } else if (c < 0x20) {
+            outStr += "\\u00";
+            outStr += hexDigits[c >> 4];
+            outStr += hexDigits[c & 0x0f];
+        } else {
+            outStr += c;
+        }
+    }
+    outStr += "\"";
+
+    return outStr;
+}
+
 string
 JsonOutput::output (const SylString& sylStr) const
 {
@@ -16,7 +40,7 @@ JsonOutput::output (const SylString& sylStr) const
         if (i != sylStr.begin()) {
             outStr += ",";
         }
-        outStr += "\"" + mSylOutput->output (*i) + "\"";
+        outStr += JsonString (mSylOutput->output (*i));
     }
     outStr += "]";
 
-- 
2.43.0


From 2d086659713934ae4f60cf7f29ef45b09043d82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:12 +0000
Subject: [PATCH 04/16] fix: Resume hyphenation after a blank in romanization

The mark of a beginning was never cleared after a blank syllable, so no
hyphen was put in the rest of the string. A leading blank did not set it.
---
 output/output-roman.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/output/output-roman.cxx b/output/output-roman.cxx
index c1ff35d..9c804e1 100644
--- a/output/output-roman.cxx
+++ b/output/output-roman.cxx
@@ -21,7 +21,7 @@ RomanOutput::output (const SylString& sylStr) const
     if (mIsCapitalize) {
         outStr[0] = toupper (outStr[0]);
     }
-    bool isBegin = false;
+    bool isBegin = (*i == Syl::Blank);
     for (auto prev = i++; i != sylStr.end(); prev = i++) {
         if (*i == Syl::Blank) {
             outStr += " ";
@@ -40,6 +40,7 @@ RomanOutput::output (const SylString& sylStr) const
             outStr += '-';
         }
         outStr += mRomanSylOutput.output (*i);
+        isBegin = false;
     }
 
     return outStr;
-- 
2.43.0


From ee4976660577022e07c09a0ffc5004f53b52a303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:12 +0000
Subject: [PATCH 05/16] fix: Recognize --help after other arguments

The first argument was compared instead of the current one.
---
 thpronun/thpronun.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thpronun/thpronun.cxx b/thpronun/thpronun.cxx
index 66815fd..b03d58b 100644
--- a/thpronun/thpronun.cxx
+++ b/thpronun/thpronun.cxx
@@ -201,7 +201,7 @@ main (int argc, const char* argv[])
                 if (strcmp (argv[i]+2, "version") == 0) {
                     Version (argv[0]);
                     return 1;
-                } else if (strcmp (argv[1]+2, "help") == 0) {
+                } else if (strcmp (argv[i]+2, "help") == 0) {
                     Usage (argv[0]);
                     return 1;
                 } else {
-- 
2.43.0


From ac21449ca3066aea134dceab9fbdc367ca8adaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:12 +0000
Subject: [PATCH 06/16] fix: Do not mix up pre-syllables of different readings

Readings with -a and -au pre-syllables over the same range shared a node in
the pronunciation graph. Words like those starting with "bori-" and "chora-"
then got readings that combine the halves of two different readings.
---
 parser/parser.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.cxx b/parser/parser.cxx
index d69a4a8..4b8a06f 100644
--- a/parser/parser.cxx
+++ b/parser/parser.cxx
@@ -245,6 +245,11 @@ AddSyl (const ParseState& prevState, PartialSyl& p, int pos)
 
     if (p.hasPreSyl) {
         int nextPos = -(curPos * 100 + pos);
+        // keep -au pre-syllables apart from -a ones of the same range,
+        // so that each is followed by its own syllables only
+        if (EVowel::AUU == p.preSyl.vowel()) {
+            nextPos -= 50;
+        }
         p.preSyl.setEndPos (nextPos);
         dag.addEdge (curPos, nextPos, p.preSyl);
         curPos = nextPos;
-- 
2.43.0


From 14953f98a9608b5e6cb354bff169a144312baf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:02:15 +0000
Subject: [PATCH 07/16] fix: Unload a dictionary that cannot be read completely

When the data part of a dictionary file was cut short, the index part stayed
loaded. Words found in it were then looked up through a null pointer. Also
reject a negative data size, and accept a dictionary without entries.
---
 dict/dict.cxx | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dict/dict.cxx b/dict/dict.cxx
index 7d32077..59bc326 100644
--- a/dict/dict.cxx
+++ b/dict/dict.cxx
@@ -27,8 +27,10 @@ static char*
 ReadDataBank (FILE* input)
 {
     int bankSize;
-    if (!ReadInt32 (input, bankSize))
+    if (!ReadInt32 (input, bankSize) || bankSize < 0)
         return nullptr;
+    if (0 == bankSize)
+        return new char[1]();
 
     char* data = new char[bankSize];
     if (fread (data, bankSize, 1, input) != 1) {
@@ -52,7 +54,12 @@ Dict::open (const char* dictPath)
     mData = ReadDataBank (dictFile);
 
     fclose (dictFile);
-    return mTrie != nullptr && mData != nullptr;
+    if (!mTrie || !mData) {
+        // no half-loaded dictionary
+        close();
+        return false;
+    }
+    return true;
 }
 
 void
-- 
2.43.0


From b7a6ae5ed6d5a07b162c5873ee2b37fff3d1cb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:02:15 +0000
Subject: [PATCH 08/16] fix: Fail on bad input lines when generating a
 dictionary

A line without a TAB, with bad UTF-8 or longer than the line buffer ended the
input as if it were the end of file. The dictionary then silently lacked the
rest of the entries. Report an error in such cases, and also when writing the
dictionary fails. Read the key without breaking strict aliasing rules, which
made the generated dictionaries empty with some compiler options.
---
 dict/gen-lookup-dict.c | 44 ++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/dict/gen-lookup-dict.c b/dict/gen-lookup-dict.c
index 12b608f..bb5b00c 100644
--- a/dict/gen-lookup-dict.c
+++ b/dict/gen-lookup-dict.c
@@ -109,7 +109,9 @@ DataBankWrite (const DataBank *bank, FILE *output)
     if (FileWriteInt32 (output, bank->dataSize) != EXIT_SUCCESS) {
         return EXIT_FAILURE;
     }
-    if (fwrite (bank->pool, bank->dataSize, 1, output) != 1) {
+    if (bank->dataSize > 0
+        && fwrite (bank->pool, bank->dataSize, 1, output) != 1)
+    {
         return EXIT_FAILURE;
     }
 
@@ -177,11 +179,14 @@ GetUTF8 (const unsigned char **input, uint32_t *output)
     return EXIT_SUCCESS;
 }
 
+#define READ_EOF    (-1)
+
 int
 ReadInput (uint32_t *word, int wordMax, char *data, int dataMax, FILE* input)
 {
     char *line = (char *) malloc (wordMax);
     char *pLine;
+    const unsigned char *pKey;
     size_t lineLeft;
     uint32_t *pWord;
 
@@ -190,8 +195,12 @@ ReadInput (uint32_t *word, int wordMax, char *data, int dataMax, FILE* input)
 
     /* trim newline */
     lineLeft = strlen (line);
-    if (line[lineLeft - 1] == '\n') {
+    if (lineLeft > 0 && line[lineLeft - 1] == '\n') {
         line[--lineLeft] = '\0';
+    } else if (!feof (input)) {
+        fprintf (stderr, "Line too long.\n");
+        fprintf (stderr, "Line:%s\n", line);
+        goto err;
     }
 
     /* split fields */
@@ -207,10 +216,10 @@ ReadInput (uint32_t *word, int wordMax, char *data, int dataMax, FILE* input)
     strncpy (data, pLine + 1, dataMax);
 
     /* read UTF-8-encoded word */
-    pLine = line;
+    pKey = (const unsigned char *) line;
     pWord = word;
-    while (*pLine && pWord - word < wordMax - 1) {
-        if (GetUTF8 ((const unsigned char **)&pLine, pWord) == EXIT_SUCCESS) {
+    while (*pKey && pWord - word < wordMax - 1) {
+        if (GetUTF8 (&pKey, pWord) == EXIT_SUCCESS) {
             pWord++;
         } else {
             fprintf (stderr, "Fail to convert word '%s'.\n", line);
@@ -223,6 +232,9 @@ ReadInput (uint32_t *word, int wordMax, char *data, int dataMax, FILE* input)
     return EXIT_SUCCESS;
 
 eof:
+    free (line);
+    return ferror (input) ? EXIT_FAILURE : READ_EOF;
+
 err:
     free (line);
     return EXIT_FAILURE;
@@ -235,9 +247,11 @@ GenDict (FILE *input, FILE *output)
     char data[256];
     Trie *trie = NewTrie();
     DataBank *bank = NewDataBank();
+    int readStatus;
 
-    while (ReadInput (word, N_ELM (word),
-                      data, N_ELM (data), input) == EXIT_SUCCESS)
+    while ((readStatus = ReadInput (word, N_ELM (word),
+                                    data, N_ELM (data), input))
+           == EXIT_SUCCESS)
     {
         int dataIdx = DataBankAddData (bank, data);
         if (dataIdx < 0) {
@@ -261,8 +275,15 @@ GenDict (FILE *input, FILE *output)
         }
     }
 
-    trie_fwrite (trie, output);
-    DataBankWrite (bank, output);
+    if (readStatus != READ_EOF)
+        goto err;
+
+    if (trie_fwrite (trie, output) != 0
+        || DataBankWrite (bank, output) != EXIT_SUCCESS)
+    {
+        fprintf (stderr, "Failed to write dictionary\n");
+        goto err;
+    }
 
     FreeDataBank (bank);
     trie_free (trie);
@@ -309,7 +330,10 @@ main (int argc, const char *argv[])
         goto err_output_opened;
     }
 
-    fclose (output);
+    if (fclose (output) != 0) {
+        fprintf (stderr, "Failed to write dictionary\n");
+        goto err_input_opened;
+    }
     fclose (input);
 
     return EXIT_SUCCESS;
-- 
2.43.0


From 059399ad1a09921cb56f234f3f8c17982b76ea31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:02:15 +0000
Subject: [PATCH 09/16] fix: Skip words that are not valid UTF-8

Such a word ended the program with an uncaught exception, and the words after
it were not processed. Report it and go on.
---
 thpronun/thpronun.cxx | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/thpronun/thpronun.cxx b/thpronun/thpronun.cxx
index b03d58b..49b3b35 100644
--- a/thpronun/thpronun.cxx
+++ b/thpronun/thpronun.cxx
@@ -12,6 +12,7 @@
 #include <iostream>
 #include <list>
 #include <memory>
+#include <stdexcept>
 #include <cstring>
 
 #define EXCEPT_DICT_NAME "except.dic"
@@ -24,9 +25,13 @@ DoParse (const Parser& parser, string word,
          const list<unique_ptr<IOutput>>& stringOutputs)
 {
     cout << word << ":" << endl;
-    auto pronDAG = parser.parseWord (word);
-    for (const auto& strOut : stringOutputs) {
-        cout << strOut->output (pronDAG) << endl;;
+    try {
+        auto pronDAG = parser.parseWord (word);
+        for (const auto& strOut : stringOutputs) {
+            cout << strOut->output (pronDAG) << endl;;
+        }
+    } catch (const range_error&) {
+        cerr << "Invalid UTF-8 in word '" << word << "'" << endl;
     }
 }
 
-- 
2.43.0


From 30be81831b2aa1ff7e51c7e7879445c08e7c1cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:22 +0000
Subject: [PATCH 10/16] fix: Merge pending states of the same position and link
 status

The state pool inserted a new state before the first one at the same
position, even if a state with the same link status came right after it.
The number of pending states could then double at every syllable, and a
word of two dozen letters such as eight times 'kra' took minutes to read.
---
 parser/parser.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.cxx b/parser/parser.cxx
index 4b8a06f..dd8af57 100644
--- a/parser/parser.cxx
+++ b/parser/parser.cxx
@@ -129,7 +129,7 @@ StatePool::add (const ParseState& state)
             it->pronDAG.unionDAG (state.pronDAG);
             return;
         }
-        if (it->pos >= state.pos) {
+        if (it->pos > state.pos) {
             mStates.insert (it, state);
             return;
         }
-- 
2.43.0


From 57a10a79d8ed397446dce6b06fee61bbc2305fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:47 +0000
Subject: [PATCH 11/16] fix: keep alternative pronunciations unique whatever
 the insertion order

Two strings of the same syllables can differ in their inner end positions.
PronunFrac compared a new string for equality with just one neighbour, so
that whether it was kept twice depended on which one came first, and the
grouped output could list a pronunciation twice.
---
 lattice/lattice.cxx | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/lattice/lattice.cxx b/lattice/lattice.cxx
index 0e75205..47bdecb 100644
--- a/lattice/lattice.cxx
+++ b/lattice/lattice.cxx
@@ -26,10 +26,22 @@ PronunFrac::operator+= (const SylString& sylString)
     // keep mAltPronuns sorted & unique
     auto it = mAltPronuns.begin();
     while (it != mAltPronuns.end() && *it < sylString) {
+        // same pronunciation with smaller end positions
+        if (*it == sylString) return *this;
         ++it;
     }
-    if (it == mAltPronuns.end() || *it != sylString) {
-        mAltPronuns.insert (it, sylString);
+    if (it != mAltPronuns.end() && *it <= sylString) {
+        // already there
+        return *this;
+    }
+    mAltPronuns.insert (it, sylString);
+
+    // same pronunciation with greater end positions is superseded
+    while (it != mAltPronuns.end() && *it != sylString) {
+        ++it;
+    }
+    if (it != mAltPronuns.end()) {
+        mAltPronuns.erase (it);
     }
 
     return *this;
-- 
2.43.0


From 2afaf88a3500cd52151a876fabf5ae7bb4cb57eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:58:04 +0000
Subject: [PATCH 12/16] fix: refuse overlong UTF-8 in word lists

The dictionary compiler took characters encoded in more bytes than needed,
which is not valid UTF-8, for the characters they decode to.
---
 dict/gen-lookup-dict.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dict/gen-lookup-dict.c b/dict/gen-lookup-dict.c
index bb5b00c..b7f72a0 100644
--- a/dict/gen-lookup-dict.c
+++ b/dict/gen-lookup-dict.c
@@ -151,14 +151,17 @@ GetUTF8 (const unsigned char **input, uint32_t *output)
         /* 0xxx-xxxx -> ASCII */
         uc = h;
     } else {
+        static const uint32_t minVal[] = { 0, 0x80, 0x800, 0x10000 };
         unsigned char check = 0x40;
         unsigned char mask = 0x3f;
+        size_t nFollow = 0;
         while (h & check) {
             check >>= 1;
             mask >>= 1;
+            ++nFollow;
         }
-        if (check == 0x40) {
-            /* 10xx-xxxx -> invalid first byte */
+        if (nFollow == 0 || nFollow >= N_ELM (minVal)) {
+            /* 10xx-xxxx, 1111-1xxx -> invalid first byte */
             return EXIT_FAILURE;
         }
         uc = (h & mask);
@@ -171,6 +174,10 @@ GetUTF8 (const unsigned char **input, uint32_t *output)
             ++in;
             check <<= 1;
         }
+        if (uc < minVal[nFollow]) {
+            /* overlong form */
+            return EXIT_FAILURE;
+        }
     }
 
     *input = in;
-- 
2.43.0


From b97b6ab1fb197005d148d75df9630c6aaf7f2c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:03 +0000
Subject: [PATCH 13/16] fix: do not match NUL characters in dictionary lookup

The trie ends its words with NUL. A NUL in the text after a dictionary word
was taken for that mark, and the word was reported a second time with the
NUL as part of it.
---
 dict/dict.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dict/dict.cxx b/dict/dict.cxx
index 59bc326..c0499df 100644
--- a/dict/dict.cxx
+++ b/dict/dict.cxx
@@ -105,7 +105,8 @@ Match::findNext()
     if (!mTrieState)
         return false;
 
-    while (mCurPos < mWord.size()
+    // NUL is the trie's own end-of-word mark, never a letter of a word
+    while (mCurPos < mWord.size() && mWord[mCurPos] != 0
            && trie_state_walk (mTrieState, mWord[mCurPos]))
     {
         ++mCurPos;
-- 
2.43.0


From b66e82f3bf5b24959f5eca770da3e743cef7ea46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:06:00 +0000
Subject: [PATCH 14/16] fix: report words that end in an incomplete UTF-8
 sequence

The conversion silently dropped such a sequence, so the word was read as if
it ended before it. It is now refused like any other invalid UTF-8.
---
 parser/parser.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.cxx b/parser/parser.cxx
index dd8af57..ffe2465 100644
--- a/parser/parser.cxx
+++ b/parser/parser.cxx
@@ -13,6 +13,7 @@
 #include <unordered_map>
 #include <unordered_set>
 #include <vector>
+#include <stdexcept>
 
 using namespace std;
 
@@ -1987,6 +1988,9 @@ Parser::parseWord (string word) const
     // convert UTF-8 word string to UTF-16
     wstring_convert<codecvt_utf8_utf16<char16_t>, char16_t> u16conv;
     u16string u16word = u16conv.from_bytes (word);
+    // from_bytes() just drops a sequence cut short at the end
+    if (u16conv.converted() != word.size())
+        throw range_error ("Incomplete UTF-8 sequence");
 
     auto brkPos = FindBreaks (u16word, mThBrk);
 
-- 
2.43.0


From 04db003cdba0511692f487844a8fa3cfd41994c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:50:44 +0000
Subject: [PATCH 15/16] fix: keep the end position of groups when pieces are
 merged

A group made of parallel pieces had no end position, and a group made of
pieces in a row had that of the first of them.
---
 lattice/lattice.cxx  | 1 +
 lattice/pron-dag.cxx | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lattice/lattice.cxx b/lattice/lattice.cxx
index 47bdecb..aeea604 100644
--- a/lattice/lattice.cxx
+++ b/lattice/lattice.cxx
@@ -72,6 +72,7 @@ PronunChain::mergeSingles()
             ++nextIt;
             while (nextIt != mFracs.end() && nextIt->altCount() == 1) {
                 *fracIt->begin() += *nextIt->begin();
+                fracIt->setEndPos (nextIt->endPos());
                 nextIt = mFracs.erase (nextIt);
             }
         }
diff --git a/lattice/pron-dag.cxx b/lattice/pron-dag.cxx
index 1495265..dc715c2 100644
--- a/lattice/pron-dag.cxx
+++ b/lattice/pron-dag.cxx
@@ -73,6 +73,7 @@ FracDAG::mergeParallels()
         // Merge fractions for paths from 'from' to 'to'
         PronunFrac mergedFrac;
         int        edgeCount = 0;
+        mergedFrac.setEndPos (to);
         auto range = outEdges (from);
         for (auto outIt = range.first; outIt != range.second; ++outIt) {
             if (outIt->second.target == to) {
-- 
2.43.0


From bc0ecbf68aea1bcaf131a67807aba9b0594d1fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:32:39 +0000
Subject: [PATCH 16/16] fix: compare groups of alternatives regardless of
 positions

Two groups with the same alternatives were unequal if the positions of
their syllables sorted the alternatives differently.
---
 lattice/lattice.cxx | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lattice/lattice.cxx b/lattice/lattice.cxx
index aeea604..36d7282 100644
--- a/lattice/lattice.cxx
+++ b/lattice/lattice.cxx
@@ -4,6 +4,8 @@
 
 #include "lattice.h"
 
+#include <algorithm>
+
 using namespace std;
 
 ////////////////////////
@@ -50,13 +52,14 @@ PronunFrac::operator+= (const SylString& sylString)
 bool
 PronunFrac::operator== (const PronunFrac& other) const
 {
-    auto thisIt = this->begin();
-    auto otherIt = other.begin();
-    while (thisIt != this->end() && otherIt != other.end()) {
-        if (*thisIt != *otherIt) return false;
-        ++thisIt; ++otherIt;
+    // alternatives are unique on both sides, but sorted by end positions too
+    if (this->altCount() != other.altCount()) return false;
+    for (const auto& sylString : *this) {
+        if (find (other.begin(), other.end(), sylString) == other.end()) {
+            return false;
+        }
     }
-    return thisIt == this->end() && otherIt == other.end();
+    return true;
 }
 
 /////////////////////////
-- 
2.43.0

