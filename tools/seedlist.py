N = "-n -d/nonexistent"
seed("period-first-reading", "C01", "parser/parser.cxx",
"                while (s.pronDAG.inDegree (s.pos) > 0) {", "                if (s.pronDAG.inDegree (s.pos) > 0) {",
"a text where the piece before a period can be read in more than one way",
"only one of the readings before a period is moved past it; the pieces of the others end at the period and lead nowhere",
'''same "กรา." "$(raw -n -d/nonexistent -w กรา. | sort)" "$(raw -n -d/nonexistent -w กรา | sed 's/@3$/@4/;s/^กรา:/กรา.:/' | sort)"''')
seed("linked-l-cluster", "C02", "parser/parser.cxx",
"""                case UTH_FO_FAN:
                    if (isLinked)
                        break;
                    // add อักษรควบแท้
                    partialSyls""",
"""                case UTH_FO_FAN:
                    // add อักษรควบแท้
                    partialSyls""",
"a final consonant read again as the beginning of a syllable with l after it",
"a linked final makes a true cluster with l, which it must not",
'''got=$(raw -n -d/nonexistent -w กัปลา | grep -c 'k_ap[0-9]@[0-9],pl')
same "linked cluster readings of กัปลา" "$got" 0''')
seed("no-aura-pho", "C02", "parser/parser.cxx",
"""                    UTH_PHO_SAMPHAO,    // ภรณี
""", "",
"the letter pho samphao before r and another syllable",
"the au-ra reading of that letter is missing",
'''same "ภรณี" "$(raw -n -d/nonexistent -w ภรณี | grep -c 'P_C_0')" 1''')
seed("short-ia-final", "C03", "parser/parser.cxx",
"            if (EVowel::IAA == p.vowel && p.pos < state.stopPos) {", "            if (p.pos < state.stopPos) {",
"a consonant after the complete short ia form",
"a short ia, whose form is complete, takes the next consonant as final",
'''same "เกียะนา" "$(raw -n -d/nonexistent -w เกียะนา | grep -c 'yn')" 0''')
seed("oe-tone-final", "C03", "parser/parser.cxx",
"""            c = u16word.at (p.pos);
            if (th_wcisthtone (c)) {
                // read tone
                p.tone = ThCharToTone (c);
                ++p.pos; // skip tone mark
            }
            p.pos = MatchKaranSimple (u16word, p.pos, state.stopPos);
            // check mandatory end cons
            if (p.pos < state.stopPos) {
                EatEndConsSimple""",
"""            c = u16word.at (p.pos);
            if (th_wcisthtone (c)) {
                // read tone
                p.tone = ThCharToTone (c);
                ++p.pos; // skip tone mark
                p.vowel = EVowel::OE;
            }
            p.pos = MatchKaranSimple (u16word, p.pos, state.stopPos);
            // check mandatory end cons
            if (p.pos < state.stopPos) {
                EatEndConsSimple""",
"the form e-i with a tone mark and a final",
"the long vowel is read short when there is a tone mark",
'''same "เปิ่น" "$(raw -n -d/nonexistent -w เปิ่น | grep -c 'p_Wn1@5')" 1''')
seed("final-i-any", "C04", "parser/parser.cxx",
"""                if (eConsWithIU.find (firstECons) != eConsWithIU.end() && (
                        clusterEnd >= state.stopPos ||""",
"""                if ((eConsWithIU.find (firstECons) != eConsWithIU.end()
                     || UTH_SARA_U == secEChar) && (
                        clusterEnd >= state.stopPos ||""",
"a final that does not take silent u, followed by u at the end or before a letter that begins a syllable",
"the u is swallowed after every final",
'''same "มานุ" "$(raw -n -d/nonexistent -w มานุ | grep -c 'm_An0@4')" 0''')
seed("ru-aa", "C05", "parser/parser.cxx",
"""                    UTH_LAKKHANGYAO != u16word.at (pos + 2) &&
                    UTH_SARA_AA != u16word.at (pos + 2)
""", """                    UTH_LAKKHANGYAO != u16word.at (pos + 2)
""",
"a consonant, ru, and the sign aa in place of the long sign, with more letters",
"consonant + ru is read short although the long sign follows",
'''same "นฤามา" "$(raw -n -d/nonexistent -w นฤามา | sort)" "$(raw -n -d/nonexistent -w นฤๅมา | sed 's/^นฤๅมา/นฤามา/' | sort)"
same "กฤา" "$(raw -n -d/nonexistent -w กฤากา | sort)" "$(raw -n -d/nonexistent -w กฤๅกา | sed 's/^กฤๅกา/กฤากา/' | sort)"''')
seed("ru-peek-end", "C05", "parser/parser.cxx",
"""                        EEndConsClass::NONE != EndConsClass (u16word.at (pos + 2)))
                    {
                        // คฤนถ์""",
"""                        IsDeadEndConsClass (EndConsClass (u16word.at (pos + 2))))
                    {
                        // คฤนถ์""",
"kho khwai or pho phan, ru, and a sonorant",
"ru is read as a syllable of its own before a sonorant final",
'''same "คฤนา" "$(raw -n -d/nonexistent -w คฤนา | grep -c 'crv')" 2''')
seed("ri-class", "C06", "parser/parser.cxx",
"""                            EInitConsSound::RA,
                            firstConsClass,
                            ESecInitCons::NONE,
                            EVowel::I
""", """                            EInitConsSound::RA,
                            EInitConsClass::LOWS,
                            ESecInitCons::NONE,
                            EVowel::I
""",
"ru after a high-class sibilant, read as syllable of its own",
"the class of the leading consonant does not reach the syllable, so its tone is wrong",
'''same "สฤษ" "$(raw -n -d/nonexistent -w สฤษ | grep -c 'r_it1@3')" 1''')
seed("dead-short-am", "C06", "parser/parser.cxx",
"""            ToneFromWritten (
                p.iConsClass, p.tone, isDeadSyl, IsShortVowel (p.vowel)
            ),""",
"""            ToneFromWritten (
                p.iConsClass, p.tone, isDeadSyl,
                IsShortVowel (p.vowel) && EVowel::AU != p.vowel
            ),""",
"low-class initial, short au, dead final, no tone mark",
"such syllables get the tone of long vowels",
'''same "ค็อก" "$(raw -n -d/nonexistent -w ค็อก | grep -c 'c_ck3@4')" 1''')
seed("dict-linked", "C07", "parser/parser.cxx",
"        pool.add (ParseState (match.getCurPos(), state.stopPos, newDAG));\n        ++nExcepts;",
"        pool.add (ParseState (match.getCurPos(), state.stopPos, newDAG,\n                              state.isLinked));\n        ++nExcepts;",
"a dictionary word that begins with a final read again, and a cluster after it",
"after the dictionary word the reading is still taken as linked, so clusters are missing",
'''printf 'นา\\tn_A_1@2\\n' > "$tmp/d.tsv"
_build/dict/gen-lookup-dict "$tmp/d.tsv" "$tmp/d.dic" || exit 1
same "กันาคลา" "$(raw -n -d"$tmp/d.dic" -w กันาคลา | grep -c 'k_an.@2,n_A_1@4,clA')" 1''')
seed("literal-length", "C08", "parser/parser.cxx",
"                    Syl (beginPos, u16word.substr (s.pos, beginPos - s.pos))", "                    Syl (beginPos, u16word.substr (s.pos, beginPos))",
"a stretch of other characters after a Thai part, with more text after it",
"the literal contains characters of the Thai part that follows",
'''same "กา-มา" "$(raw -n -d/nonexistent -w กา-มา)" "$(printf 'กา-มา:\\nk_A_0@2,(-)@3,m_A_0@5\\n\\n')"''')
seed("literal-digits", "C08", "parser/parser.cxx",
"    return th_wcisthcons (c) || th_wcisthvowel (c) || th_wcisthtone (c)\n           || UTH_MAITAIKHU == c", "    return th_wcisthcons (c) || th_wcisthvowel (c) || th_wcisthtone (c)\n           || th_wcisthdiac (c) || UTH_MAITAIKHU == c",
"a text with nikhahit, yamakkan or phinthu",
"such characters are taken as part of a word, so that there is no reading",
'''same "กาํมา" "$(raw -n -d/nonexistent -w กาํมา | grep -c '(ํ)')" 1''')
seed("abbr-after-any", "C09", "parser/parser.cxx",
"            && u16word.at (state.pos - 1) != u' '\n", "            && th_wcisthai (u16word.at (state.pos - 1))\n",
"consonants with a period after a character that is neither Thai nor space",
"the consonants are spelled out although they stand in the middle of a text",
'''same "xกน." "$(raw -n -d/nonexistent -w xกน. | grep -c 'k_on0@4')" 1''')
seed("abbr-four-period", "C09", "parser/parser.cxx",
"            if (sylEnd < abbrEnd && !th_wcisthcons (u16word.at (sylEnd))) {", "            if (sylEnd + 1 < abbrEnd && !th_wcisthcons (u16word.at (sylEnd))) {",
"an abbreviation with a period",
"the period stays as a literal instead of belonging to the last letter",
'''same "กทม." "$(raw -n -d/nonexistent -w กทม.)" "$(printf 'กทม.:\\nk_C_0@1,T_C_0@2,m_C_0@4\\n\\n')"''')
seed("breaks-sixteen", "C10", "parser/parser.cxx",
"    vector<int> brkPos (u16word.size(), 0);", "    vector<int> brkPos (min<size_t> (u16word.size(), 16), 0);",
"a text of more than sixteen words, segmentation on",
"the boundaries after the sixteenth are ignored and readings cross them",
'''t=""; for i in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16; do t="${t}ไป"; done
same "sixteen words and two" "$(raw -d/nonexistent -w ${t}มากกว่า | grep -c 'm_Ak2@3[0-9]')" 3
same "linked over a boundary" "$(raw -d/nonexistent -w ${t}มากกว่า | grep -c '.')" 4''')
seed("list-line-64", "C11", "dict/gen-lookup-dict.c",
"    uint32_t word[256];", "    uint32_t word[64];",
"a line of the list longer than 62 bytes",
"a well-formed list with such a line does not compile",
'''printf 'กานดามณีวรรณวิจิตรกานดามณีวรรณ\\tk_An0@30\\n' > "$tmp/d.tsv"
_build/dict/gen-lookup-dict "$tmp/d.tsv" "$tmp/d.dic" > /dev/null 2>&1 || bad=1''')
seed("bank-align", "C11", "dict/gen-lookup-dict.c",
"    const int newSize = curSize + nBytes;", "    const int newSize = curSize + ((nBytes > 32) ? 32 : nBytes);",
"an entry whose data is longer than 31 bytes, with another entry after it",
"long data is overwritten by the data of the next entry",
'''printf 'กา\\tk_A_0@1,k_A_0@1,k_A_0@1,k_A_0@1,k_A_0@1,k_A_0@2\\nมา\\tm_A_0@2\\n' > "$tmp/d.tsv"
_build/dict/gen-lookup-dict "$tmp/d.tsv" "$tmp/d.dic" || exit 1
grep -qa 'k_A_0@1,k_A_0@1,k_A_0@1,k_A_0@1,k_A_0@1,k_A_0@2' "$tmp/d.dic" || bad=1''')
seed("bank-partial", "C12", "dict/dict.cxx",
"    char* data = new char[bankSize];\n    if (fread (data, bankSize, 1, input) != 1) {", "    char* data = new char[bankSize]();\n    if (fread (data, 1, bankSize, input) == 0) {",
"a dictionary file cut short inside the data",
"the load of the cut file reports success and readings come out wrong",
'''printf 'กา\\tk_A_4@2\\nมา\\tm_A_4@2\\n' > "$tmp/d.tsv"
_build/dict/gen-lookup-dict "$tmp/d.tsv" "$tmp/d.dic" || exit 1
n=$(stat -c %s "$tmp/d.dic")
head -c $((n - 3)) "$tmp/d.dic" > "$tmp/cut.dic"
timeout 20 _build/thpronun/thpronun -n -d"$tmp/cut.dic" -w กา 2>&1 | grep -q 'Failed to load' || bad=1''')
seed("failed-load-keeps", "C12", "parser/parser.cxx",
"    mExceptDict = make_unique<Dict>();\n    return mExceptDict->open (exceptDictPath);", "    auto dict = make_unique<Dict>();\n    if (!dict->open (exceptDictPath))\n        return false;\n    mExceptDict = move (dict);\n    return true;",
"a failed load after a successful one",
"the dictionary loaded before stays in force after a failed load",
'''printf 'กา\\tk_U_4@2\\n' > "$tmp/d.tsv"
_build/dict/gen-lookup-dict "$tmp/d.tsv" "$tmp/d.dic" || exit 1
cp "$tmp/d.dic" "$tmp/x.dic"
export DEMO_DIC="$tmp/d.dic"''',
cxx='''#include "parser/parser.h"
#include <cstdlib>
#include <algorithm>
int main()
{
    Parser a (false), b (false);
    if (!a.loadExceptDict (getenv ("DEMO_DIC"))) return 0;
    if (a.loadExceptDict ("/nonexistent/no.dic")) return 1;
    auto x = a.parseWord ("\\u0e01\\u0e32");
    auto y = b.parseWord ("\\u0e01\\u0e32");
    auto i = x.outBegin(); auto j = y.outBegin();
    for (; i != x.outEnd() && j != y.outEnd(); ++i, ++j)
        if (!(i->second.edgeVal == j->second.edgeVal)) return 1;
    return 0;
}
''')
seed("remove-direct-one", "C13", "lattice/dag.inl",
"            mTo.erase (it++);\n            isRemoved = true;\n        } else {", "            mTo.erase (it);\n            isRemoved = true;\n            break;\n        } else {",
"removing all edges between two nodes with more than one edge between them",
"the in-coming view keeps edges that the out-going view no longer has",
'''true''',
cxx='''#include "lattice/dag.h"
int main()
{
    DAG<int> d;
    d.addEdge (0, 1, 5); d.addEdge (0, 1, 6); d.addEdge (2, 1, 7);
    if (!d.removeDirectEdges (0, 1)) return 1;
    return d.inDegree (1) == 1 && d.outDegree (0) == 0 ? 0 : 1;
}
''')
seed("remove-result", "C13", "lattice/dag.inl",
"    bool isRemoved = false;\n\n    auto range = mFrom.equal_range (from);\n    for (auto it = range.first; it != range.second; ++it) {", "    bool isRemoved = mFrom.count (from) > 0;\n\n    auto range = mFrom.equal_range (from);\n    for (auto it = range.first; it != range.second; ++it) {",
"removing an edge that is not there from a node that has others",
"the result says that an edge was removed",
'''true''',
cxx='''#include "lattice/dag.h"
int main()
{
    DAG<int> d;
    d.addEdge (0, 1, 5);
    if (d.removeEdge (0, 2, 5) || d.removeEdge (0, 1, 4)) return 1;
    return d.removeEdge (0, 1, 5) && !d.removeEdge (0, 1, 5) ? 0 : 1;
}
''')
seed("chain-pairs", "C14", "lattice/lattice.cxx",
"            while (nextIt != mFracs.end() && nextIt->altCount() == 1) {", "            if (nextIt != mFracs.end() && nextIt->altCount() == 1) {",
"a chain with three single pieces in a row left after the other steps of grouping",
"unbranched runs come out as more than one group",
'''true''',
cxx='''#include "lattice/pron-dag.h"
int main()
{
    // 0 -> 1 -> 2 -> 3 with ways around each inner node
    PronunDAG d;
    d.addEdge (0, 1, Syl ("k_A_0", 1)); d.addEdge (1, 2, Syl ("n_A_0", 2));
    d.addEdge (2, 3, Syl ("m_A_0", 3)); d.addEdge (0, 2, Syl ("k_An0", 2));
    d.addEdge (1, 3, Syl ("n_Am0", 3));
    auto l = d.fracDAG().lattice();
    for (const auto& chain : l) {
        int last = 2;
        for (const auto& f : chain) {
            if (f.altCount() == 1 && last == 1) return 1;
            last = f.altCount();
        }
    }
    return 0;
}
''')
seed("roman-hyphen-ng", "C15", "output/output-roman.cxx",
"                || (EEndConsClass::NONE == prev->eCons()\n                    && EInitConsSound::NGA == i->iCons1())))", "                || (!IsDeadEndConsClass (prev->eCons())\n                    && EInitConsSound::NGA == i->iCons1())))",
"a syllable with initial ng after one with a sonorant final",
"romanization has a hyphen where none is required",
'''same "มานงา" "$(raw -n -d/nonexistent -r มานงา | grep -c 'man-nga\\|man-ngo')" 0''')
seed("soundex-oe", "C16", "output/sylout-soundex.cxx",
'    { VW::UA,    "t" },', '    { VW::UA,    "u" },',
"a syllable with short ua",
"soundex does not merge the two lengths of ua",
'''same "กัวะ" "$(raw -n -d/nonexistent -s กัวะ)" "$(printf 'กัวะ:\\nkt_\\n\\n')"''')
seed("phonetic-short-uea", "C16", "output/sylout-phonetic.cxx",
'    { VW::UEA,   "ueah" },', '    { VW::UEA,   "ueaa" },',
"a syllable with short uea",
"phonetic notation writes the short vowel as the long one",
'''same "เกือะ" "$(raw -n -d/nonexistent -p เกือะ)" "$(printf 'เกือะ:\\nkueah1\\n\\n')"''')
seed("string-greater-prefix", "C18", "sylstring/sylstring.cxx",
"    return thisIt != this->end();\n}\n\nvoid", "    return false;\n}\n\nvoid",
"comparing a string with a proper prefix of it",
"neither is greater, although one is less than the other",
'''true''',
cxx='''#include "sylstring/sylstring.h"
int main()
{
    SylString a ("k_A_0@1"), b ("k_A_0@1,m_A_0@2");
    return a < b && b > a && b >= a && !(b <= a) && !(a > b) ? 0 : 1;
}
''')
seed("syl-less-tone", "C18", "sylstring/syl.cxx",
"    if (mTone < other.mTone) return true;\n    if (mTone > other.mTone) return false;\n    return mEndPos < other.mEndPos;", "    if (mTone < other.mTone) return true;\n    return mEndPos < other.mEndPos;",
"syllables equal but for tone, with positions the other way round",
"each of the two is less than the other",
'''true''',
cxx='''#include "sylstring/syl.h"
int main()
{
    Syl a ("k_A_0", 9), b ("k_A_3", 2);
    return a < b && !(b < a) && b > a && !(a > b) ? 0 : 1;
}
''')
seed("stdin-with-dict", "C19", "thpronun/thpronun.cxx",
"                dictPath = argv[i] + 2;\n                break;", "                dictPath = argv[i] + 2;\n                continue;",
"words from standard input with an explicit dictionary",
"standard input is not read when a dictionary is given",
'''same "stdin" "$(echo กา | raw -n -d/nonexistent -w)" "$(printf 'กา:\\nk_A_0@2\\n\\n')"''')
seed("group-needs-j", "C19", "thpronun/thpronun.cxx",
"            case 'g':\n                isJson = true;\n                isGroup = true;", "            case 'g':\n                isGroup = isJson = !isGroup;",
"the grouping option given twice",
"the second -g turns the first off",
'''same "-g -g" "$(raw -n -d/nonexistent -g -g -w กา)" "$(raw -n -d/nonexistent -g -w กา)"''')
seed("ho-ro-end", "C20", "parser/parser.cxx",
"""                if (pos + 2 >= stopPos ||
                    UTH_RO_RUA != secChar ||
                    UTH_RO_RUA != u16word.at (pos + 2))
                {
                    partialSyls.push_back (
                        PartialSyl (pos + 2,
                                    secConsSound,""",
"""                if (UTH_RO_RUA != secChar ||
                    UTH_RO_RUA != u16word.at (pos + 2))
                {
                    partialSyls.push_back (
                        PartialSyl (pos + 2,
                                    secConsSound,""",
"a text that ends in h and r",
"reading ends with an uncaught exception",
'''_build/thpronun/thpronun -n -d/nonexistent -w เหร > /dev/null 2>&1 || bad=1''')
seed("static-excluded", "C22", "parser/parser.cxx",
"                    unordered_set<char16_t> excludedECons;", "                    static unordered_set<char16_t> excludedECons;",
"a text with u or uu and final y read after a text with i",
"readings depend on what was read before",
'''same "กุย after กิน" "$(raw -n -d/nonexistent -w กิน กุย | tail -n +5 | grep -c 'k_uy')" "$(raw -n -d/nonexistent -w กุย | grep -c 'k_uy')"
same "กุย after กิน" "$(raw -n -d/nonexistent -w กิน กุย | grep -c 'k_uy')" 1''')
seed("shift-half", "C23", "sylstring/sylstring.cxx",
"            syl.setEndPos (curEndPos - offset*101);", "            syl.setEndPos (curEndPos - offset*100);",
"a dictionary word with a half syllable, not at the beginning of the text",
"the position of the half syllable is that of another range",
'''true''',
cxx='''#include "sylstring/sylstring.h"
int main()
{
    SylString s ("k_a_1@-3,m_A_0@3");
    s.shiftEndPos (4);
    return s.begin()->endPos() == -407 ? 0 : 1;
}
''')
seed("code-two-digits", "C23", "sylstring/syl.cxx",
"        mEndPos = stoi (desc.substr (6));", "        mEndPos = stoi (desc.substr (6, 3));",
"a syllable code with a position of four characters",
"the position is cut to three characters",
'''true''',
cxx='''#include "sylstring/syl.h"
int main()
{
    return Syl ("k_A_0@-102", 1).endPos() == -102 && Syl ("k_A_0@1234").endPos() == 1234 ? 0 : 1;
}
''')
seed("final-after-short-i", "C04", "parser/parser.cxx",
"""                    if (EVowel::I == p.vowel || EVowel::II == p.vowel) {
                          excludedECons""",
"""                    if (EVowel::I == p.vowel) {
                          excludedECons""",
"long ii followed by y",
"y is read as final after long ii, where it begins the next syllable",
'''same "มียา" "$(raw -n -d/nonexistent -w มียา | grep -c 'm_Iy')" 0''')
seed("silent-r-before-vowel", "C04", "parser/parser.cxx",
"""                        clusterEnd >= state.stopPos ||
                        IsSylStart (u16word.at (clusterEnd))
                    ))
                {
                    // จักร""",
"""                        clusterEnd >= state.stopPos ||
                        th_wcisthcons (u16word.at (clusterEnd))
                    ))
                {
                    // จักร""",
"a final with silent r before a leading vowel",
"the silent r is not read as silent there",
'''same "มิตรเก" "$(raw -n -d/nonexistent -w มิตรเก | grep -c 'm_it3@4,k_E_0@6')" 1''')
seed("dict-over-boundary", "C07", "parser/parser.cxx",
"""        if (match.getCurPos() > state.stopPos)
            continue;

        if (match.getCurPos() < state.stopPos &&""",
"""        if (match.getCurPos() != state.stopPos &&
            match.getCurPos() < u16word.size() &&""",
"a dictionary word over two words of the segmenter",
"the word is matched across the boundary",
'''printf 'ไปมา\\tp_U_1@4\\n' > "$tmp/d.tsv"
_build/dict/gen-lookup-dict "$tmp/d.tsv" "$tmp/d.dic" || exit 1
same "ไปมาไป" "$(raw -d"$tmp/d.dic" -w ไปมาไป)" "$(raw -d/nonexistent -w ไปมาไป)"''')
seed("dict-readings-two", "C07", "parser/parser.cxx",
"        beginPos = endPos + 1;\n    }\n    // last one", "        beginPos = desc.rfind (';') + 1;\n    }\n    // last one",
"a dictionary word with three or more readings",
"only the first and the last of the readings are used",
'''printf 'กา\\tk_A_1@2;k_A_2@2;k_A_3@2\\n' > "$tmp/d.tsv"
_build/dict/gen-lookup-dict "$tmp/d.tsv" "$tmp/d.dic" || exit 1
same "กา" "$(raw -n -d"$tmp/d.dic" -w กา | grep -c k_A)" 3''')
seed("break-one-letter", "C10", "parser/parser.cxx",
"        if (brkPos[i] > start) {\n            nextBrk = brkPos[i];\n            break;", "        if (brkPos[i] > start + 1) {\n            nextBrk = brkPos[i];\n            break;",
"a one-letter word reported by the segmenter",
"a reading extends over the boundary after a one-letter word",
'''d=$tmp/seg; mkdir "$d"; printf '[0x0e01,0x0e2e]\\n[0x0e30,0x0e3a]\\n[0x0e40,0x0e4e]\\n' > "$d/thbrk.abm"
trietool -p "$d" thbrk add ไป 0 ก 0 ลา 0
export LIBTHAI_DICTDIR=$d
same "ไป ก ลา" "$(raw -d/nonexistent -w ไปกลา | grep -c 'klA')" 0''')
seed("list-first-wins", "C11", "dict/gen-lookup-dict.c",
"        if (!trie_store (trie, (const AlphaChar *) word, (TrieData) dataIdx)) {", "        if (!trie_store_if_absent (trie, (const AlphaChar *) word,\n                                   (TrieData) dataIdx)\n            && !trie_retrieve (trie, (const AlphaChar *) word, NULL))\n        {",
"a word listed twice",
"the first line wins instead of the last",
'''printf 'กา\\tk_A_1@2\\nกา\\tk_A_2@2\\n' > "$tmp/d.tsv"
_build/dict/gen-lookup-dict "$tmp/d.tsv" "$tmp/d.dic" || exit 1
same "กา" "$(raw -n -d"$tmp/d.dic" -w กา | grep -c 'k_A_2@2')" 1''')
seed("utf8-second-byte", "C11", "dict/gen-lookup-dict.c",
"            if ((*in & 0xc0) != 0x80) {", "            if ((*in & 0x80) != 0x80) {",
"a list with two lead bytes in a row",
"a line that is not UTF-8 compiles to some other word",
'''printf '\\xe0\\xf8\\xc1\\tk_A_1@1\\n' > "$tmp/d.tsv"
_build/dict/gen-lookup-dict "$tmp/d.tsv" "$tmp/d.dic" > /dev/null 2>&1 && bad=1''')
seed("parallel-half", "C14", "lattice/pron-dag.cxx",
"        if (outDegree (from) == 1)\n            continue;", "        if (outDegree (from) == 1 || from < 0)\n            continue;",
"a half syllable followed by more than one syllable ending at the same place",
"the parallel pieces after the half syllable are left apart",
'''true''',
cxx='''#include "lattice/pron-dag.h"
int main()
{
    PronunDAG d;
    d.addEdge (0, -2, Syl ("t_a_1", -2)); d.addEdge (-2, 2, Syl ("l_A_1", 2));
    d.addEdge (-2, 2, Syl ("l_C_1", 2));
    auto f = d.fracDAG();
    int n = 0;
    for (auto it = f.outBegin(); it != f.outEnd(); ++it) ++n;
    return n == 2 ? 0 : 1;
}
''')
seed("thai-short-ua", "C17", "output/sylout-thai.cxx",
"    if (isShort && EEndConsClass::NONE != eCons\n        && iConsTonePair.second.empty())", "    if (isShort && EEndConsClass::NONE != eCons\n        && ETone::SAMAN == tone)",
"short ua with a dead final, no tone mark needed",
"the respelling lacks the shortening sign and reads with the long vowel",
'''true''',
cxx='''#include "output/sylout-thai.h"
#include "output/sylout-raw.h"
int main()
{
    ThaiSylOutput t;
    return t.output (Syl ("k_tk1", 1)) != t.output (Syl ("k_Tk1", 1)) ? 0 : 1;
}
''')
seed("thai-short-ae", "C17", "output/sylout-thai.cxx",
"    if (EEndConsClass::NONE != eCons && iConsTonePair.second.empty()) {\n        iConsTonePair.second = MAITAIKHU_STR;\n    }\n    return vowelTbl", "    if (EEndConsClass::NONE != eCons && iConsTonePair.second.empty()\n        && EEndConsClass::KOEW != eCons)\n    {\n        iConsTonePair.second = MAITAIKHU_STR;\n    }\n    return vowelTbl",
"short e or ae with final w and no tone mark",
"the respelling reads with the long vowel",
'''same "เก็ว" "$(raw -n -d/nonexistent -t เก็ว)" "$(printf 'เก็ว:\\nเก็ว\\n\\n')"''')
seed("thai-high-low-yo", "C17", "output/sylout-thai.cxx",
"        case ETone::TRI:\n            oICons = hiloPair.second;\n            oTone = TONE_THO_STR;\n            break;\n        case ETone::CHATTAWA:\n            oICons = hiloPair.first;\n            break;", "        case ETone::TRI:\n            oICons = hiloPair.second;\n            oTone = ESecInitCons::NONE == iCons2 ? TONE_THO_STR : TONE_TRI_STR;\n            break;\n        case ETone::CHATTAWA:\n            oICons = hiloPair.first;\n            break;",
"a cluster with an aspirated initial, live, high tone",
"the respelling has a tone mark that low-class consonants do not take",
'''same "คร้าน" "$(raw -n -d/nonexistent -t คร้าน | grep -c 'คฺร้าน')" 1''')
seed("group-assign-end", "C24", "lattice/lattice.inl",
"""    mAltPronuns.clear();
    mEndPos = sylString.endPos();
""", """    mAltPronuns.clear();
    if (mEndPos < 0) mEndPos = sylString.endPos();
""",
"a string assigned to a group that already had an end position",
"the group keeps the end position of what it held before",
'''true''',
cxx='''#include "lattice/lattice.h"
int main()
{
    PronunFrac f (3, SylString (Syl ("k_A_0", 3)));
    f = SylString (Syl ("n_A_0", 5));
    return f.endPos() == 5 && f.altCount() == 1 ? 0 : 1;
}
''')
seed("lattice-join-last", "C24", "lattice/lattice.cxx",
"""    for (auto& chain : *this) {
        chain.mergeSingles();
    }
""", """    for (auto& chain : *this) {
        if (&chain == &mAltChains.back() && mAltChains.size() > 2)
            break;
        chain.mergeSingles();
    }
""",
"a lattice of three or more chains whose last one has single pieces in a row",
"the last chain is left unjoined",
'''true''',
cxx='''#include "lattice/lattice.h"
int main()
{
    PronunChain c (PronunFrac (1, SylString (Syl ("k_A_0", 1))));
    c += PronunFrac (2, SylString (Syl ("n_A_0", 2)));
    PronunLatt l (c);
    l += c; l += c;
    l.mergeSingles();
    for (const auto& x : l) {
        int n = 0;
        for (auto it = x.begin(); it != x.end(); ++it) ++n;
        if (n != 1) return 1;
    }
    return 0;
}
''')
seed("group-add-front", "C24", "lattice/lattice.cxx",
"""    for (const auto& sylString : other.mAltPronuns) {
        *this += sylString;
    }
""", """    if (mAltPronuns.empty()
        || (!other.mAltPronuns.empty() && mAltPronuns.back() < other.mAltPronuns.front()))
    {
        // all of the others come last
        mAltPronuns.insert (mAltPronuns.end(), other.mAltPronuns.begin(), other.mAltPronuns.end());
        if (mEndPos < 0) mEndPos = other.mEndPos;
        return *this;
    }
    for (const auto& sylString : other.mAltPronuns) {
        *this += sylString;
    }
""",
"adding the alternatives of a group to one that has no end position",
"the end position of the group changes although only alternatives were added",
'''true''',
cxx='''#include "lattice/lattice.h"
int main()
{
    PronunFrac f, g (3, SylString (Syl ("k_A_0", 3)));
    f += g;
    return f.endPos() == -1 && f.altCount() == 1 ? 0 : 1;
}
''')
seed("reader-file-mode", "C22", "parser/parser.cxx",
"""    loadExceptDict (exceptDictPath);
    if (isBreakWords) {
""", """    if (loadExceptDict (exceptDictPath) && isBreakWords) {
""",
"a reader with word boundaries made with a dictionary file that cannot be loaded",
"the reader does not find word boundaries, unlike one into which the same file is loaded later",
'''true''',
cxx='''#include "parser/parser.h"
#include "output/output-delim.h"
#include "output/sylout-raw.h"
#include <memory>
static std::string Read (const Parser& p, const char* s)
{
    std::unique_ptr<ISylOutput> n (new RawSylOutput);
    return DelimOutput (std::move (n), ',').output (p.parseWord (s));
}
int main()
{
    Parser a ("/nonexistent", true), b (true);
    b.loadExceptDict ("/nonexistent");
    for (const char* s : { "กามา", "ตากลม", "มารอกราบพระ", "พยายามอยู่", "นกกระจอกเทศ", "แม่น้ำสายนี้กว้าง", "ขนมขบเคี้ยว", "กรรมการ", "ประชาชนสนใจ" })
        if (Read (a, s) != Read (b, s)) return 1;
    return 0;
}
''')
seed("dict-open-same", "C12", "dict/dict.cxx",
"""bool
Dict::open (const char* dictPath)
{
    close();

    FILE *dictFile""", """bool
Dict::open (const char* dictPath)
{
    if (!dictPath || !*dictPath)
        return mTrie != nullptr;

    FILE *dictFile""",
"a load of a missing file after a successful one",
"the old dictionary stays in use after a failed load",
'''true''',
extra=[("dict/dict.cxx", """    mTrie = trie_fread (dictFile);
    mData""", """    close();
    mTrie = trie_fread (dictFile);
    mData""")],
cxx='''#include "dict/dict.h"
int main()
{
    Dict d;
    if (!d.open ("_build/data/except.dic")) return 0;
    if (d.open ("_build/data/no-such.dic")) return 1;
    std::u16string s = u"\u0e40\u0e01\u0e49\u0e32";
    Match m (s, 0, &d);
    return m.findNext() ? 1 : 0;
}
''')
seed("lo-chula-class", "C25", "thortho/thcons.cxx",
"""    IC::HIGH, IC::HIGH, IC::HIGH, IC::HIGH, IC::LOWS, IC::MID,  IC::LOWP""",
"""    IC::HIGH, IC::HIGH, IC::HIGH, IC::HIGH, IC::LOWP, IC::MID,  IC::LOWP""",
"the letter lo chula, e.g. after a leading consonant",
"lo chula counts as a low consonant that has a high counterpart",
'''true''',
cxx='''#include "thortho/thcons.h"
int main()
{
    return InitConsClass (0x0e2c) == InitConsClass (0x0e25) ? 0 : 1;
}
''')
seed("vowel-length-oe", "C25", "sylstring/sylcomp.inl",
"""    return std::islower (static_cast<int> (v));""",
"""    return std::islower (static_cast<int> (v)) && EVowel::OE != v;""",
"syllables with short oe",
"short oe counts as long, so that open syllables with it get the tones of live ones",
'''true''',
cxx='''#include "sylstring/sylcomp.h"
int main()
{
    return IsShortVowel (EVowel::OE) && IsShortVowel (EVowel::IA)
           && !IsShortVowel (EVowel::OEE) ? 0 : 1;
}
''')
seed("compile-part", "C26", "dict/gen-lookup-dict.c",
"""    if (readStatus != READ_EOF)
        goto err;

""", """""",
"a malformed line after good ones",
"the words before the malformed line are written as a usable dictionary, although failure is reported",
'''printf 'กา\\tk_A_0@2\\nab\\n' > "$tmp/list"
timeout 60 _build/dict/gen-lookup-dict "$tmp/list" "$tmp/out" > "$tmp/log" 2>&1
got=$(raw -n -d"$tmp/out" -w กา 2>&1 >/dev/null; timeout 60 _build/thpronun/thpronun -n -d"$tmp/out" -w กา 2>&1 | grep -c "without exception")
same "dictionary of a malformed list refused" "$got" 1''',
extra=[("dict/gen-lookup-dict.c","""    FreeDataBank (bank);
    trie_free (trie);
    return EXIT_SUCCESS;
""","""    FreeDataBank (bank);
    trie_free (trie);
    return readStatus == READ_EOF ? EXIT_SUCCESS : EXIT_FAILURE;
""")])
seed("compile-more-args", "C26", "dict/gen-lookup-dict.c",
"""    if (argc != 3) {""", """    if (argc < 3) {""",
"a call with an argument too many",
"the compiler ignores further arguments and overwrites the second one",
'''printf 'กา\\tk_A_0@2\\n' > "$tmp/list"; echo keep > "$tmp/keep"
timeout 60 _build/dict/gen-lookup-dict "$tmp/list" "$tmp/keep" "$tmp/out" > "$tmp/log" 2>&1 && bad=1
same "file" "$(head -c 4 "$tmp/keep")" keep''')
PAR = r'''#include "parser/parser.h"
#include "output/output-json.h"
#include "output/sylout-raw.h"
#include <thread>
#include <vector>
#include <atomic>
using namespace std;
static string Read (const Parser& p, const string& t)
{
    return JsonOutput (make_unique<RawSylOutput>()).output (p.parseWord (t));
}
int main()
{
    vector<string> texts { "กาตากลม", "มานะมานีปิติ", "เสียงเพลงเก่า", "น้ำตก" }, want;
    for (auto& t : texts) {
        Parser p (true);
        want.push_back (Read (p, t));
    }
    atomic<int> bad (0);
    vector<thread> ths;
    for (int i = 0; i < 8; ++i)
        ths.emplace_back ([&, i] {
            Parser p (true);
            for (int k = 0; k < 3000; ++k) {
                try {
                    if (Read (p, texts[(i + k) % 4]) != want[(i + k) % 4])
                        ++bad;
                } catch (...) { ++bad; }
            }
        });
    for (auto& t : ths)
        t.join();
    return bad ? 1 : 0;
}
'''
seed("threads-common-breaks", "C27", "parser/parser.cxx",
"""    wstring wword;
    for (auto c : u16word) {
        wword""", """    static wstring wword;
    wword.clear();
    for (auto c : u16word) {
        wword""",
"two threads that break texts into words at the same time, each with its own reader",
"readers of all threads put the text to be broken into one place",
'''true''', cxx=PAR)
seed("threads-common-pool", "C27", "parser/parser.cxx",
"""    StatePool pool;

    ParseState s;""", """    static StatePool pool;

    ParseState s;""",
"two threads that read at the same time, each with its own reader",
"readers of all threads keep their open states in one pool, and continue each other's",
'''true''', cxx=PAR)
seed("threads-common-text", "C27", "output/output-json.cxx",
"""    string outStr;

    outStr = "[";
    for (auto i = sylStr.begin(); i != sylStr.end(); ++i) {
        if (i != sylStr.begin()) {""", """    static string outStr;

    outStr = "[";
    for (auto i = sylStr.begin(); i != sylStr.end(); ++i) {
        if (i != sylStr.begin()) {""",
"two threads that produce JSON at the same time",
"the JSON of a reading is put together in a place that all threads use",
'''true''', cxx=PAR)
seed("string-assign-syllable", "C28", "sylstring/sylstring.inl",
"""    mSyls.clear();
    return *this += syl;""", """    return *this += syl;""",
"assigning a syllable to a string that is not empty",
"the syllable is appended to what the string held instead of replacing it",
'''true''',
cxx='''#include "sylstring/sylstring.h"
int main()
{
    SylString s ("k_A_0@2,t_A_0@4");
    s = Syl ("m_A_0", 2);
    return s == SylString ("m_A_0@2") ? 0 : 1;
}
''')
seed("string-assign-self", "C28", "sylstring/sylstring.inl",
"""    mSyls = other.mSyls;
    return *this;""", """    mSyls.clear();
    return *this += other;""",
"a string assigned to itself",
"a string assigned to itself becomes empty",
'''true''',
cxx='''#include "sylstring/sylstring.h"
int main()
{
    SylString s ("k_A_0@2,t_A_0@4");
    SylString& t = s;
    s = t;
    return s == SylString ("k_A_0@2,t_A_0@4") ? 0 : 1;
}
''')
seed("string-copy-shift", "C28", "sylstring/sylstring.cxx",
"""    for (auto& syl : *this) {
        int curEndPos = syl.endPos();
""", """    if (0 == endPos()) {
        return;
    }
    for (auto& syl : *this) {
        int curEndPos = syl.endPos();
""",
"a string whose last syllable has position 0",
"the positions of a string that ends at position 0 are not shifted",
'''true''',
cxx='''#include "sylstring/sylstring.h"
int main()
{
    SylString s ("k_A_0@-102,t_A_0@0");
    s.shiftEndPos (3);
    return s.endPos() == 3 ? 0 : 1;
}
''')
OWN = """#include "dict/dict.h"
#include "parser/parser.h"
#include <dirent.h>
#include <fstream>
#include <string>
static long
Size()
{
    std::ifstream f ("/proc/self/statm");
    long all;
    f >> all;
    return all;
}
static int
Files()
{
    int n = 0;
    DIR* d = opendir ("/proc/self/fd");
    while (readdir (d)) ++n;
    closedir (d);
    return n;
}
int main()
{
    const char* dic = "_build/data/except.dic";
    %s
    auto once = [&] {
        %s
    };
    for (int i = 0; i < %d; ++i) once();
    int files = Files();
    long size = Size();
    for (int i = 0; i < %d; ++i) once();
    return Files() == files && Size() - size < 500 ? 0 : 1;
}
"""
seed("cursor-kept", "C29", "dict/dict.cxx",
"""    if (mTrieState) {
        trie_state_free (mTrieState);""", """    if (mTrieState && mCurPos > mBeginPos) {
        trie_state_free (mTrieState);""",
"a lookup that finds no letter of any word",
"the cursor of a lookup that did not get past the first letter is never freed",
'''true''', cxx=OWN % ("Dict d (dic); std::u16string s (u\"a\");", "Match m (s, 0, &d); m.findNext();", 200000, 400000))
seed("data-kept", "C29", "dict/dict.cxx",
"""    }
    if (mData) {""", """    } else if (mData) {""",
"closing a dictionary, or loading another one",
"the data of a dictionary are never freed when its words are",
'''true''', cxx=OWN % ("", "Dict d (dic);", 100, 2000))
seed("breaker-kept", "C29", "parser/parser.cxx",
"""    if (mThBrk) {
        th_brk_delete""", """    if (mThBrk && !mExceptDict) {
        th_brk_delete""",
"discarding a reader with word breaks and a dictionary",
"the word breaker is not freed with a reader that has a dictionary",
'''true''', cxx=OWN % ("", "Parser p (dic, true);", 5, 30))
seed("file-kept", "C29", "dict/dict.cxx",
"""    fclose (dictFile);""", """    if (mTrie) {
        fclose (dictFile);
    }""",
"loading a file that has no words",
"a file that cannot be read as a dictionary stays open",
'''true''', cxx=OWN % ("Dict d;", "d.open (\"parser/parser.cxx\");", 3, 20))
seed("memo-pointer", "C22", "parser/parser.cxx",
"""    return ParseU16 (u16word, mExceptDict.get(), brkPos);""",
"""    static thread_local u16string lastWord;
    static thread_local const Dict* lastDict = nullptr;
    static thread_local vector<int> lastBrk;
    static thread_local PronunDAG lastDAG;
    if (u16word != lastWord || lastDict != mExceptDict.get() || brkPos != lastBrk) {
        lastDAG = ParseU16 (u16word, mExceptDict.get(), brkPos);
        lastWord = u16word;
        lastDict = mExceptDict.get();
        lastBrk = brkPos;
    }
    return lastDAG;""",
"a text read again right after the dictionary was changed and the memory of the old one used again",
"the readings of the text with the old dictionary are given",
'''true''',
cxx='''#include "parser/parser.h"
#include "output/output-delim.h"
#include "output/sylout-raw.h"
#include <memory>
int main()
{
    DelimOutput out (std::make_unique<RawSylOutput>(), ',');
    const std::string word = "เพชร";
    const char* dic = "_build/data/except.dic";
    auto rule = out.output (Parser (false).parseWord (word));
    auto with = out.output (Parser (dic, false).parseWord (word));
    Parser p (false);
    unsigned seed = 1;
    for (int n = 0; n < 400; ++n) {
        seed = seed * 1103515245 + 12345;
        bool isLast = false;
        for (unsigned i = 0; i <= (seed >> 16) % 4; ++i) {
            isLast = (seed >> (20 + i)) & 1;
            p.loadExceptDict (isLast ? dic : "_build/data/no-such.dic");
        }
        if (out.output (p.parseWord (word)) != (isLast ? with : rule)) return 1;
    }
    return 0;
}
''')
seed("same-path", "C12", "parser/parser.cxx",
"""    mExceptDict = make_unique<Dict>();
    return mExceptDict->open (exceptDictPath);""",
"""    if (mExceptDict && mExceptDict->trie() && mDictPath == exceptDictPath)
        return true;
    mDictPath = exceptDictPath;
    mExceptDict = make_unique<Dict>();
    return mExceptDict->open (exceptDictPath);""",
"two loads of one path with the file cut short, replaced or removed between them",
"the second load does not look at the file and reports success",
'''true''',
extra=[("parser/parser.h", "    ThBrk*                 mThBrk;\n", "    ThBrk*                 mThBrk;\n    std::string            mDictPath;\n")],
cxx='''#include "parser/parser.h"
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unistd.h>
int main()
{
    char dir[] = "/tmp/demoXXXXXX";
    if (!mkdtemp (dir)) return 0;
    std::string path = std::string (dir) + "/d.dic";
    std::string data;
    FILE* f = fopen ("_build/data/except.dic", "rb");
    if (!f) return 0;
    for (int c; (c = getc (f)) != EOF; ) data += static_cast<char> (c);
    fclose (f);
    f = fopen (path.c_str(), "wb");
    fwrite (data.data(), data.size(), 1, f);
    fclose (f);
    Parser p (false);
    bool first = p.loadExceptDict (path.c_str());
    unlink (path.c_str());
    bool second = p.loadExceptDict (path.c_str());
    rmdir (dir);
    return first && !second ? 0 : 1;
}
''')
seed("many-edges", "C13", "lattice/dag.inl",
"    if (isEdgeExist (from, to, edgeVal)) {", "    if (outDegree (from) < 24 && isEdgeExist (from, to, edgeVal)) {",
"an edge added again at a node that many edges leave",
"the edge is there twice",
'''true''',
cxx='''#include "lattice/dag.h"
int main()
{
    DAG<int> d;
    for (int i = 0; i < 40; ++i) d.addEdge (0, 1, i);
    for (int i = 0; i < 40; ++i) if (d.addEdge (0, 1, i)) return 1;
    return d.outDegree (0) == 40 && d.inDegree (1) == 40 ? 0 : 1;
}
''')
seed("word-eleven", "C21", "parser/parser.cxx",
"""        if (match.getCurPos() > state.stopPos)
            continue;""", """        if (match.getCurPos() > state.stopPos || match.getCurPos() - state.pos > 10)
            continue;""",
"a listed word of eleven letters",
"the longest listed words are read by rule instead",
'''same "รามเกียรติ์" "$(raw -n -d_build/data/except.dic -w รามเกียรติ์ | grep @)" "r_Am0@2,m_a_3@3,k_Yn0@11"''')
seed("long-data", "C21", "parser/parser.cxx",
"""    // last one
    sylStrings.push_back (SylString (desc.substr (beginPos)));""", """    // last one
    if (desc.size() < 30)
        sylStrings.push_back (SylString (desc.substr (beginPos)));""",
"the few listed words with many syllables",
"these words have no pronunciation",
'''same "ทรัพยากร" "$(raw -n -d_build/data/except.dic -w ทรัพยากร | grep @)" "s_ap3@3,P_a_3@4,y_A_0@6,k_Cn0@8"''')
