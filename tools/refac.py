"""Behaviour-preserving edits; every check named must stay quiet."""
import os, subprocess, sys, re, concurrent.futures, time
R = {}
def ref(name, checks, *edits): R[name] = (checks, edits)
ref("pool-map", "C01 C07 C09 C10 C20 C22",
("parser/parser.cxx", "    list<ParseState>    mStates;\n", "    map<pair<int, bool>, ParseState>    mStates;\n"),
("parser/parser.cxx", '''    for (auto it = mStates.begin(); it != mStates.end(); ++it) {
        if (it->pos == state.pos && it->isLinked == state.isLinked) {
            it->pronDAG.unionDAG (state.pronDAG);
            return;
        }
        if (it->pos > state.pos) {
            mStates.insert (it, state);
            return;
        }
    }
    mStates.push_back (state);
''', '''    auto key = make_pair (state.pos, state.isLinked);
    auto it = mStates.find (key);
    if (it != mStates.end()) {
        it->second.pronDAG.unionDAG (state.pronDAG);
    } else {
        mStates.emplace (key, state);
    }
'''),
("parser/parser.cxx", '''    state = mStates.front();
    mStates.pop_front();
''', '''    state = mStates.begin()->second;
    mStates.erase (mStates.begin());
'''),
("parser/parser.cxx", "#include <vector>\n", "#include <vector>\n#include <map>\n"))
ref("latt-set", "C13 C14 C15 C22 C24 C01",
("lattice/lattice.cxx", '''    // keep mAltPronuns sorted & unique
    auto it = mAltPronuns.begin();
    while (it != mAltPronuns.end() && *it < sylString) {
        // same pronunciation with smaller end positions
        if (*it == sylString) return *this;
        ++it;
    }
    if (it != mAltPronuns.end() && *it <= sylString) {
        // already there
        return *this;
    }
    mAltPronuns.insert (it, sylString);

    // same pronunciation with greater end positions is superseded
    while (it != mAltPronuns.end() && *it != sylString) {
        ++it;
    }
    if (it != mAltPronuns.end()) {
        mAltPronuns.erase (it);
    }

    return *this;
''', '''    // keep mAltPronuns sorted & unique
    auto same = std::find (mAltPronuns.begin(), mAltPronuns.end(), sylString);
    if (same != mAltPronuns.end()) {
        if (!(sylString < *same))
            return *this;
        mAltPronuns.erase (same);
    }
    mAltPronuns.insert (
        std::lower_bound (mAltPronuns.begin(), mAltPronuns.end(), sylString), sylString
    );
    return *this;
'''),
("lattice/lattice.cxx", '#include "lattice.h"\n', '#include "lattice.h"\n\n#include <algorithm>\n'),
("lattice/lattice.cxx", '''    for (auto fracIt = mFracs.begin(); fracIt != mFracs.end(); ++fracIt) {
        if (fracIt->altCount() == 1) {
            auto nextIt = fracIt;
            ++nextIt;
            while (nextIt != mFracs.end() && nextIt->altCount() == 1) {
                *fracIt->begin() += *nextIt->begin();
                fracIt->setEndPos (nextIt->endPos());
                nextIt = mFracs.erase (nextIt);
            }
        }
    }
''', '''    list<PronunFrac> merged;
    for (const auto& frac : mFracs) {
        if (!merged.empty() && merged.back().altCount() == 1 && frac.altCount() == 1) {
            SylString str = *merged.back().begin();
            str += *frac.begin();
            merged.back() = PronunFrac (frac.endPos(), str);
        } else {
            merged.push_back (frac);
        }
    }
    mFracs.swap (merged);
'''))
ref("latt-vector", "C14 C24",
("lattice/lattice.h", "std::list<PronunFrac>::iterator ", "std::vector<PronunFrac>::iterator "),
("lattice/lattice.h", "std::list<PronunFrac>::const_iterator ", "std::vector<PronunFrac>::const_iterator "),
("lattice/lattice.h", "std::list<PronunFrac>   mFracs", "std::vector<PronunFrac>   mFracs"),
("lattice/lattice.h", "#include <list>\n", "#include <list>\n#include <vector>\n"),
("lattice/lattice.inl", '''    mFracs.insert (mFracs.end(), other.mFracs.begin(), other.mFracs.end());
''', '''    for (const auto& frac : other.mFracs) {
        mFracs.push_back (frac);
    }
'''))
ref("syl-tuple", "C14 C16 C18 C23 C24 C13",
("sylstring/syl.cxx", '''    if (mICons1 < other.mICons1) return true;
    if (mICons1 > other.mICons1) return false;
    if (mICons2 < other.mICons2) return true;
    if (mICons2 > other.mICons2) return false;
    if (mVowel < other.mVowel) return true;
    if (mVowel > other.mVowel) return false;
    if (mECons < other.mECons) return true;
    if (mECons > other.mECons) return false;
    if (mTone < other.mTone) return true;
    if (mTone > other.mTone) return false;
    return mEndPos < other.mEndPos;
''', '''    return tie (mICons1, mICons2, mVowel, mECons, mTone, mEndPos)
        < tie (other.mICons1, other.mICons2, other.mVowel, other.mECons, other.mTone, other.mEndPos);
'''),
("sylstring/syl.cxx", '#include "syl.h"\n', '#include "syl.h"\n\n#include <tuple>\n'),
("sylstring/sylstring.cxx", '''        if (*thisIt > *otherIt) return true;
        if (*thisIt < *otherIt) return false;
        ++thisIt; ++otherIt;
    }
    return thisIt != this->end();
''', '''        if (*otherIt < *thisIt) return true;
        if (*thisIt < *otherIt) return false;
        ++thisIt; ++otherIt;
    }
    return thisIt != this->end();
'''),
("sylstring/sylstring.cxx", '''    size_t begin = 0;
    size_t end;
    while ((end = desc.find (',', begin)) != string::npos) {
        *this += Syl (desc.substr (begin, end - begin));
        begin = end + 1;
    }
    *this += Syl (desc.substr (begin));
''', '''    istringstream in (desc);
    string part;
    while (getline (in, part, ',')) {
        mSyls.push_back (Syl (part));
    }
'''),
("sylstring/sylstring.cxx", '#include "sylstring.h"\n', '#include "sylstring.h"\n\n#include <sstream>\n'))
ref("syl-order-other", "C14 C18 C24 C15 C22",   # another total order: not behaviour-preserving for output
("sylstring/syl.cxx", "XX", "XX"))
del R["syl-order-other"]
ref("json-join", "C14 C15 C19 C22",
("output/output-json.cxx", '''    string outStr;

    outStr = "[";
    for (auto i = strList.begin(); i != strList.end(); ++i) {
        if (i != strList.begin()) {
            outStr += ",";
        }
        outStr += output (*i);
    }
    outStr += "]";

    return outStr;
''', '''    ostringstream out;
    const char* sep = "[";
    for (const auto& str : strList) {
        out << sep << output (str);
        sep = ",";
    }
    if (strList.empty()) out << '[';
    out << ']';
    return out.str();
'''),
("output/output-json.cxx", '#include "output-json.h"\n', '#include "output-json.h"\n\n#include <sstream>\n'),
("output/output-json.cxx", '''            outStr += "\\\\u00";
            outStr += hexDigits[c >> 4];
            outStr += hexDigits[c & 0x0f];
''', '''            switch (c) {
            case '\\n': outStr += "\\\\n"; break;
            case '\\t': outStr += "\\\\t"; break;
            default:
                outStr += "\\\\u00";
                outStr += hexDigits[c >> 4];
                outStr += hexDigits[c & 0x0f];
            }
'''))
ref("dag-paths", "C14 C15 C19 C22 C20",
("output/ioutput.cxx", '''        list<SylString> childStrs = DAGSylStrings (pronDAG, it->second.target);
        if (childStrs.size() == 0) {
            sylStrings.push_back (SylString (it->second.edgeVal));
        } else {
            for (const auto& sylString : childStrs) {
                SylString newSylStr (it->second.edgeVal);
                newSylStr += sylString;
                sylStrings.push_back (newSylStr);
            }
        }
''', '''        const SylString head (it->second.edgeVal);
        auto childStrs = DAGSylStrings (pronDAG, it->second.target);
        if (childStrs.empty())
            childStrs.push_back (SylString());
        for (auto& sylString : childStrs) {
            SylString whole (head);
            whole += sylString;
            sylStrings.push_back (std::move (whole));
        }
'''))
ref("dict-smart", "C07 C11 C12 C21 C22 C29",
("dict/dict.cxx", '''    mTrie = trie_fread (dictFile);
    mData = ReadDataBank (dictFile);

    fclose (dictFile);
    if (!mTrie || !mData) {
        // no half-loaded dictionary
        close();
        return false;
    }
    return true;
''', '''    bool ok = (mTrie = trie_fread (dictFile)) != nullptr
              && (mData = ReadDataBank (dictFile)) != nullptr;
    fclose (dictFile);
    if (!ok)
        close();
    return ok;
'''),
("parser/parser.cxx", '''    mExceptDict = make_unique<Dict>();
    return mExceptDict->open (exceptDictPath);
''', '''    auto dict = make_unique<Dict>();
    bool ok = dict->open (exceptDictPath);
    if (ok)
        mExceptDict = move (dict);
    else
        mExceptDict.reset();
    return ok;
'''))
ref("gen-getline", "C11 C21 C12",
("dict/gen-lookup-dict.c", '''    const int curSize = bank->dataSize;
    const int newSize = curSize + nBytes;

    if (newSize > bank->poolSize) {
        const int newPoolSize = MAX (bank->poolSize * 2, newSize);
''', '''    const int curSize = bank->dataSize;
    const int newSize = curSize + (int) nBytes;

    if (newSize > bank->poolSize) {
        const int newPoolSize = (newSize + 4095) / 4096 * 4096;
'''),
("dict/gen-lookup-dict.c", '''    uint32_t word[256];
    char data[256];
    Trie *trie = NewTrie();
''', '''    uint32_t word[1024];
    char data[1024];
    Trie *trie = NewTrie();
'''))
ref("cli-table", "C19",
("thpronun/thpronun.cxx", '''    // second pass: output modules
    for (int i = 1; i < argc; ++i) {
        if ('-' == argv[i][0]) {
            switch (argv[i][1]) {
            case 'r':
                stringOutputs.push_back (MakeRomanOutput (isJson, isGroup));
                break;
            case 's':
                stringOutputs.push_back (MakeSoundexOutput (isJson, isGroup));
                break;
            case 't':
                stringOutputs.push_back (MakeThaiOutput (isJson, isGroup));
                break;
            case 'p':
                stringOutputs.push_back (MakePhoneticOutput (isJson, isGroup));
                break;
            case 'w':
                stringOutputs.push_back (MakeRawOutput (isJson, isGroup));
                break;
            default:
                break;
            }
        }
    }
''', '''    // second pass: output modules
    static const struct {
        char name;
        unique_ptr<IOutput> (*make) (bool, bool);
    } makers[] = {
        { 'r', MakeRomanOutput }, { 's', MakeSoundexOutput }, { 't', MakeThaiOutput },
        { 'p', MakePhoneticOutput }, { 'w', MakeRawOutput },
    };
    for (const char** arg = argv + 1; *arg; ++arg) {
        for (const auto& m : makers) {
            if ('-' == (*arg)[0] && m.name == (*arg)[1])
                stringOutputs.push_back (m.make (isJson, isGroup));
        }
    }
'''))
ref("dag-remove", "C13 C14 C01 C22",
("lattice/dag.inl", '''    auto range = mFrom.equal_range (from);
    for (auto it = range.first; it != range.second; /*noop*/) {
        if (it->second.target == to) {
            mFrom.erase (it++);
            isRemoved = true;
        } else {
            ++it;
        }
    }
''', '''    for (auto it = mFrom.lower_bound (from); it != mFrom.end() && it->first == from; ) {
        if (it->second.target == to) {
            it = mFrom.erase (it);
            isRemoved = true;
        } else {
            ++it;
        }
    }
    auto range = mTo.equal_range (to);
'''),
("lattice/dag.inl", '''    range = mTo.equal_range (to);
    for (auto it = range.first; it != range.second; /*noop*/) {''', '''    for (auto it = range.first; it != range.second; /*noop*/) {'''),
("lattice/dag.inl", '''        addEdge (it->first, it->second.target, it->second.edgeVal);
''', '''        const auto& edge = it->second;
        if (!isEdgeExist (it->first, edge.target, edge.edgeVal)) {
            mFrom.emplace (it->first, edge);
            mTo.emplace (edge.target, DAGEdge<TEdgeVal> (it->first, edge.edgeVal));
        }
'''))
ref("brk-cache", "C10 C22 C20 C29",
("parser/parser.cxx", '''    int nextBrk = u16word.size();
    for (int i = 0; i < brkPos.size(); ++i) {
        if (brkPos[i] > start) {
            nextBrk = brkPos[i];
            break;
        }
    }
''', '''    auto brk = upper_bound (brkPos.begin(), brkPos.end(), start);
    int nextBrk = brk == brkPos.end() ? int (u16word.size()) : *brk;
'''),
("parser/parser.cxx", "#include <vector>\n", "#include <vector>\n#include <algorithm>\n"))
ref("dead-code", "C29 C12 C22 C24 C13 C18 C23",
("parser/parser.h", "    Parser (const char* exceptDictPath, bool isBreakWords = false);\n", ""),
("parser/parser.cxx", '''Parser::Parser (const char* exceptDictPath, bool isBreakWords)
    : mExceptDict(),
      mThBrk (nullptr)
{
    loadExceptDict (exceptDictPath);
    if (isBreakWords) {
        mThBrk = th_brk_new (NULL);
    }
}

''', ""),
("dict/dict.h", "    Dict (const char* dictPath);\n", ""),
("dict/dict.inl", '''inline
Dict::Dict (const char* dictPath)
    : mTrie (nullptr),
      mData (nullptr)
{
    open (dictPath);
}

''', ""),
("dict/dict.h", "    void close();\n", ""),
("dict/dict.h", "private:\n    Trie*   mTrie;", "private:\n    void close();\n\n    Trie*   mTrie;"),
("lattice/lattice.h", "    PronunFrac& operator= (const SylString& sylString);\n", ""),
("lattice/lattice.inl", '''inline PronunFrac&
PronunFrac::operator= (const SylString& sylString)
{
    mAltPronuns.clear();
    mEndPos = sylString.endPos();
    return *this += sylString;
}

''', ""))
ref("str-vector", "C13 C14 C18 C20 C23 C24 C28 C27",
("sylstring/sylstring.h", "#include <list>\n", "#include <vector>\n#include <list>\n"),
("sylstring/sylstring.h", "    typedef std::list<Syl>::iterator       iterator;\n    typedef std::list<Syl>::const_iterator const_iterator;\n", "    typedef std::vector<Syl>::iterator       iterator;\n    typedef std::vector<Syl>::const_iterator const_iterator;\n"),
("sylstring/sylstring.h", "    std::list<Syl> mSyls;", "    std::vector<Syl> mSyls;"),
("sylstring/sylstring.inl", "    mSyls.insert (mSyls.end(), other.mSyls.begin(), other.mSyls.end());\n", "    auto syls = other.mSyls;\n    for (auto& syl : syls) {\n        mSyls.push_back (std::move (syl));\n    }\n"))
ref("str-min", "C18 C23 C24 C28",
("sylstring/sylstring.h", "    SylString& operator= (const Syl& syl);\n", ""),
("sylstring/sylstring.h", "    SylString (const SylString& other);\n    SylString (SylString&& other);\n\n    SylString& operator= (const SylString& other);\n", ""),
("sylstring/sylstring.inl", '''inline
SylString::SylString (const SylString& other)
    : mSyls (other.mSyls) {}

inline
SylString::SylString (SylString&& other)
    : mSyls (std::move (other.mSyls)) {}

inline SylString&
SylString::operator= (const SylString& other)
{
    mSyls = other.mSyls;
    return *this;
}

''', ""),
("sylstring/sylstring.inl", '''inline SylString&
SylString::operator= (const Syl& syl)
{
    mSyls.clear();
    return *this += syl;
}

''', ""),
("sylstring/syl.h", "    Syl (const Syl& other);\n", ""),
("sylstring/syl.inl", '''inline
Syl::Syl (const Syl& other)
  : mICons1 (other.mICons1),
    mICons2 (other.mICons2),
    mVowel (other.mVowel),
    mECons (other.mECons),
    mTone (other.mTone),
    mLiteral (other.mLiteral),
    mEndPos (other.mEndPos)
{
}

''', ""))
ref("thread-local", "C10 C22 C27 C29",
("parser/parser.cxx", "    wstring wword;\n    for (auto c : u16word) {\n        wword", "    static thread_local wstring wword;\n    wword.clear();\n    for (auto c : u16word) {\n        wword"),
("output/output-json.cxx", "    string outStr;\n\n    outStr = \"[\";\n    for (auto i = sylStr", "    static std::mutex mutex;\n    static string buffer;\n    std::lock_guard<std::mutex> lock (mutex);\n    string& outStr = buffer;\n\n    outStr = \"[\";\n    for (auto i = sylStr"),
("output/output-json.cxx", "using namespace std;\n", "#include <mutex>\n\nusing namespace std;\n"))
ref("compile-aside", "C11 C12 C26 C21",
("dict/gen-lookup-dict.c", "    FILE *input, *output;\n\n    if (argc", "    FILE *input, *output;\n    char aside[4096];\n\n    if (argc"),
("dict/gen-lookup-dict.c", "    output = fopen (argv[2], \"wb\");\n", "    snprintf (aside, sizeof aside, \"%s.new\", argv[2]);\n    output = fopen (aside, \"wb\");\n"),
("dict/gen-lookup-dict.c", "    if (fclose (output) != 0) {\n", "    if (fclose (output) != 0 || rename (aside, argv[2]) != 0) {\n        remove (aside);\n"),
("dict/gen-lookup-dict.c", "err_output_opened:\n    fclose (output);\n", "err_output_opened:\n    fclose (output);\n    remove (aside);\n"))
ref("compile-memory", "C11 C12 C26 C21",
("dict/gen-lookup-dict.c", "#include <stdio.h>\n", "#include <stdio.h>\n#include <stdlib.h>\n"),
("dict/gen-lookup-dict.c", "    FILE *input, *output;\n\n    if (argc", "    FILE *input, *output;\n    char *mem = NULL;\n    size_t len = 0;\n    FILE *file;\n\n    if (argc"),
("dict/gen-lookup-dict.c", "    output = fopen (argv[2], \"wb\");\n", "    output = open_memstream (&mem, &len);\n"),
("dict/gen-lookup-dict.c", "    if (fclose (output) != 0) {\n", "    fclose (output);\n    file = fopen (argv[2], \"wb\");\n    if (!file) goto err_input_opened;\n    fwrite (mem, 1, len, file);\n    free (mem);\n    if (ferror (file) | (fclose (file) != 0)) {\n"))
def build(t, name):
    subprocess.run(f"rm -rf {t}; mkdir {t}; git -C /repo archive HEAD | tar x -C {t}; cd {t}; git init -q .", shell=True, check=True)
    for f, a, b in R[name][1]:
        p = t + "/" + f; s = open(p, encoding="utf-8").read()
        if s.count(a) < 1: print(name, "PATTERN", f, a[:50]); return False
        open(p, "w", encoding="utf-8").write(s.replace(a, b, 1))
    return True
def one(a):
    name, c = a
    t = "/root/mut/r_%s" % name
    r = subprocess.run(["/verif/bin/check", c], env=dict(os.environ, VERIF_REPO=t, VERIF_SEED=os.environ.get("VERIF_SEED","1"), VERIF_JOBS="4"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1800, cwd="/verif")
    o = r.stdout.decode(errors="replace")
    print(name, c, r.returncode, "" if r.returncode == 0 else "\n   " + "\n   ".join(o.split("\n")[-8:]), flush=True)
want = sys.argv[1:] or list(R)
jobs = []
for n in want:
    if build("/root/mut/r_" + n, n): jobs += [(n, c) for c in R[n][0].split()]
with concurrent.futures.ThreadPoolExecutor(3) as ex: list(ex.map(one, jobs))
for n in want: subprocess.run(["rm", "-rf", "/root/mut/r_" + n])
