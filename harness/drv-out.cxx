// drv-out.cxx - write pronunciation graphs and lists in all formats
//
// usage: drv-out [-n|-b [DICT]]
// stdin : one item per line
//   w HEX                     the graph of a word (hex digits of UTF-8)
//   g FROM:TO:LABEL ...       a graph
//   l LABEL,LABEL;LABEL ...   a list of syllable strings ('-' empty string,
//                             nothing: empty list)
//   b LABEL,LABEL;LABEL ...   the graph built from such a list
//   where LABEL is CODE@END, or '=' HEX '@' END (a literal), or B (blank)
// stdout: one JSON record per item
//   ls  labels as [content, end], content being segments and tone, a literal
//       "L..." or "B"
//   nt  notation -> text of each label
//   e   edges [from, to, label number], e2 the same after all output
//   st  strings of a list, as label numbers
//   out entries [format, notation, delimiter, text], format being d (delimited),
//       o (roman), O (capitalised roman), j (JSON), g (grouped JSON)
//   lat groups found in the graph: chains of groups of strings of label numbers
//   fd  groups as edges [from, to, end, alternatives]
//   lo  grouped outputs of the list a graph was built from
//   up  whether the strings of each group are in ascending order
//   big number of pronunciations, if too many to list

#include "util.h"

#include "output/output-delim.h"
#include "output/output-gjson.h"
#include "output/output-json.h"
#include "output/output-roman.h"
#include "output/sylout-phonetic.h"
#include "output/sylout-raw.h"
#include "output/sylout-roman.h"
#include "output/sylout-soundex.h"
#include "output/sylout-thai.h"
#include "parser/parser.h"

#include <functional>
#include <list>
#include <memory>

using namespace std;

typedef unique_ptr<ISylOutput> Notation;

static Notation
MakeNotation (char c)
{
    switch (c) {
    case 't': return Notation (new ThaiSylOutput);
    case 'o': return Notation (new RomanSylOutput);
    case 'p': return Notation (new PhoneticSylOutput);
    case 's': return Notation (new SoundexSylOutput);
    default:  return Notation (new RawSylOutput);
    }
}

static const string Notations = "toprs";

struct Format {
    char format;
    char notation;
    char delim;
};

static const Format Formats[] = {
    { 'd', 't', '-' }, { 'd', 'p', ' ' }, { 'd', 'r', ',' }, { 'd', 's', '-' },
    { 'd', 'o', '/' }, { 'd', 'p', 'a' }, { 'o', 'o', ' ' }, { 'O', 'o', ' ' },
    { 'j', 't', ' ' }, { 'j', 'r', ' ' }, { 'j', 'p', ' ' }, { 'j', 's', ' ' },
    { 'j', 'o', ' ' }, { 'g', 't', ' ' }, { 'g', 'r', ' ' }, { 'g', 'p', ' ' },
    { 'g', 's', ' ' }, { 'g', 'o', ' ' },
};

static unique_ptr<IOutput>
MakeOutput (const Format& f)
{
    typedef unique_ptr<IOutput> Output;
    switch (f.format) {
    case 'd': return Output (new DelimOutput (MakeNotation (f.notation), f.delim));
    case 'o': return Output (new RomanOutput);
    case 'O': return Output (new RomanOutput (true));
    case 'j': return Output (new JsonOutput (MakeNotation (f.notation)));
    default:  return Output (new GroupedJsonOutput (MakeNotation (f.notation)));
    }
}

class Labels {
public:
    int number (const Syl& syl) {
        string c = syl == Syl::Blank ? "B" : Label (syl) + ToneLabel (syl);
        auto key = make_pair (c, syl.endPos());
        auto it = mNo.find (key);
        if (it == mNo.end()) {
            it = mNo.emplace (key, mSyls.size() + 1).first;
            mSyls.push_back (syl);
            mJson += (mJson.empty() ? "[" : ",[") + StrJson (c) + ","
                     + to_string (syl.endPos()) + "]";
        }
        return it->second;
    }

    string numbers (const SylString& str) {
        string s;
        for (const auto& syl : str)
            s += (s.empty() ? "" : ",") + to_string (number (syl));
        return "[" + s + "]";
    }

    string json() const {
        string s = "\"ls\":[" + mJson + "],\"nt\":{";
        for (char c : Notations) {
            auto notation = MakeNotation (c);
            string t;
            for (const auto& syl : mSyls)
                t += (t.empty() ? "" : ",") + StrJson (notation->output (syl));
            s += (c == Notations[0] ? "\"" : ",\"") + string (1, c) + "\":[" + t + "]";
        }
        return s + "}";
    }

private:
    map<pair<string, int>, int> mNo;
    vector<Syl> mSyls;
    string mJson;
};

static Syl
ParseLabel (const string& d)
{
    if (d == "B") return Syl::Blank;
    auto p = SplitBy (d, '@');
    return d[0] == '=' ? Syl (stoi (p[1]), ToU16 (Unhex (p[0].substr (1))))
                       : Syl (p[0], stoi (p[1]));
}

static string
Entry (const Format& f, const string& text)
{
    return string ("[\"") + f.format + "\",\"" + f.notation + "\",\"" + f.delim
           + "\"," + StrJson (text) + "]";
}

static string
Edges (const PronunDAG& dag, Labels& labels)
{
    string s;
    for (auto it = dag.outBegin(); it != dag.outEnd(); ++it)
        s += (s.empty() ? "[" : ",[") + to_string (it->first) + ","
             + to_string (it->second.target) + ","
             + to_string (labels.number (it->second.edgeVal)) + "]";
    return s;
}

static string
GraphRecord (const PronunDAG& dag, int limit, const list<SylString>* strs = nullptr)
{
    double n = CountPaths (dag);
    if (n > limit) return "{\"big\":" + to_string (static_cast<long> (min (n, 1e9))) + "}";
    Labels labels;
    string e = Edges (dag, labels);
    string out;
    for (const auto& f : Formats)
        out += (out.empty() ? "" : ",") + Entry (f, MakeOutput (f)->output (dag));
    string chains;
    bool up = true;
    const auto fdag = dag.fracDAG();
    string fd;
    for (auto it = fdag.outBegin(); it != fdag.outEnd(); ++it) {
        string alts;
        for (const auto& str : it->second.edgeVal)
            alts += (alts.empty() ? "" : ",") + labels.numbers (str);
        fd += (fd.empty() ? "[" : ",[") + to_string (it->first) + ","
              + to_string (it->second.target) + ","
              + to_string (it->second.edgeVal.endPos()) + ",[" + alts + "]]";
    }
    const auto latt = fdag.lattice();
    int nChains = 0;
    for (const auto& chain : latt) {
        string groups;
        for (const auto& frac : chain) {
            string alts;
            const SylString* prev = nullptr;
            int nAlts = 0;
            for (const auto& str : frac) {
                alts += (alts.empty() ? "" : ",") + labels.numbers (str);
                if (prev && !(*prev < str)) up = false;
                prev = &str;
                ++nAlts;
            }
            if (nAlts != frac.altCount()) up = false;
            groups += (groups.empty() ? "[" : ",[") + alts + "]";
        }
        chains += (chains.empty() ? "[" : ",[") + groups + "]";
        ++nChains;
    }
    if (nChains != latt.altCount()) up = false;
    string e2 = Edges (dag, labels);
    string built;
    if (strs) {
        string st, lo;
        for (const auto& str : *strs)
            st += (st.empty() ? "" : ",") + labels.numbers (str);
        for (const auto& f : Formats)
            if (f.format == 'g')
                lo += (lo.empty() ? "" : ",") + Entry (f, MakeOutput (f)->output (*strs));
        built = ",\"st\":[" + st + "],\"lo\":[" + lo + "]";
    }
    return "{\"k\":\"g\",\"e\":[" + e + "],\"e2\":[" + e2 + "]," + labels.json()
           + ",\"out\":[" + out + "],\"lat\":[" + chains + "],\"up\":"
           + (up ? "true" : "false") + ",\"fd\":[" + fd + "]" + built + "}";
}

static string
ListRecord (const list<SylString>& strs)
{
    Labels labels;
    string st, out;
    for (const auto& str : strs)
        st += (st.empty() ? "" : ",") + labels.numbers (str);
    for (const auto& f : Formats) {
        if (f.format == 'g') continue;
        out += (out.empty() ? "" : ",") + Entry (f, MakeOutput (f)->output (strs));
    }
    string one;
    for (const auto& str : strs) {
        string s;
        for (const auto& f : Formats) {
            if (f.format == 'g') continue;
            s += (s.empty() ? "" : ",") + Entry (f, MakeOutput (f)->output (str));
        }
        one += (one.empty() ? "[" : ",[") + s + "]";
    }
    return "{\"k\":\"l\",\"st\":[" + st + "]," + labels.json() + ",\"out\":["
           + out + "],\"one\":[" + one + "]}";
}

int
main (int argc, char* argv[])
{
    Parser parser (argc > 1 && string ("-b") == argv[1]);
    if (argc > 2 && !parser.loadExceptDict (argv[2])) {
        cerr << "drv-out: cannot load " << argv[2] << endl;
        return 2;
    }
    const int limit = 64, wide = 200;

    string line;
    while (getline (cin, line)) {
        char kind = line[0];
        string rest = line.size() > 2 ? line.substr (2) : "";
        if (kind == 'w') {
            cout << GraphRecord (parser.parseWord (Unhex (rest)), limit) << endl;
        } else if (kind == 'g') {
            PronunDAG dag;
            if (!rest.empty()) {
                for (const auto& d : SplitBy (rest, ' ')) {
                    auto f = SplitBy (d, ':');
                    dag.addEdge (stoi (f[0]), stoi (f[1]), ParseLabel (f[2]));
                }
            }
            cout << GraphRecord (dag, wide) << endl;
        } else {
            list<SylString> strs;
            if (!rest.empty()) {
                for (const auto& d : SplitBy (rest, ';')) {
                    SylString str;
                    if (d != "-")
                        for (const auto& l : SplitBy (d, ',')) str += ParseLabel (l);
                    strs.push_back (str);
                }
            }
            cout << (kind == 'b' ? GraphRecord (PronunDAG (strs), limit, &strs)
                                 : ListRecord (strs)) << endl;
        }
    }
    return 0;
}
