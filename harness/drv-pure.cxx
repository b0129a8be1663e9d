// drv-pure.cxx - follow histories of reading and writing
//
// usage: drv-pure [p]
// stdin : one history per line, events separated by blanks; with p, several of
//         them separated by '|', each to be followed by a thread of its own
//   N:R:M        reader R is made anew, M being n or b (word breaks)
//   M:R:M:F:PATH reader R is made anew with the dictionary file number F
//   L:R:F:PATH   reader R loads the dictionary file number F
//   R:R:T:HEX    reader R reads text number T (hex digits of UTF-8)
//   O:G:O        graph number G of this history (from 1) is written by
//                output O: a letter of notation and a digit of format
//   C:G          a copy of graph G becomes a new graph
// stdout: {"h":[event,...]}, an event being ["N",R,M], ["M",R,M,F],
//         ["L",R,F,ok], ["R",R,T,graph], ["O",G,O,text], ["C",G,graph]; graphs and texts are
//         given as digests.  With p: {"p":[[event,...],...]}

#include "util.h"
#include "made.h"

#include "output/output-delim.h"
#include "output/output-gjson.h"
#include "output/output-json.h"
#include "output/output-roman.h"
#include "output/sylout-phonetic.h"
#include "output/sylout-raw.h"
#include "output/sylout-roman.h"
#include "output/sylout-soundex.h"
#include "output/sylout-thai.h"
#include "parser/parser.h"

#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <thread>

using namespace std;

static string
Digest (const string& s)
{
    uint64_t h = 14695981039346656037ull;
    for (unsigned char c : s)
        h = (h ^ c) * 1099511628211ull;
    char buf[40];
    snprintf (buf, sizeof buf, "\"%016llx.%zu\"", (unsigned long long) h, s.size());
    return buf;
}

static unique_ptr<ISylOutput>
MakeNotation (char c)
{
    typedef unique_ptr<ISylOutput> Notation;
    switch (c) {
    case 't': return Notation (new ThaiSylOutput);
    case 'r': return Notation (new RomanSylOutput);
    case 'p': return Notation (new PhoneticSylOutput);
    case 's': return Notation (new SoundexSylOutput);
    default:  return Notation (new RawSylOutput);
    }
}

static string
Write (const PronunDAG& dag, const string& o)
{
    switch (o[1]) {
    case '0': return DelimOutput (MakeNotation (o[0]), '-').output (dag);
    case '1': return JsonOutput (MakeNotation (o[0])).output (dag);
    case '2': return GroupedJsonOutput (MakeNotation (o[0])).output (dag);
    case '3': return RomanOutput (o[0] == 'r').output (dag);
    default:  return to_string (dag.fracDAG().lattice().altCount());
    }
}

static string
GraphDigest (const PronunDAG& dag)
{
    vector<string> out, in;
    for (auto it = dag.outBegin(); it != dag.outEnd(); ++it)
        out.push_back (to_string (it->first) + ">" + to_string (it->second.target)
                       + Label (it->second.edgeVal) + ToneLabel (it->second.edgeVal)
                       + "@" + to_string (it->second.edgeVal.endPos()));
    sort (out.begin(), out.end());
    string s;
    for (const auto& x : out) s += x + "\n";
    return Digest (s);
}

static string
Follow (const string& line)
{
    map<int, unique_ptr<Parser>> readers;
    vector<PronunDAG> graphs;
    string h;
    for (const auto& ev : SplitBy (line, ' ')) {
        auto f = SplitBy (ev, ':');
        int r = stoi (f[1]);
        string e = "[\"" + f[0] + "\"," + f[1];
        switch (f[0][0]) {
        case 'N':
            readers[r] = unique_ptr<Parser> (new Parser (f[2] == "b"));
            e += ",\"" + f[2] + "\"";
            break;
        case 'M':
            readers[r] = MakeParser<Parser> (f[4].c_str(), f[2] == "b", 0);
            e += ",\"" + f[2] + "\"," + f[3];
            break;
        case 'L':
            e += "," + f[2]
                 + (readers[r]->loadExceptDict (f[3].c_str()) ? ",true" : ",false");
            break;
        case 'R':
            graphs.push_back (readers[r]->parseWord (Unhex (f[3])));
            e += "," + f[2] + "," + GraphDigest (graphs.back());
            break;
        case 'O':
            e += ",\"" + f[2] + "\"," + Digest (Write (graphs[r - 1], f[2]));
            break;
        case 'C':
            {
                PronunDAG copy = graphs[r - 1];
                graphs.push_back (copy);
                e += "," + GraphDigest (graphs.back());
            }
            break;
        default:
            exit (2);
        }
        h += (h.empty() ? "" : ",") + e + "]";
    }
    return "[" + h + "]";
}

int
main (int argc, char*[])
{
    string line;
    while (getline (cin, line)) {
        auto hs = SplitBy (line, '|');
        if (argc < 2) {
            cout << "{\"h\":" << Follow (line) << "}" << endl;
            continue;
        }
        vector<string> res (hs.size());
        vector<thread> threads;
        atomic<size_t> ready (0);
        for (size_t j = 0; j < hs.size(); ++j)
            threads.emplace_back ([&, j] {
                ++ready;
                while (ready < hs.size())
                    this_thread::yield();
                res[j] = Follow (hs[j]);
            });
        for (auto& t : threads)
            t.join();
        cout << "{\"p\":[";
        for (size_t j = 0; j < res.size(); ++j)
            cout << (j ? "," : "") << res[j];
        cout << "]}" << endl;
    }
    return 0;
}
