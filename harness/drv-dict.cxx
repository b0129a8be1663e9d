// drv-dict.cxx - look texts up in dictionaries
//
// usage: drv-dict q
//   stdin : dictionary path and texts (hex digits of UTF-8), separated by
//           spaces
//   stdout: {"ld":loaded,"q":[{"t":units,"m":[[begin,end,[data bytes]],...]}...]}
// usage: drv-dict h SLOT PROBE...
//   stdin : a history of loads: dictionary paths separated by spaces, or '-'
//           for reading without loading, '~' for
//           closing the dictionary, a path after '+' for making both anew from
//           that file; with '@' before it the file is first copied to SLOT
//           (or SLOT removed, if there is no such file) and taken from there
//   stdout: {"h":[{"d":result of loading it as dictionary,"p":result of loading
//           it into the reader,"m":[matches in each probe],"e":[edges of each
//           probe]}...]}

#include "util.h"
#include "made.h"

#include "dict/dict.h"
#include "parser/parser.h"

#include <cstdio>
#include <fstream>
#include <memory>
#include <sstream>

using namespace std;

static string
MatchJson (size_t p, const Match& match)
{
    auto d = match.getData();
    return "[" + to_string (p) + "," + to_string (match.getCurPos()) + ","
           + IntsJson (vector<unsigned char> (d.begin(), d.end())) + "]";
}

static string
Joined (const vector<string>& found)
{
    string s;
    for (const auto& x : found)
        s += (s.empty() ? "" : ",") + x;
    return "[" + s + "]";
}

// One lookup after the other, and all side by side; what differs is an error.
static string
Matches (const u16string& text, const Dict& dict)
{
    vector<string> found;
    for (size_t p = 0; p < text.size(); ++p) {
        Match match (text, p, &dict);
        while (match.findNext())
            found.push_back (MatchJson (p, match));
    }

    vector<unique_ptr<Match>> all;
    vector<vector<string>> each (text.size());
    for (size_t p = 0; p < text.size(); ++p)
        all.push_back (unique_ptr<Match> (new Match (text, p, &dict)));
    for (bool isMore = true; isMore; ) {
        isMore = false;
        for (size_t p = text.size(); p-- > 0; ) {
            if (all[p] && all[p]->findNext()) {
                each[p].push_back (MatchJson (p, *all[p]));
                isMore = true;
            } else {
                all[p].reset();
            }
        }
    }
    vector<string> sideBySide;
    for (const auto& e : each)
        sideBySide.insert (sideBySide.end(), e.begin(), e.end());
    if (sideBySide != found)
        found.push_back ("[-1,-1,[]]");
    return Joined (found);
}

static void
Copy (const string& from, const string& to)
{
    remove (to.c_str());
    ifstream in (from, ios::binary);
    if (!in)
        return;
    ofstream out (to, ios::binary);
    stringstream s;
    s << in.rdbuf();
    out << s.str();
}

int
main (int argc, char* argv[])
{
    string line;
    if (argc > 1 && string ("q") == argv[1]) {
        while (getline (cin, line)) {
            auto f = SplitBy (line, ' ');
            Dict dict;
            bool ok = dict.open (f[0].c_str());
            cout << "{\"ld\":" << (ok ? "true" : "false") << ",\"q\":[";
            for (size_t i = 1; i < f.size(); ++i) {
                auto text = ToU16 (Unhex (f[i]));
                cout << (i > 1 ? "," : "") << "{\"t\":" << IntsJson (text)
                     << ",\"m\":" << Matches (text, dict) << "}";
            }
            cout << "]}" << endl;
        }
        return 0;
    }

    const string slot (argv[2]);
    Strings probes;
    for (int i = 3; i < argc; ++i)
        probes.push_back (Unhex (argv[i]));
    while (getline (cin, line)) {
        unique_ptr<Dict> dict (new Dict);
        unique_ptr<Parser> parser (new Parser (false));
        string out;
        bool isBack = false;
        for (auto path : SplitBy (line, ' ')) {
            auto at = path.find ('@');
            if (at != string::npos) {
                Copy (path.substr (at + 1), slot);
                path = path.substr (0, at) + slot;
            }
            int d = -1, p = -1;
            if (path == "~") {
                CloseDict (dict, 0);
            } else if (path[0] == '+') {
                dict = MakeDict<Dict> (path.c_str() + 1, 0);
                parser = MakeParser<Parser> (path.c_str() + 1, false, 0);
            } else if (path != "-") {
                d = dict->open (path.c_str());
                p = parser->loadExceptDict (path.c_str());
            }
            // back and forth, so that the last one read is the next one
            vector<string> ms (probes.size()), es (probes.size());
            for (size_t i = 0; i < probes.size(); ++i) {
                size_t k = isBack ? probes.size() - 1 - i : i;
                auto text = ToU16 (probes[k]);
                ms[k] = Matches (text, *dict);
                es[k] = EdgesJson (GraphEdges (parser->parseWord (probes[k]), text.size()));
            }
            isBack = !isBack;
            auto m = Joined (ms), e = Joined (es);
            out += (out.empty() ? "" : ",") + ("{\"d\":" + to_string (d) + ",\"p\":"
                   + to_string (p) + ",\"m\":" + m + ",\"e\":" + e + "}");
        }
        cout << "{\"h\":[" << out << "]}" << endl;
    }
    return 0;
}
