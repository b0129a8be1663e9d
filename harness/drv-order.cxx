// drv-order.cxx - compare syllables and syllable strings, collect alternatives
//
// stdin : one universe per line, fields separated by tabs
//   1. syllables, separated by spaces: CODE@END, '=' HEX '@' END (literal),
//      or '*@' END (blank)
//   2. strings, separated by spaces: numbers of syllables (from 1) joined by
//      '.', or '-' (empty string)
//   3. insertion sequences, separated by spaces: numbers of strings joined
//      by '.'
// stdout: one JSON record per line: content and end of each syllable, the six
//         comparisons for all pairs of syllables ("m") and strings ("n"), and
//         what a collection of alternatives holds after each sequence ("f":
//         one by one, "h": both halves collected apart and united)

#include "util.h"
#include "lattice/lattice.h"

using namespace std;

template<typename T> static string
Compare (const vector<T>& v)
{
    string s = "[";
    for (size_t i = 0; i < v.size(); ++i) {
        s += i ? ",[" : "[";
        for (size_t j = 0; j < v.size(); ++j) {
            const T& a = v[i];
            const T& b = v[j];
            int x = (a == b) * 1 + (a != b) * 2 + (a < b) * 4 + (a > b) * 8
                    + (a <= b) * 16 + (a >= b) * 32;
            s += (j ? "," : "") + to_string (x);
        }
        s += "]";
    }
    return s + "]";
}

// A syllable string as number of syllables' content and ends
static string
Show (const SylString& str)
{
    string s;
    for (const auto& syl : str)
        s += (s.empty() ? "[" : ",[") + StrJson (Label (syl) + ToneLabel (syl))
             + "," + to_string (syl.endPos()) + "]";
    return "[" + s + "]";
}

static string
Show (const PronunFrac& frac)
{
    string s;
    int n = 0;
    for (const auto& str : frac) {
        s += (s.empty() ? "" : ",") + Show (str);
        ++n;
    }
    if (n != frac.altCount()) s += ",[[\"miscounted\",0]]";
    return "[" + s + "]";
}

int
main()
{
    string line;
    while (getline (cin, line)) {
        auto f = SplitBy (line, '\t');
        vector<Syl> syls;
        for (const auto& d : SplitBy (f[0], ' ')) {
            auto p = SplitBy (d, '@');
            if (d[0] == '=')
                syls.push_back (Syl (stoi (p[1]), ToU16 (Unhex (p[0].substr (1)))));
            else if (d[0] == '*')
                syls.push_back (Syl (stoi (p[1])));
            else
                syls.push_back (Syl (p[0], stoi (p[1])));
        }
        vector<SylString> strs;
        string strsJson;
        for (const auto& d : SplitBy (f[1], ' ')) {
            SylString str;
            string ns;
            if (d != "-") {
                for (const auto& n : SplitBy (d, '.')) {
                    str += syls[stoi (n) - 1];
                    ns += (ns.empty() ? "" : ",") + n;
                }
            }
            strs.push_back (str);
            strsJson += (strsJson.empty() ? "[" : ",[") + ns + "]";
        }
        string fracs, halves, seqs;
        for (const auto& d : SplitBy (f[2], ' ')) {
            if (d.empty()) continue;
            PronunFrac all, one, two;
            auto ns = SplitBy (d, '.');
            string seq;
            for (size_t i = 0; i < ns.size(); ++i) {
                const auto& str = strs[stoi (ns[i]) - 1];
                all += str;
                (i < ns.size() / 2 ? one : two) += str;
                seq += (i ? "," : "") + ns[i];
            }
            one += two;
            one += one;
            const char* sep = seqs.empty() ? "" : ",";
            seqs += sep + ("[" + seq + "]");
            fracs += sep + Show (all);
            halves += sep + Show (one);
        }
        cout << "{\"a\":[";
        for (size_t i = 0; i < syls.size(); ++i)
            cout << (i ? ",[" : "[") << StrJson (Label (syls[i]) + ToneLabel (syls[i]))
                 << "," << syls[i].endPos() << "]";
        cout << "],\"m\":" << Compare (syls) << ",\"s\":[" << strsJson
             << "],\"n\":" << Compare (strs) << ",\"q\":[" << seqs << "],\"f\":["
             << fracs << "],\"h\":[" << halves << "]}" << endl;
    }
    return 0;
}
