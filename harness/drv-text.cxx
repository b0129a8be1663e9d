// drv-text.cxx - what the library writes for a word in every notation
//
// usage: drv-text (-n|-b) [DICT]
// stdin : one word per line, as hex digits of its bytes
// stdout: {"w":[bytes],"v":is valid text,"o":{"t0":HEX,...}} with the output
//         in notation t, r, p, w, s and structure 0 (plain), 1 (JSON),
//         2 (grouped JSON), or {"big":PRONUNCIATIONS}

#include "util.h"

#include "output/output-delim.h"
#include "output/output-gjson.h"
#include "output/output-json.h"
#include "output/output-roman.h"
#include "output/sylout-phonetic.h"
#include "output/sylout-raw.h"
#include "output/sylout-roman.h"
#include "output/sylout-soundex.h"
#include "output/sylout-thai.h"
#include "parser/parser.h"

#include <functional>
#include <memory>
#include <stdexcept>

using namespace std;

static unique_ptr<ISylOutput>
MakeNotation (char c)
{
    typedef unique_ptr<ISylOutput> Notation;
    switch (c) {
    case 't': return Notation (new ThaiSylOutput);
    case 'r': return Notation (new RomanSylOutput);
    case 'p': return Notation (new PhoneticSylOutput);
    case 's': return Notation (new SoundexSylOutput);
    default:  return Notation (new RawSylOutput);
    }
}

static unique_ptr<IOutput>
MakeOutput (char c, int structure)
{
    typedef unique_ptr<IOutput> Output;
    if (structure == 2)
        return Output (new GroupedJsonOutput (MakeNotation (c)));
    if (structure == 1)
        return Output (new JsonOutput (MakeNotation (c)));
    if (c == 'r')
        return Output (new RomanOutput);
    char delim = c == 'p' ? ' ' : c == 'w' ? ',' : '-';
    return Output (new DelimOutput (MakeNotation (c), delim));
}

static string
Hex (const string& s)
{
    static const char* digits = "0123456789abcdef";
    string out;
    for (unsigned char c : s) {
        out += digits[c >> 4];
        out += digits[c & 15];
    }
    return out;
}

int
main (int argc, char* argv[])
{
    Parser parser (argc > 1 && string ("-b") == argv[1]);
    if (argc > 2 && !parser.loadExceptDict (argv[2])) {
        cerr << "drv-text: cannot load " << argv[2] << endl;
        return 2;
    }

    string line;
    while (getline (cin, line)) {
        string word = Unhex (line);
        vector<int> bytes;
        for (unsigned char c : word)
            bytes.push_back (c);
        string o;
        bool isValid = true;
        try {
            auto dag = parser.parseWord (word);
            double n = CountPaths (dag);
            if (n > 40) {
                cout << "{\"big\":" << static_cast<long> (min (n, 1e9)) << "}" << endl;
                continue;
            }
            for (char c : string ("trpws")) {
                for (int s = 0; s < 3; ++s)
                    o += (o.empty() ? "\"" : ",\"") + string (1, c) + to_string (s)
                         + "\":\"" + Hex (MakeOutput (c, s)->output (dag)) + "\"";
            }
        } catch (const range_error&) {
            isValid = false;
            o.clear();
        }
        cout << "{\"w\":" << IntsJson (bytes) << ",\"v\":"
             << (isValid ? "true" : "false") << ",\"o\":{" << o << "}}" << endl;
    }
    return 0;
}
