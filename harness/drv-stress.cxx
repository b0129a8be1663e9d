// drv-stress.cxx - read texts and write what was read, measuring cost
//
// usage: drv-stress (-n|-b) LIMIT [DICT]
// stdin : one text per line, as hex digits of its bytes
// stdout: {"n":bytes,"u":code units,"v":is valid text,"e":edges,"c":nodes,
//          "p":pronunciations (at most 10^9),"o":bytes written,"ms":CPU time of
//          reading in milliseconds}
// All outputs are written if there are at most LIMIT pronunciations.

#include "util.h"

#include "output/output-delim.h"
#include "output/output-gjson.h"
#include "output/output-json.h"
#include "output/output-roman.h"
#include "output/sylout-phonetic.h"
#include "output/sylout-raw.h"
#include "output/sylout-roman.h"
#include "output/sylout-soundex.h"
#include "output/sylout-thai.h"
#include "parser/parser.h"

#include <ctime>
#include <memory>
#include <stdexcept>

using namespace std;

template<typename N> static long
WriteAll (const PronunDAG& dag)
{
    typedef unique_ptr<ISylOutput> Notation;
    return DelimOutput (Notation (new N), '-').output (dag).size()
           + JsonOutput (Notation (new N)).output (dag).size()
           + GroupedJsonOutput (Notation (new N)).output (dag).size();
}

int
main (int argc, char* argv[])
{
    if (argc < 3) return 2;
    Parser parser (string ("-b") == argv[1]);
    double limit = stod (argv[2]);
    if (argc > 3 && !parser.loadExceptDict (argv[3])) {
        cerr << "drv-stress: cannot load " << argv[3] << endl;
        return 2;
    }

    string line;
    while (getline (cin, line)) {
        string word = Unhex (line);
        long e = 0, p = 0, o = 0, u = 0;
        set<int> nodes;
        bool isValid = true;
        clock_t t0 = clock(), t1 = t0;
        try {
            auto dag = parser.parseWord (word);
            t1 = clock();
            u = ToU16 (word).size();
            for (auto it = dag.outBegin(); it != dag.outEnd(); ++it) {
                ++e;
                nodes.insert (it->first);
                nodes.insert (it->second.target);
            }
            double n = CountPaths (dag);
            p = static_cast<long> (min (n, 1e9));
            if (n <= limit) {
                o = WriteAll<ThaiSylOutput> (dag) + WriteAll<RomanSylOutput> (dag)
                    + WriteAll<PhoneticSylOutput> (dag)
                    + WriteAll<RawSylOutput> (dag)
                    + WriteAll<SoundexSylOutput> (dag)
                    + RomanOutput().output (dag).size()
                    + RomanOutput (true).output (dag).size();
            }
        } catch (const range_error&) {
            isValid = false;
        }
        cout << "{\"n\":" << word.size() << ",\"u\":" << u << ",\"v\":"
             << (isValid ? "true" : "false") << ",\"e\":" << e << ",\"c\":"
             << nodes.size() << ",\"p\":" << p << ",\"o\":" << o << ",\"ms\":"
             << (t1 - t0) * 1000 / CLOCKS_PER_SEC << "}" << endl;
    }
    return 0;
}
