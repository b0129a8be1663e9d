// drv-parse.cxx - read words, record the pronunciation graphs
//
// usage: drv-parse (-n|-b) [DICT]
// stdin : one word per line, as hex digits of its UTF-8 bytes
// stdout: {"w":[code units],"b":[breaks],"e":[[from,to,label],...],
//          "i":[[from,to,label],...]}
// where "e" is taken from the out-edges.

#include "util.h"

#include "parser/parser.h"

#include <algorithm>
#include <memory>
#include <thai/thwbrk.h>

using namespace std;

int
main (int argc, char* argv[])
{
    bool isBreak = argc > 1 && string ("-b") == argv[1];
    Parser parser (isBreak);
    if (argc > 2 && !parser.loadExceptDict (argv[2])) {
        cerr << "drv-parse: cannot load " << argv[2] << endl;
        return 2;
    }
    ThBrk* brk = isBreak ? th_brk_new (NULL) : NULL;
    if (isBreak && !brk) {
        cerr << "drv-parse: no word break dictionary" << endl;
        return 2;
    }

    string line;
    while (getline (cin, line)) {
        string word = Unhex (line);
        u16string u16 = ToU16 (word);
        vector<int> breaks;
        if (brk && !u16.empty()) {
            wstring w (u16.begin(), u16.end());
            breaks.resize (u16.size());
            int n = th_brk_wc_find_breaks (brk, w.c_str(), breaks.data(),
                                           breaks.size());
            breaks.resize (n);
        }
        auto dag = parser.parseWord (word);
        cout << "{\"w\":" << IntsJson (u16) << ",\"b\":" << IntsJson (breaks)
             << ",\"e\":" << EdgesJson (GraphEdges (dag, u16.size()))
             << "}" << endl;
    }
    if (brk)
        th_brk_delete (brk);
    return 0;
}
