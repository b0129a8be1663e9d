// drv-graph.cxx - read words, record both views of the pronunciation graphs
//
// usage: drv-graph (-n|-b) [DICT]
// stdin : one word per line, as hex digits of its UTF-8 bytes
// stdout: {"n":length,"o":[[from,to,label,end],...],"i":[...]}
// where "o" lists the edges as found by their origin, "i" as found by their
// target; a label is the segments and the tone.

#include "util.h"

#include "parser/parser.h"

using namespace std;

static string
EdgeJson (int from, int to, const Syl& syl)
{
    return "[" + to_string (from) + "," + to_string (to) + ","
           + StrJson (Label (syl) + ToneLabel (syl)) + ","
           + to_string (syl.endPos()) + "]";
}

int
main (int argc, char* argv[])
{
    Parser parser (argc > 1 && string ("-b") == argv[1]);
    if (argc > 2 && !parser.loadExceptDict (argv[2])) {
        cerr << "drv-graph: cannot load " << argv[2] << endl;
        return 2;
    }

    string line;
    while (getline (cin, line)) {
        string word = Unhex (line);
        auto dag = parser.parseWord (word);
        string o, i;
        for (auto it = dag.outBegin(); it != dag.outEnd(); ++it)
            o += (o.empty() ? "" : ",")
                 + EdgeJson (it->first, it->second.target, it->second.edgeVal);
        for (auto it = dag.inBegin(); it != dag.inEnd(); ++it)
            i += (i.empty() ? "" : ",")
                 + EdgeJson (it->second.target, it->first, it->second.edgeVal);
        cout << "{\"n\":" << ToU16 (word).size() << ",\"o\":[" << o
             << "],\"i\":[" << i << "]}" << endl;
    }
    return 0;
}
