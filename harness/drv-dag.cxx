// drv-dag.cxx - run histories of operations on the graph container
//
// stdin : one history per line: the type of edge labels (S syllable, T text,
//         F set of alternatives), then operations separated by spaces, their
//         arguments separated by ':'
//   a:G:FROM:TO:L:V    add edge with label L in variant V to graph G
//   r:G:FROM:TO:L:V    remove it
//   d:G:FROM:TO        remove all edges between two nodes
//   u:G:H              unite graph G with graph H
//   =:G:H              assign graph H to graph G
//   c:G:H              make G a copy of H (copy constructor)
//   m:G:H              make G from H, leaving H empty (move constructor)
//   s:G:POS:L.V,L.V    add a chain of syllables (S only); a syllable leads to
//                      the node that is its variant
// stdout: one JSON record per line, {"h":[{"p":[operation],"r":result,
//         "g":[[graph,observation]...]}...]}, observations of those graphs
//         only that look different now

#include "util.h"

#include <cstring>
#include <memory>
#include <set>

using namespace std;

// nodes and number of labels that the history is about
static set<int> Nodes;
static int Labels;

static string
Code (int l)
{
    static const char* few[] = { "k_a_0", "k_a_1", "krAn2", "?_om4" };
    if (l < 4) return few[l];
    string code = "b_e_3";
    code[0] = "kcgjJydtTnbpPfmrlwsh?"[l % 21];
    code[2] = "iIvVuUeE"[l / 21 % 8];
    return code;
}

template<typename T> T MakeLabel (int l, int v);

template<> Syl
MakeLabel<Syl> (int l, int v)
{
    return l == 3 ? Syl (v, u"ab") : Syl (Code (l), v);
}

template<> string
MakeLabel<string> (int l, int)
{
    return Code (l);
}

template<> PronunFrac
MakeLabel<PronunFrac> (int l, int v)
{
    PronunFrac frac (v, SylString (Syl (Code (l), v)));
    if (l % 2)
        frac += SylString (Syl (Code (l - 1), v + 1));
    return frac;
}

template<typename T> static int
LabelNo (const T& label)
{
    for (int l = 0; l < Labels; ++l)
        if (MakeLabel<T> (l, 0) == label) return l;
    return -1;
}

// G may be const or not: there are two sets of iterators
template<typename T, typename G> static string
Observe (G& g)
{
    auto edge = [] (int f, int t, const T& label) {
        return "[" + to_string (f) + "," + to_string (t) + ","
               + to_string (LabelNo<T> (label)) + "]";
    };
    auto add = [] (string& s, const string& e) { s += (s.empty() ? "" : ",") + e; };
    string o, i, oe, ie, od, id, ex;
    for (auto it = g.outBegin(); it != g.outEnd(); ++it)
        add (o, edge (it->first, it->second.target, it->second.edgeVal));
    for (auto it = g.inBegin(); it != g.inEnd(); ++it)
        add (i, edge (it->second.target, it->first, it->second.edgeVal));
    for (int n : Nodes) {
        auto out = g.outEdges (n);
        for (auto it = out.first; it != out.second; ++it)
            add (oe, edge (n, it->second.target, it->second.edgeVal));
        auto in = g.inEdges (n);
        for (auto it = in.first; it != in.second; ++it)
            add (ie, edge (it->second.target, n, it->second.edgeVal));
        if (g.outDegree (n))
            add (od, "[" + to_string (n) + "," + to_string (g.outDegree (n)) + "]");
        if (g.inDegree (n))
            add (id, "[" + to_string (n) + "," + to_string (g.inDegree (n)) + "]");
        for (int m : Nodes)
            for (int l = 0; l < Labels; ++l)
                if (g.isEdgeExist (n, m, MakeLabel<T> (l, 5)))
                    add (ex, "[" + to_string (n) + "," + to_string (m) + ","
                             + to_string (l) + "]");
    }
    return "{\"o\":[" + o + "],\"i\":[" + i + "],\"oe\":[" + oe + "],\"ie\":[" + ie
           + "],\"od\":[" + od + "],\"id\":[" + id + "],\"ex\":[" + ex + "]}";
}

template<typename G> static void
AddChain (G&, int, const SylString&)
{
}

template<> void
AddChain<PronunDAG> (PronunDAG& g, int pos, const SylString& str)
{
    g.addSylString (pos, str);
}

template<typename T, typename G> static string
History (const Strings& ops)
{
    const int N = 3;
    Nodes = { -1, 0, 1, 2, 3, 4, 5, 6, 7, 8 };
    Labels = 4;
    for (size_t j = 1; j < ops.size(); ++j) {
        auto f = SplitBy (ops[j], ':');
        if (!strchr ("ard", f[0][0])) continue;
        Nodes.insert (stoi (f[2]));
        Nodes.insert (stoi (f[3]));
        if (f.size() > 4) Labels = max (Labels, stoi (f[4]) + 1);
    }
    unique_ptr<G> g[N];
    string seen[N];
    for (int k = 0; k < N; ++k) {
        g[k].reset (new G);
        seen[k] = Observe<T> (*g[k]);
    }
    string out;
    for (size_t j = 1; j < ops.size(); ++j) {
        auto f = SplitBy (ops[j], ':');
        auto num = [&f] (int k) { return stoi (f[k]); };
        auto& x = g[num (1)];
        int res = -1;
        string args;
        size_t nargs = f.size();
        switch (f[0][0]) {
        case 'a':
            res = x->addEdge (num (2), num (3), MakeLabel<T> (num (4), num (5)));
            nargs = 5;
            break;
        case 'r':
            res = x->removeEdge (num (2), num (3), MakeLabel<T> (num (4), num (5)));
            nargs = 5;
            break;
        case 'd':
            res = x->removeDirectEdges (num (2), num (3));
            break;
        case 'u':
            x->unionDAG (*g[num (2)]);
            break;
        case '=':
            *x = *g[num (2)];
            break;
        case 'c': {
            unique_ptr<G> n (new G (*g[num (2)]));
            x = move (n);
            break;
        }
        case 'm': {
            unique_ptr<G> n (new G (move (*g[num (2)])));
            g[num (2)].reset (new G);
            x = move (n);
            break;
        }
        case 's': {
            SylString str;
            for (const auto& e : SplitBy (f[3], ',')) {
                auto lv = SplitBy (e, '.');
                str += MakeLabel<Syl> (stoi (lv[0]), stoi (lv[1]));
                args += ",[" + lv[0] + "," + lv[1] + "]";
            }
            AddChain (*x, num (2), str);
            nargs = 3;
            break;
        }
        }
        for (size_t k = nargs; k-- > 1; )
            args = "," + f[k] + args;
        string obs;
        for (int k = 0; k < N; ++k) {
            auto now = Observe<T> (*g[k]);
            auto asConst = Observe<T> (static_cast<const G&> (*g[k]));
            if (now != seen[k] || asConst != now)
                obs += (obs.empty() ? "[" : ",[") + to_string (k) + "," + now + "]";
            if (asConst != now)
                obs += ",[" + to_string (k) + "," + asConst + "]";
            seen[k] = now;
        }
        out += (out.empty() ? "" : ",") + ("{\"p\":[\"" + f[0] + "\"" + args
               + "],\"r\":" + to_string (res) + ",\"g\":[" + obs + "]}");
    }
    return "{\"h\":[" + out + "]}";
}

int
main()
{
    string line;
    while (getline (cin, line)) {
        auto ops = SplitBy (line, ' ');
        cout << (ops[0] == "S" ? History<Syl, PronunDAG> (ops)
                 : ops[0] == "T" ? History<string, DAG<string>> (ops)
                 : History<PronunFrac, DAG<PronunFrac>> (ops)) << endl;
    }
    return 0;
}
