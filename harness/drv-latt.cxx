// drv-latt.cxx - run histories of operations on groups, chains and lattices
//
// stdin : one history per line, operations separated by spaces, arguments by
//         ':'.  Kinds of places: f group, c chain, t lattice; places are 1..3
//   Kn:X       new               Ky:X:Y  copy constructor   Km:X:Y  move constructor
//   K=:X:Y     assign            Kj:X    join (c, t)        Ku:X:Y  add all (f, c)
//   fk:X:E:S   from end and string       fS:X:S  assign a string
//   f+:X:S     add a string              fe:X:E  set the end
//   ck:X:F c+:X:F  from / add group F    tk:X:C t+:X:C  from / add chain C
//   where a string is numbers of syllables joined by '.', or '-' (empty);
//   a number followed by x and a position gives it another position
// stdout: one JSON record per line, {"h":[{"p":[operation],"g":[[kind, place,
//         look]...],"q":equality of groups}...]}

#include "util.h"
#include "lattice/lattice.h"

#include <memory>

using namespace std;

static const int Places = 3;
static const char* Codes[] = { "k_a_0", "k_a_1", "krAn2", "?_om4", "g_i_3" };

static SylString
MakeString (const string& d)
{
    SylString str;
    if (d != "-")
        for (const auto& n : SplitBy (d, '.')) {
            int k = stoi (n);
            int at = n.size() > 1 ? stoi (n.substr (2)) : k + 1;
            str += k == 5 ? Syl (at, u"ab") : Syl (Codes[k], at);
        }
    return str;
}

// what neither the program nor its tests use may be gone one day
template<typename F> auto
AssignString (F& f, const SylString& str, int) -> decltype (f = str, void())
{
    f = str;
}

template<typename F> void
AssignString (F& f, const SylString& str, long)
{
    f = F (str.endPos(), str);
}

// What is seen of an object, const or not: there are two sets of iterators
template<typename S> static string
StringJson (S& str)
{
    string s;
    for (auto& syl : str)
        s += (s.empty() ? "[" : ",[") + StrJson (Label (syl) + ToneLabel (syl))
             + "," + to_string (syl.endPos()) + "]";
    return "[" + s + "]";
}

template<typename F> static string
LookGroup (F& frac)
{
    string s;
    bool up = true;
    const SylString* prev = nullptr;
    for (auto& str : frac) {
        s += (prev ? "," : "") + StringJson (str);
        if (prev && !(*prev < str)) up = false;
        prev = &str;
    }
    return "[" + to_string (frac.endPos()) + ",[" + s + "]," + (up ? "true" : "false")
           + "," + to_string (frac.altCount()) + "]";
}

template<typename C> static string
LookChain (C& chain)
{
    string s;
    for (auto& frac : chain)
        s += (s.empty() ? "" : ",") + LookGroup (frac);
    return "[" + s + "]";
}

template<typename L> static string
LookLatt (L& latt)
{
    string s;
    bool first = true;
    for (auto& chain : latt) {
        s += (first ? "" : ",") + LookChain (chain);
        first = false;
    }
    return "[[" + s + "]," + to_string (latt.altCount()) + "]";
}

static string Look (PronunFrac& x) { return LookGroup (x); }
static string Look (const PronunFrac& x) { return LookGroup (x); }
static string Look (PronunChain& x) { return LookChain (x); }
static string Look (const PronunChain& x) { return LookChain (x); }
static string Look (PronunLatt& x) { return LookLatt (x); }
static string Look (const PronunLatt& x) { return LookLatt (x); }

template<typename T> struct Shelf {
    char kind;
    unique_ptr<T> at[Places + 1];
    string seen[Places + 1];

    explicit Shelf (char k) : kind (k) {
        for (int j = 1; j <= Places; ++j) {
            at[j].reset (new T);
            seen[j] = Look (*at[j]);
        }
    }

    // operations that all kinds of places have; true if it was one of them
    bool common (char op, int x, int y) {
        switch (op) {
        case 'n': at[x].reset (new T); return true;
        case 'y': { unique_ptr<T> n (new T (*at[y])); at[x] = move (n); return true; }
        case 'm': {
            unique_ptr<T> n (new T (move (*at[y])));
            at[y].reset (new T);
            at[x] = move (n);
            return true;
        }
        case '=': *at[x] = *at[y]; return true;
        }
        return false;
    }

    void changes (string& out) {
        for (int j = 1; j <= Places; ++j) {
            auto now = Look (*at[j]);
            auto asConst = Look (static_cast<const T&> (*at[j]));
            auto add = [&] (const string& what) {
                out += (out.empty() ? "[\"" : ",[\"") + string (1, kind) + "\","
                       + to_string (j) + "," + what + "]";
            };
            if (now != seen[j] || asConst != now)
                add (now);
            if (asConst != now)
                add (asConst);
            seen[j] = now;
        }
    }
};

static string
History (const Strings& ops)
{
    Shelf<PronunFrac> f ('f');
    Shelf<PronunChain> c ('c');
    Shelf<PronunLatt> t ('t');
    string out;
    for (const auto& d : ops) {
        auto a = SplitBy (d, ':');
        char kind = a[0][0], op = a[0][1];
        int x = stoi (a[1]);
        auto num = [&a] (size_t k) { return a.size() > k ? stoi (a[k]) : 0; };
        string args = "," + a[1];
        if (kind == 'f' && string ("kS+").find (op) != string::npos) {
            string s = op == 'k' ? a[3] : a[2];
            auto str = MakeString (s);
            if (op == 'k')
                f.at[x].reset (new PronunFrac (num (2), str));
            else if (op == 'S')
                AssignString (*f.at[x], str, 0);
            else
                *f.at[x] += str;
            if (op != '+')
                args += "," + to_string (op == 'k' ? num (2) : str.endPos());
            args += "," + StringJson (str);
        } else {
            for (size_t k = 2; k < a.size(); ++k) args += "," + a[k];
            int y = num (2);
            if (kind == 'f') {
                if (op == 'u') *f.at[x] += *f.at[y];
                else if (op == 'e') f.at[x]->setEndPos (y);
                else f.common (op, x, y);
            } else if (kind == 'c') {
                if (op == 'k') c.at[x].reset (new PronunChain (*f.at[y]));
                else if (op == '+') *c.at[x] += *f.at[y];
                else if (op == 'u') *c.at[x] += *c.at[y];
                else if (op == 'j') c.at[x]->mergeSingles();
                else c.common (op, x, y);
            } else {
                if (op == 'k') t.at[x].reset (new PronunLatt (*c.at[y]));
                else if (op == '+') *t.at[x] += *c.at[y];
                else if (op == 'j') t.at[x]->mergeSingles();
                else t.common (op, x, y);
            }
        }
        string g, q;
        f.changes (g);
        c.changes (g);
        t.changes (g);
        for (int j = 1; j <= Places; ++j) {
            q += j > 1 ? ",[" : "[";
            for (int k = 1; k <= Places; ++k)
                q += string (k > 1 ? "," : "") + (*f.at[j] == *f.at[k] ? "1" : "0");
            q += "]";
        }
        out += (out.empty() ? "" : ",") + ("{\"p\":[\"" + string (1, kind) + "\",\""
               + string (1, op) + "\"" + args + "],\"g\":[" + g + "],\"q\":[" + q + "]}");
    }
    return "{\"h\":[" + out + "]}";
}

int
main()
{
    string line;
    while (getline (cin, line))
        cout << History (SplitBy (line, ' ')) << endl;
    return 0;
}
