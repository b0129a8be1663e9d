// drv-str.cxx - run histories of operations on syllables and syllable strings
//
// stdin : one history per line, operations separated by spaces, arguments by
//         ':'.  Kinds of places: s string, y syllable; places are 1..3
//   sn:X  new                   sd:X:DESC  from a description
//   sk:X:A  from syllable A     sy:X:Y  copy constructor   sm:X:Y  move constructor
//   s=:X:Y  assign              sS:X:A  assign syllable A
//   s+:X:Y  append              sa:X:A  append syllable A
//   sh:X:OFF  shift positions   se:X:K:E  set the position of the Kth syllable
//   yk:A:CODE:E  from a code    yl:A:HEX:E  literal (hex digits of UTF-8)
//   yy:A:B  copy constructor    y=:A:B  assign
//   yp:A:E  set the position    yg:A:X:K  copy of the Kth syllable of string X
// stdout: one JSON record per line, {"h":[{"p":[operation],"g":[[kind, place,
//         look]...],"q":equality of strings,"w":equality of syllables}...]}

#include "util.h"
#include "sylstring/sylstring.h"

#include <iterator>
#include <memory>

using namespace std;

static const int Places = 3;

static string
LookSyl (const Syl& syl)
{
    string label = syl == Syl::Blank ? "*" : Label (syl) + ToneLabel (syl);
    return "[" + StrJson (label) + ","
           + to_string (syl.endPos()) + "]";
}

// const or not: there are two sets of iterators
template<typename S> static string
Syls (S& str)
{
    string s;
    for (auto it = str.begin(); it != str.end(); ++it)
        s += (s.empty() ? "" : ",") + LookSyl (*it);
    return "[" + s + "]";
}

static string
Look (SylString& str, bool asConst)
{
    return "[" + (asConst ? Syls (static_cast<const SylString&> (str)) : Syls (str))
           + "," + to_string (str.endPos()) + "]";
}

static string
Look (Syl& syl, bool)
{
    return LookSyl (syl);
}

template<typename T> struct Shelf {
    char kind;
    unique_ptr<T> at[Places + 1];
    string seen[Places + 1];

    explicit Shelf (char k) : kind (k) {
        for (int j = 1; j <= Places; ++j) {
            at[j].reset (new T());
            seen[j] = Look (*at[j], false);
        }
    }

    void changes (string& out) {
        for (int j = 1; j <= Places; ++j) {
            auto now = Look (*at[j], false);
            auto other = Look (*at[j], true);
            auto add = [&] (const string& what) {
                out += (out.empty() ? "[\"" : ",[\"") + string (1, kind) + "\","
                       + to_string (j) + "," + what + "]";
            };
            if (now != seen[j] || other != now)
                add (now);
            if (other != now)
                add (other);
            seen[j] = now;
        }
    }

    string equal() {
        string q;
        for (int j = 1; j <= Places; ++j) {
            q += j > 1 ? ",[" : "[";
            for (int k = 1; k <= Places; ++k) {
                const T& x = *at[j];
                const T& y = *at[k];
                // 2: the two operators disagree
                q += string (k > 1 ? "," : "")
                     + ((x == y) == (x != y) ? "2" : x == y ? "1" : "0");
            }
            q += "]";
        }
        return "[" + q + "]";
    }
};

static string
History (const Strings& ops)
{
    Shelf<SylString> s ('s');
    Shelf<Syl> y ('y');
    string out;
    for (const auto& d : ops) {
        auto a = SplitBy (d, ':');
        char kind = a[0][0], op = a[0][1];
        int x = stoi (a[1]);
        auto num = [&a] (size_t k) { return a.size() > k ? stoi (a[k]) : 0; };
        string args = "," + a[1];
        char name = op;
        if (kind == 's' && op == 'd') {
            s.at[x].reset (new SylString (a[2]));
            // the syllables of the description, one by one
            string l;
            for (const auto& c : SplitBy (a[2], ',')) {
                auto p = SplitBy (c, '@');
                l += (l.empty() ? "[" : ",[") + StrJson (p[0]) + ","
                     + (p.size() > 1 ? to_string (stoi (p[1])) : "-1") + "]";
            }
            args += ",[" + l + "]";
        } else if (kind == 'y' && op == 'k') {
            y.at[x].reset (new Syl (a[2], num (3)));
            args += "," + StrJson (a[2]) + "," + a[3];
        } else if (kind == 'y' && op == 'l') {
            auto lit = ToU16 (Unhex (a[2]));
            y.at[x].reset (new Syl (num (3), lit));
            name = 'k';
            string l;
            for (auto c : lit)
                l += (l.empty() ? "L" : ".") + to_string (static_cast<unsigned> (c));
            args += "," + StrJson (l) + "," + a[3];
        } else {
            for (size_t k = 2; k < a.size(); ++k) args += "," + a[k];
            int b = num (2);
            if (kind == 's') {
                switch (op) {
                case 'n': s.at[x].reset (new SylString()); break;
                case 'k': s.at[x].reset (new SylString (*y.at[b])); break;
                case 'y': {
                    unique_ptr<SylString> n (new SylString (*s.at[b]));
                    s.at[x] = move (n);
                    break;
                }
                case 'm': {
                    unique_ptr<SylString> n (new SylString (move (*s.at[b])));
                    s.at[b].reset (new SylString());
                    s.at[x] = move (n);
                    break;
                }
                case '=': *s.at[x] = *s.at[b]; break;
                case 'S': *s.at[x] = *y.at[b]; break;
                case '+': *s.at[x] += *s.at[b]; break;
                case 'a': *s.at[x] += *y.at[b]; break;
                case 'h': s.at[x]->shiftEndPos (b); break;
                case 'e':
                    if (b <= distance (s.at[x]->begin(), s.at[x]->end()))
                        next (s.at[x]->begin(), b - 1)->setEndPos (num (3));
                    break;
                }
            } else {
                switch (op) {
                case 'y': {
                    unique_ptr<Syl> n (new Syl (*y.at[b]));
                    y.at[x] = move (n);
                    break;
                }
                case '=': *y.at[x] = *y.at[b]; break;
                case 'p': y.at[x]->setEndPos (b); break;
                case 'g':
                    if (num (3) <= distance (s.at[b]->begin(), s.at[b]->end()))
                        *y.at[x] = *next (s.at[b]->begin(), num (3) - 1);
                    break;
                }
            }
        }
        string g;
        s.changes (g);
        y.changes (g);
        out += (out.empty() ? "" : ",") + ("{\"p\":[\"" + string (1, kind) + "\",\""
               + string (1, name) + "\"" + args + "],\"g\":[" + g + "],\"q\":" + s.equal()
               + ",\"w\":" + y.equal() + "}");
    }
    return "{\"h\":[" + out + "]}";
}

int
main()
{
    string line;
    while (getline (cin, line))
        cout << History (SplitBy (line, ' ')) << endl;
    return 0;
}
