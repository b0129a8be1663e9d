// drv-syl.cxx - build syllables and syllable strings, record how they are
// written in each notation
//
// stdin : one command per line
//   N CODE        syllable from its code
//   L HEX END     literal (hex digits of UTF-8) ending at END
//   S DESC        syllable string from its description
//   H DESC OFF    ... with positions shifted by OFF
//   P DESC DESC   one syllable string appended to another
//   K CODE END    syllable from five letters given one by one
//   A DESC        a syllable string appended to itself
//   B             the blank syllable
// stdout: one JSON record per command

#include "util.h"

#include "output/sylout-phonetic.h"
#include "output/sylout-raw.h"
#include "output/sylout-roman.h"
#include "output/sylout-soundex.h"
#include "output/sylout-thai.h"

using namespace std;

// an output that has written others before writes the same as a new one
template<typename T> static string
Written (const Syl& syl)
{
    static T old;
    auto text = T().output (syl);
    auto again = old.output (syl);
    return text == again ? text : text + " or " + again;
}

static string
Notations (const Syl& syl)
{
    return "\"r\":" + StrJson (Written<RawSylOutput> (syl))
           + ",\"p\":" + StrJson (Written<PhoneticSylOutput> (syl))
           + ",\"o\":" + StrJson (Written<RomanSylOutput> (syl))
           + ",\"s\":" + StrJson (Written<SoundexSylOutput> (syl))
           + ",\"t\":" + StrJson (Written<ThaiSylOutput> (syl))
           + ",\"u\":" + IntsJson (ToU16 (Written<ThaiSylOutput> (syl)))
           + ",\"g\":" + StrJson (Label (syl) + ToneLabel (syl))
           + ",\"e\":" + to_string (syl.endPos());
}

static string
StringJson (const SylString& str)
{
    string s;
    for (const auto& syl : str)
        s += (s.empty() ? "" : ",") + StrJson (RawSylOutput().output (syl));
    return "\"l\":[" + s + "],\"e\":" + to_string (str.endPos());
}

int
main()
{
    string line;
    while (getline (cin, line)) {
        auto f = SplitBy (line, ' ');
        cout << "{\"k\":" << StrJson (f[0]) << ",\"a\":[";
        for (size_t i = 1; i < f.size(); ++i)
            cout << (i > 1 ? "," : "") << StrJson (f[i]);
        cout << "],";
        if (f[0] == "N") {
            cout << Notations (Syl (f[1]));
        } else if (f[0] == "K") {
            const auto& c = f[1];
            cout << Notations (Syl (c[0], c[1], c[2], c[3], c[4], stoi (f[2])));
        } else if (f[0] == "A") {
            SylString str (f[1]);
            str += str;
            cout << StringJson (str);
        } else if (f[0] == "L") {
            auto lit = Unhex (f[1]);
            cout << "\"v\":" << StrJson (lit) << ","
                 << Notations (Syl (stoi (f[2]), ToU16 (lit)));
        } else if (f[0] == "B") {
            cout << Notations (Syl::Blank);
        } else if (f[0] == "S") {
            cout << StringJson (SylString (f[1]));
        } else if (f[0] == "H") {
            SylString str (f[1]);
            str.shiftEndPos (stoi (f[2]));
            cout << StringJson (str);
        } else if (f[0] == "P") {
            SylString str (f[1]);
            const SylString other (f[2]);
            str += other;
            cout << StringJson (str);
        }
        cout << "}" << endl;
    }
    return 0;
}
