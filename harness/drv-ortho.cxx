// drv-ortho.cxx - what the letter and tone tables say
//
// stdin : one command per line
//   L CP          a consonant: its class, its sound, its final sound
//   T CP V F      tones of a syllable with initial CP, vowel V and final F,
//                 for no tone mark and each of the four marks
//   I C / F C / M C   code letter of an initial, a final, a tone
//   K CP          classes of a character according to libthai
// stdout: one JSON record per command

#include "util.h"

#include "sylstring/sylcomp.h"
#include "thortho/thcons.h"

#include <thai/thwctype.h>

using namespace std;

static char
CodeOf (EInitConsClass c)
{
    switch (c) {
    case EInitConsClass::HIGH: return 'H';
    case EInitConsClass::MID:  return 'M';
    case EInitConsClass::LOWP: return 'P';
    case EInitConsClass::LOWS: return 'S';
    default:                   return '*';
    }
}

static string
One (char c)
{
    return StrJson (string (1, c));
}

int
main()
{
    string line;
    while (getline (cin, line)) {
        auto f = Strings();
        istringstream in (line);
        for (string s; in >> s; )
            f.push_back (s);
        cout << "{\"k\":" << StrJson (f[0]);
        if (f[0] == "L") {
            char16_t c = stoi (f[1]);
            cout << ",\"c\":" << f[1] << ",\"a\":" << One (CodeOf (InitConsClass (c)))
                 << ",\"s\":" << One (CodeOf (InitConsSound (c)))
                 << ",\"e\":" << One (CodeOf (EndConsClass (c)));
        } else if (f[0] == "T") {
            char16_t c = stoi (f[1]);
            auto vowel = static_cast<EVowel> (f[2][0]);
            auto end = EndConsCodeToClass (f[3][0]);
            bool isShort = IsShortVowel (vowel);
            bool isDead = end == EEndConsClass::NONE ? isShort
                                                     : IsDeadEndConsClass (end);
            string t;
            for (char m : string ("01234"))
                t += CodeOf (ToneFromWritten (InitConsClass (c), ToneCodeToTone (m),
                                              isDead, isShort));
            cout << ",\"c\":" << f[1] << ",\"v\":" << StrJson (f[2])
                 << ",\"f\":" << StrJson (f[3])
                 << ",\"t\":" << StrJson (t);
        } else if (f[0] == "I") {
            cout << ",\"c\":" << StrJson (f[1])
                 << ",\"r\":" << One (CodeOf (InitConsCodeToSound (f[1][0])));
        } else if (f[0] == "F") {
            cout << ",\"c\":" << StrJson (f[1])
                 << ",\"r\":" << One (CodeOf (EndConsCodeToClass (f[1][0])));
        } else if (f[0] == "M") {
            cout << ",\"c\":" << StrJson (f[1])
                 << ",\"r\":" << One (CodeOf (ToneCodeToTone (f[1][0])));
        } else if (f[0] == "K") {
            thwchar_t c = stoi (f[1]);
            cout << ",\"c\":" << f[1];
            int r[] = { th_wcisthcons (c), th_wcisldvowel (c), th_wcisupvowel (c),
                        th_wcisblvowel (c), th_wcisthtone (c), th_wcisthvowel (c),
                        th_wcisthai (c) };
            string s;
            for (int x : r)
                s += x ? '1' : '0';
            cout << ",\"r\":" << StrJson (s);
        }
        cout << "}" << endl;
    }
    return 0;
}
