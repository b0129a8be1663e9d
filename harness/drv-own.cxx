// drv-own.cxx - do the same things over and over, and see what stays held
//
// stdin : number of rounds, events that come first, events of a round; fields
//         separated by tabs, events by blanks
//   n:R:M        reader R is made, M being n or b (word breaks)
//   m:R:M:F:PATH reader R is made with the dictionary file number F
//   l:R:F:PATH   reader R loads the dictionary file number F
//   r:R:HEX      reader R reads a text (hex digits of UTF-8), and its
//                pronunciations are written in all ways
//   x:R          reader R is discarded
//   N:D          dictionary D is made
//   M:D:F:PATH   dictionary D is made from the file number F
//   L:D:F:PATH   dictionary D opens the file number F
//   C:D          dictionary D is closed
//   R:D:HEX      words are looked up at each place of a text, to the end
//   S:D:HEX      the same, but only until the first word is found
//   X:D          dictionary D is discarded
// stdout: {"h":[[blocks of memory, files, bytes of memory] held at first and after each round],
//         "ok":[results of loading in the first round]}

#include "util.h"
#include "made.h"

#include "output/output-delim.h"
#include "output/output-gjson.h"
#include "output/output-json.h"
#include "output/output-roman.h"
#include "output/sylout-phonetic.h"
#include "output/sylout-raw.h"
#include "output/sylout-roman.h"
#include "output/sylout-soundex.h"
#include "output/sylout-thai.h"

#include <cerrno>
#include <cstddef>
#include <cstdlib>
#include <memory>
#include <dirent.h>
#include <malloc.h>

using namespace std;

static long blocks, bytes;

extern "C" {
void* __libc_malloc (size_t);
void* __libc_calloc (size_t, size_t);
void* __libc_realloc (void*, size_t);
void* __libc_memalign (size_t, size_t);
void __libc_free (void*);

static void*
Taken (void* p)
{
    if (p) {
        ++blocks;
        bytes += malloc_usable_size (p);
    }
    return p;
}

void*
malloc (size_t n)
{
    return Taken (__libc_malloc (n));
}

void*
calloc (size_t n, size_t m)
{
    return Taken (__libc_calloc (n, m));
}

void*
realloc (void* p, size_t n)
{
    long had = p ? malloc_usable_size (p) : 0;
    void* q = __libc_realloc (p, n);
    if (!q && n) return q;
    if (p) --blocks;
    bytes -= had;
    return Taken (q);
}

void*
aligned_alloc (size_t a, size_t n)
{
    return Taken (__libc_memalign (a, n));
}

void*
memalign (size_t a, size_t n)
{
    return aligned_alloc (a, n);
}

int
posix_memalign (void** p, size_t a, size_t n)
{
    *p = aligned_alloc (a, n);
    return *p ? 0 : ENOMEM;
}

void
free (void* p)
{
    if (p) {
        --blocks;
        bytes -= malloc_usable_size (p);
    }
    __libc_free (p);
}
}

static int
Files()
{
    int n = 0;
    DIR* dir = opendir ("/proc/self/fd");
    while (readdir (dir)) ++n;
    closedir (dir);
    return n;
}

static size_t
WriteAll (const PronunDAG& dag)
{
    typedef unique_ptr<ISylOutput> Notation;
    return DelimOutput (Notation (new ThaiSylOutput), '-').output (dag).size()
           + DelimOutput (Notation (new RawSylOutput), ' ').output (dag).size()
           + JsonOutput (Notation (new PhoneticSylOutput)).output (dag).size()
           + GroupedJsonOutput (Notation (new SoundexSylOutput)).output (dag).size()
           + GroupedJsonOutput (Notation (new RomanSylOutput)).output (dag).size()
           + RomanOutput (false).output (dag).size();
}

static map<int, unique_ptr<Parser>> readers;
static map<int, unique_ptr<Dict>> dicts;

static string
Do (const string& ev)
{
    auto f = SplitBy (ev, ':');
    int k = stoi (f[1]);
    switch (f[0][0]) {
    case 'n':
        readers[k] = unique_ptr<Parser> (new Parser (f[2] == "b"));
        break;
    case 'm':
        readers[k] = MakeParser<Parser> (f[4].c_str(), f[2] == "b", 0);
        break;
    case 'l':
        return readers[k]->loadExceptDict (f[3].c_str()) ? "1" : "0";
    case 'r':
        try {
            WriteAll (readers[k]->parseWord (Unhex (f[2])));
        } catch (const exception&) {
            // not valid text
        }
        break;
    case 'x':
        readers.erase (k);
        break;
    case 'N':
        dicts[k] = unique_ptr<Dict> (new Dict);
        break;
    case 'M':
        dicts[k] = MakeDict<Dict> (f[3].c_str(), 0);
        break;
    case 'L':
        return dicts[k]->open (f[3].c_str()) ? "1" : "0";
    case 'C':
        CloseDict (dicts[k], 0);
        break;
    case 'R':
    case 'S':
        {
            auto text = ToU16 (Unhex (f[2]));
            for (size_t p = 0; p <= text.size(); ++p) {
                Match match (text, p, dicts[k].get());
                while (match.findNext()) {
                    match.getData();
                    if (f[0] == "S") break;
                }
            }
        }
        break;
    case 'X':
        dicts.erase (k);
        break;
    default:
        exit (2);
    }
    return "";
}

int
main()
{
    // no blocks of whole pages, which take more bytes than others
    mallopt (M_MMAP_MAX, 0);
    string line;
    while (getline (cin, line)) {
        auto f = SplitBy (line, '\t');
        int rounds = stoi (f[0]);
        string held, ok;
        held.reserve (60 * rounds + 60);
        readers.clear();
        dicts.clear();
        auto run = [&] (const string& events, bool isFirst) {
            if (events.empty()) return;
            for (const auto& ev : SplitBy (events, ' ')) {
                auto r = Do (ev);
                if (isFirst && !r.empty()) ok += (ok.empty() ? "" : ",") + r;
            }
        };
        run (f[1], true);
        for (int k = 0; k <= rounds; ++k) {
            if (k) run (f[2], k == 1);
            held += (k ? ",[" : "[") + to_string (blocks) + "," + to_string (Files()) + ","
                    + to_string (bytes) + "]";
        }
        readers.clear();
        dicts.clear();
        cout << "{\"h\":[" << held << "],\"ok\":[" << ok << "]}" << endl;
    }
    return 0;
}
