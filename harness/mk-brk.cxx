// mk-brk.cxx - make a dictionary for the word segmenter
//
// usage: mk-brk DIR
// stdin: one word per line, as hex digits of its UTF-8 bytes
// Writes DIR/thbrk.tri, which the segmenter uses if LIBTHAI_DICTDIR is DIR.

#include "util.h"

#include <datrie/trie.h>

using namespace std;

int
main (int argc, char* argv[])
{
    if (argc < 2)
        return 2;
    AlphaMap* map = alpha_map_new();
    if (!map || alpha_map_add_range (map, 0x0e01, 0x0e2e) != 0
        || alpha_map_add_range (map, 0x0e30, 0x0e3a) != 0
        || alpha_map_add_range (map, 0x0e40, 0x0e4e) != 0)
    {
        return 2;
    }
    Trie* trie = trie_new (map);
    alpha_map_free (map);
    if (!trie)
        return 2;

    string line;
    while (getline (cin, line)) {
        u16string u16 = ToU16 (Unhex (line));
        vector<AlphaChar> key (u16.begin(), u16.end());
        key.push_back (0);
        if (!trie_store (trie, key.data(), 0))
            return 2;
    }
    return trie_save (trie, (string (argv[1]) + "/thbrk.tri").c_str()) == 0
               ? 0 : 2;
}
