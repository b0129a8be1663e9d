// util.h - helpers shared by the harness drivers
//
// The drivers call the program's own classes the way its tests and its main
// program do, and write what they observe as one JSON record per line.

#ifndef HARNESS_UTIL_H
#define HARNESS_UTIL_H

#include "lattice/pron-dag.h"

#include <algorithm>
#include <codecvt>
#include <functional>
#include <iostream>
#include <locale>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>

typedef std::vector<std::string> Strings;

inline std::string
Unhex (const std::string& hex)
{
    std::string out;
    for (size_t i = 0; i + 1 < hex.size(); i += 2)
        out += static_cast<char> (stoi (hex.substr (i, 2), nullptr, 16));
    return out;
}

inline std::u16string
ToU16 (const std::string& s)
{
    std::wstring_convert<std::codecvt_utf8_utf16<char16_t>, char16_t> conv;
    return conv.from_bytes (s);
}

// JSON array of the integers in a container
template<typename T> std::string
IntsJson (const T& v)
{
    std::string s = "[";
    bool first = true;
    for (auto x : v) {
        if (!first) s += ",";
        first = false;
        s += std::to_string (static_cast<long> (x));
    }
    return s + "]";
}

inline std::string
StrJson (const std::string& s)
{
    static const char* hex = "0123456789abcdef";
    std::string out = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            out += '\\';
            out += c;
        } else if (c < 0x20) {
            out += "\\u00";
            out += hex[c >> 4];
            out += hex[c & 15];
        } else {
            out += c;
        }
    }
    return out + "\"";
}

// One-letter codes of the syllable components ('*': not a proper value)
inline char
CodeOf (EInitConsSound c)
{
    switch (c) {
    case EInitConsSound::KA:  return 'k';
    case EInitConsSound::KHA: return 'c';
    case EInitConsSound::NGA: return 'g';
    case EInitConsSound::JA:  return 'j';
    case EInitConsSound::CHA: return 'J';
    case EInitConsSound::YA:  return 'y';
    case EInitConsSound::DA:  return 'd';
    case EInitConsSound::TA:  return 't';
    case EInitConsSound::THA: return 'T';
    case EInitConsSound::NA:  return 'n';
    case EInitConsSound::BA:  return 'b';
    case EInitConsSound::PA:  return 'p';
    case EInitConsSound::PHA: return 'P';
    case EInitConsSound::FA:  return 'f';
    case EInitConsSound::MA:  return 'm';
    case EInitConsSound::RA:  return 'r';
    case EInitConsSound::LA:  return 'l';
    case EInitConsSound::WA:  return 'w';
    case EInitConsSound::SA:  return 's';
    case EInitConsSound::HA:  return 'h';
    case EInitConsSound::A:   return '?';
    default:                  return '*';
    }
}

inline char
CodeOf (ESecInitCons c)
{
    switch (c) {
    case ESecInitCons::NONE: return '_';
    case ESecInitCons::RA:   return 'r';
    case ESecInitCons::LA:   return 'l';
    case ESecInitCons::WA:   return 'w';
    default:                 return '*';
    }
}

inline char
CodeOf (EVowel v)
{
    switch (v) {
    case EVowel::A:    return 'a';
    case EVowel::AA:   return 'A';
    case EVowel::I:    return 'i';
    case EVowel::II:   return 'I';
    case EVowel::UE:   return 'v';
    case EVowel::UEE:  return 'V';
    case EVowel::U:    return 'u';
    case EVowel::UU:   return 'U';
    case EVowel::E:    return 'e';
    case EVowel::EE:   return 'E';
    case EVowel::AE:   return 'x';
    case EVowel::AEE:  return 'X';
    case EVowel::IA:   return 'y';
    case EVowel::IAA:  return 'Y';
    case EVowel::UEA:  return 'z';
    case EVowel::UEAA: return 'Z';
    case EVowel::UA:   return 't';
    case EVowel::UAA:  return 'T';
    case EVowel::O:    return 'o';
    case EVowel::OO:   return 'O';
    case EVowel::AU:   return 'c';
    case EVowel::AUU:  return 'C';
    case EVowel::OE:   return 'w';
    case EVowel::OEE:  return 'W';
    default:           return '*';
    }
}

inline char
CodeOf (EEndConsClass c)
{
    switch (c) {
    case EEndConsClass::NONE: return '_';
    case EEndConsClass::KOK:  return 'k';
    case EEndConsClass::KOT:  return 't';
    case EEndConsClass::KOP:  return 'p';
    case EEndConsClass::KONG: return 'g';
    case EEndConsClass::KON:  return 'n';
    case EEndConsClass::KOM:  return 'm';
    case EEndConsClass::KOEY: return 'y';
    case EEndConsClass::KOEW: return 'w';
    default:                  return '*';
    }
}

inline char
CodeOf (ETone t)
{
    switch (t) {
    case ETone::SAMAN:    return '0';
    case ETone::EK:       return '1';
    case ETone::THO:      return '2';
    case ETone::TRI:      return '3';
    case ETone::CHATTAWA: return '4';
    default:              return '*';
    }
}

// Segments of a syllable as the specification writes them: four code letters,
// or "L" and the UTF-16 code units of a literal joined by '.'
inline std::string
Label (const Syl& syl)
{
    if (syl.isLiteral()) {
        std::string s = "L";
        bool first = true;
        for (auto c : syl.literal()) {
            if (!first) s += ".";
            first = false;
            s += std::to_string (static_cast<unsigned> (c));
        }
        return s;
    }
    std::string s;
    s += CodeOf (syl.iCons1());
    s += CodeOf (syl.iCons2());
    s += CodeOf (syl.vowel());
    s += CodeOf (syl.eCons());
    return s;
}

inline std::string
ToneLabel (const Syl& syl)
{
    return syl.isLiteral() ? "" : std::string (1, CodeOf (syl.tone()));
}

struct Edge {
    int from;
    int to;
    std::string seg;
    std::string tone;
    bool operator< (const Edge& o) const {
        return std::tie (from, to, seg, tone)
               < std::tie (o.from, o.to, o.seg, o.tone);
    }
};

// Edges of the pronunciation graph between text positions 0..n.  Nodes
// which are no text positions are passed through: the labels on the way
// are joined by '+'.
inline std::vector<Edge>
GraphEdges (const PronunDAG& dag, int n)
{
    std::multimap<int, Edge> out;
    for (auto it = dag.outBegin(); it != dag.outEnd(); ++it)
        out.emplace (it->first, Edge { it->first, it->second.target,
                                       Label (it->second.edgeVal),
                                       ToneLabel (it->second.edgeVal) });
    std::vector<Edge> edges;
    auto isPos = [n] (int x) { return 0 <= x && x <= n; };
    for (const auto& e : out) {
        if (!isPos (e.first)) continue;
        std::vector<Edge> work { e.second };
        int guard = 0;
        while (!work.empty() && ++guard < 100000) {
            auto cur = work.back();
            work.pop_back();
            auto range = out.equal_range (cur.to);
            if (isPos (cur.to) || range.first == range.second) {
                edges.push_back (cur);
            } else {
                for (auto it = range.first; it != range.second; ++it)
                    work.push_back (Edge {
                        cur.from, it->second.to,
                        cur.seg + "+" + it->second.seg,
                        cur.tone + it->second.tone });
            }
        }
    }
    std::sort (edges.begin(), edges.end());
    return edges;
}

inline std::string
EdgesJson (const std::vector<Edge>& edges)
{
    std::string s = "[";
    for (size_t i = 0; i < edges.size(); ++i) {
        if (i) s += ",";
        s += "[" + std::to_string (edges[i].from) + ","
             + std::to_string (edges[i].to) + ","
             + StrJson (edges[i].seg) + "," + StrJson (edges[i].tone) + "]";
    }
    return s + "]";
}

inline Strings
SplitBy (const std::string& s, char d)
{
    Strings v;
    size_t b = 0, e;
    while ((e = s.find (d, b)) != std::string::npos) {
        v.push_back (s.substr (b, e - b));
        b = e + 1;
    }
    v.push_back (s.substr (b));
    return v;
}

// Number of ways through the graph from node 0
inline double
CountPaths (const PronunDAG& dag)
{
    std::map<int, double> known;
    std::function<double (int)> count = [&] (int n) {
        auto it = known.find (n);
        if (it != known.end()) return it->second;
        auto range = dag.outEdges (n);
        double sum = range.first == range.second ? 1 : 0;
        for (auto e = range.first; e != range.second; ++e)
            sum += count (e->second.target);
        return known[n] = sum;
    };
    return count (0);
}

#endif
