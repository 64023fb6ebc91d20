// Records what the real code answers for every code point, as maximal ranges of equal answers.
#include "util.h"

#include <libunicode/codepoint_properties.h>
#include <libunicode/emoji_segmenter.h>
#include <libunicode/ucd.h>
#include <libunicode/ucd_fmt.h>
#include <libunicode/ucd_ostream.h>
#include <libunicode/width.h>

#include <climits>
#include <map>
#include <sstream>
#include <set>

using namespace std;
namespace u = unicode;

struct EnumInfo
{
    string name;
    vector<pair<string, long>> members; // identifier, value (LONG_MIN: no such enumerator)
    map<long, string> byValue;
};
template <typename T>
EnumInfo& info()
{
    static EnumInfo i;
    return i;
}
template <typename T>
void add(char const* e, char const* m, long v)
{
    auto& i = info<T>();
    i.name = e;
    i.members.emplace_back(m, v);
    if (v != LONG_MIN)
    {
        auto& n = i.byValue[v];
        n += n.empty() ? m : string("|") + m;
    }
}
template <typename T>
string nm(T v)
{
    auto const& b = info<T>().byValue;
    auto const i = b.find((long) v);
    return i != b.end() ? i->second : "#" + to_string((long) v);
}

static void setup()
{
#define E(T, M)                                              \
    add<u::T>(#T, #M, []<typename Q>(Q*) -> long {           \
        if constexpr (requires { Q::M; })                    \
            return (long) Q::M;                              \
        else                                                 \
            return LONG_MIN;                                 \
    }((u::T*) nullptr));
#ifndef VERIF_ENUMS
#define VERIF_ENUMS "enums.inc"
#endif
#include VERIF_ENUMS
#undef E
}

static string q(string const& s) { return "\"" + s + "\""; }
static char const* b(bool x) { return x ? "true" : "false"; }

static string widthOf(char32_t c)
{
    return "\"w\":" + to_string(u::width(c)) + ",\"rw\":" + to_string((int) u::codepoint_properties::get(c).char_width);
}

static string recordOf(char32_t c)
{
    auto const p = u::codepoint_properties::get(c);
    string s = "\"v\":{\"char_width\":" + to_string((int) p.char_width);
    auto const f = [&](char const* n, bool v) { s += string(",\"") + n + "\":" + b(v); };
    auto const e = [&](char const* n, string v) { s += string(",\"") + n + "\":" + q(v); };
    f("emoji", p.is_emoji());
    f("emoji_presentation", p.is_emoji_presentation());
    f("emoji_component", p.is_emoji_component());
    f("emoji_modifier", p.is_emoji_modifier());
    f("emoji_modifier_base", p.is_emoji_modifier_base());
    f("extended_pictographic", p.is_extended_pictographic());
    f("core_grapheme_extend", p.is_core_grapheme_extend());
    f("virama", p.is_virama());
    f("emoji_variation_base", p.is_emoji_variation_base());
    e("script", nm(p.script));
    e("grapheme_cluster_break", nm(p.grapheme_cluster_break));
    e("east_asian_width", nm(p.east_asian_width));
    e("general_category", nm(p.general_category));
    e("emoji_segmentation_category", nm(p.emoji_segmentation_category));
    e("age", nm(p.age));
    e("indic_conjunct_break", nm(p.indic_conjunct_break));
    e("word_break", nm(p.word_break));
    return s + "}";
}

static string queryOf(char32_t c)
{
    string s = "\"v\":{\"plane\":" + q(nm(u::plane(c)));
    auto const f = [&](char const* n, bool v) { s += string(",\"") + n + "\":" + b(v); };
    auto const e = [&](char const* n, string v) { s += string(",\"") + n + "\":" + q(v); };
    auto const list = [&](char const* n, vector<string> const& v) {
        s += string(",\"") + n + "\":[";
        for (size_t i = 0; i < v.size(); ++i)
            s += (i ? "," : "") + q(v[i]);
        s += "]";
    };
    e("block", nm(u::block(c)));
    e("script", nm(u::script(c)));
    auto const x = u::script_extensions(c);
    vector<string> l;
    if (x)
        for (auto v: *x)
            l.push_back(nm(v));
    list("script_extensions", l);
    f("has_script_extensions", x.has_value());
    e("general_category", nm(u::general_category::get(c)));
    l.clear();
    for (auto const& [name, v]: info<u::General_Category>().members)
        if (u::contains((u::General_Category) v, c))
            l.push_back(name);
    list("categories", l);
    l.clear();
#define E(T, M)
#define G(fn, M) if (u::general_category::is_##fn(c)) l.push_back(#M);
#include VERIF_ENUMS
#undef G
#undef E
    list("is_categories", l);
    l.clear();
    for (auto const& [name, v]: info<u::Core_Property>().members)
        if (u::contains((u::Core_Property) v, c))
            l.push_back(name);
    list("core", l);
    e("grapheme_cluster_break", nm(u::grapheme_cluster_break(c)));
    e("east_asian_width", nm(u::east_asian_width(c)));
    e("width_text", u::to_string(u::east_asian_width(c)));
    f("emoji", u::is_emoji(c));
    f("emoji_presentation", u::is_emoji_presentation(c));
    f("emoji_component", u::is_emoji_component(c));
    f("emoji_modifier", u::is_emoji_modifier(c));
    f("emoji_modifier_base", u::is_emoji_modifier_base(c));
    f("extended_pictographic", u::is_extended_pictographic(c));
    f("mirrored", u::is_mirrored(c));
    auto const g = u::bidi_mirroring_glyph(c);
    s += ",\"glyph\":" + (g == c ? string("-1") : g <= 0x10FFFF ? to_string((uint32_t) g) : string("-2"));
    return s + "}";
}

template <typename F>
static void dump(FILE* f, char const* kind, bool everything, F of)
{
    string last;
    uint32_t lo = 0;
    size_t lines = 0;
    auto const put = [&](uint32_t a, uint32_t z, string const& v) {
        if (++lines > 60000)
            return;
        if (a > 0x10FFFF)
            fprintf(f, "{\"kind\":\"%s\",\"big\":true,\"lo\":\"%u\",\"hi\":\"%u\",%s}\n", kind, a, z, v.c_str());
        else
            fprintf(f, "{\"kind\":\"%s\",\"big\":false,\"lo\":%u,\"hi\":%u,%s}\n", kind, a, z, v.c_str());
    };
    for (uint32_t c = 0; c <= 0x10FFFF; ++c)
    {
        ++vf::cases;
        auto v = of(c);
        if (v != last)
        {
            if (c)
                put(lo, c - 1, last);
            lo = c;
            last = std::move(v);
        }
    }
    put(lo, 0x10FFFF, last);
    // values beyond the code space
    vector<uint32_t> big;
    for (uint32_t c = 0x110000; c < 0x120100; ++c)
        big.push_back(c);
    for (int k = 21; k < 32; ++k)
        for (int d = -3; d < 4; ++d)
            big.push_back((1u << k) + d);
    for (uint32_t d = 0; d < 300; ++d)
        big.push_back(0xFFFFFFFFu - d), big.push_back(0x80000000u + d * 256), big.push_back(0xFFFF0000u + d), big.push_back(0x110000u * (d + 1));
    last.clear();
    uint32_t prev = 0;
    for (auto c: big)
    {
        ++vf::cases;
        auto v = of(c);
        if (v != last)
        {
            if (!last.empty())
                put(lo, prev, last);
            lo = c;
            last = std::move(v);
        }
        prev = c;
    }
    put(lo, prev, last);
    (void) everything;
}

/// width() of all 32-bit values behind the code space, compared with the value recorded for U+110000.
static void allWidths(FILE* f)
{
    auto const w = u::width((char32_t) 0x110000);
    auto const rw = u::codepoint_properties::get((char32_t) 0x110000).char_width;
    for (uint64_t c = 0x110000; c <= 0xFFFFFFFFull; ++c)
    {
        ++vf::cases;
        auto const a = u::width((char32_t) c);
        auto const z = u::codepoint_properties::get((char32_t) c).char_width;
        if (a != w || z != rw)
            fprintf(f, "{\"kind\":\"width\",\"big\":true,\"lo\":\"%u\",\"hi\":\"%u\",\"w\":%d,\"rw\":%d}\n", (uint32_t) c, (uint32_t) c, (int) a, (int) z);
    }
}

static string esc(string_view s)
{
    string o = "\"";
    for (unsigned char c: s)
        if (c < 0x20 || c == '"' || c == '\\' || c > 0x7E)
        {
            char t[8];
            snprintf(t, sizeof t, "\\u%04x", c);
            o += t;
        }
        else
            o += (char) c;
    return o + "\"";
}

template <typename T>
static void printed(FILE* f)
{
    auto const& i = info<T>();
    for (auto const& [m, v]: i.members)
    {
        ++vf::cases;
        string os = "(missing)", fm = "(missing)", padded = "(missing)";
        if (v != LONG_MIN)
        {
            ostringstream o;
            o << (T) v;
            os = o.str();
            fm = std::format("{}", (T) v);
            padded = std::format("[{:>60}]", (T) v);
        }
        auto const at = padded.find_first_not_of("[ ");
        fprintf(f, "{\"kind\":\"enum\",\"enum\":%s,\"member\":%s,\"value\":%s,\"ostream\":%s,\"format\":%s,\"padded\":%s,\"pad\":%zu}\n",
                esc(i.name).c_str(), esc(m).c_str(), esc(v == LONG_MIN ? "missing" : nm((T) v)).c_str(), esc(os).c_str(), esc(fm).c_str(),
                esc(padded.substr(at, padded.size() - at - 1)).c_str(), padded.size() - 2);
    }
    // values which no enumerator names
    if constexpr (!is_same_v<T, u::PresentationStyle> && !is_same_v<T, u::EmojiSegmentationCategory>)
    {
        using N = underlying_type_t<T>;
        vector<long> rest;
        for (long v = 0; v < 1000 && v <= (long) numeric_limits<N>::max(); ++v)
            if (!i.byValue.count(v))
                rest.push_back(v);
        if (sizeof(N) < 4 && !i.byValue.count((long) numeric_limits<N>::max()))
            rest.push_back((long) numeric_limits<N>::max());
        for (auto v: rest)
        {
            ++vf::cases;
            ostringstream o;
            o << (T) v;
            fprintf(f, "{\"kind\":\"unnamed\",\"enum\":%s,\"number\":%ld,\"ostream\":%s}\n", esc(i.name).c_str(), v, esc(o.str()).c_str());
        }
    }
}

static string ageOf(string const& s)
{
    auto const a = u::make_age(s);
    return a ? nm(*a) : "";
}

int main(int argc, char** argv)
{
    if (argc < 3)
        vf::usage("ucd MODE OUT");
    setup();
    string const mode = argv[1];
    auto* f = fopen(argv[2], "w");
    if (mode == "width")
    {
        dump(f, "width", false, widthOf);
        if (argc > 3)
            allWidths(f);
    }
    else if (mode == "record")
        dump(f, "record", false, recordOf);
    else if (mode == "query")
        dump(f, "query", false, queryOf);
    else if (mode == "enums")
    {
        printed<u::Plane>(f);
        printed<u::Age>(f);
        printed<u::Bidi_Class>(f);
        printed<u::Bidi_Paired_Bracket_Type>(f);
        printed<u::Canonical_Combining_Class>(f);
        printed<u::Decomposition_Type>(f);
        printed<u::East_Asian_Width>(f);
        printed<u::Grapheme_Cluster_Break>(f);
        printed<u::Hangul_Syllable_Type>(f);
        printed<u::Indic_Conjunct_Break>(f);
        printed<u::Indic_Positional_Category>(f);
        printed<u::Indic_Syllabic_Category>(f);
        printed<u::Jamo_Short_Name>(f);
        printed<u::Joining_Group>(f);
        printed<u::Joining_Type>(f);
        printed<u::Line_Break>(f);
        printed<u::NFC_Quick_Check>(f);
        printed<u::NFKC_Quick_Check>(f);
        printed<u::Numeric_Type>(f);
        printed<u::Sentence_Break>(f);
        printed<u::Vertical_Orientation>(f);
        printed<u::Word_Break>(f);
        printed<u::Core_Property>(f);
        printed<u::General_Category>(f);
        printed<u::Script>(f);
        printed<u::Block>(f);
        printed<u::EastAsianWidth>(f);
        printed<u::PresentationStyle>(f);
        printed<u::EmojiSegmentationCategory>(f);
    }
    else if (mode == "names")
    {
        for (uint32_t lo = 0; lo <= 0x10FFFF; lo += 256)
        {
            bool any = false;
            string s;
            for (uint32_t c = lo; c < lo + 256; ++c)
            {
                ++vf::cases;
                auto const n = u::codepoint_properties::name(c);
                any |= !n.empty();
                s += (c == lo ? "" : ",") + esc(n);
            }
            if (any)
                fprintf(f, "{\"kind\":\"names\",\"lo\":%u,\"names\":[%s]}\n", lo, s.c_str());
            else
                fprintf(f, "{\"kind\":\"none\",\"lo\":%u,\"names\":[]}\n", lo);
        }
        string s;
        for (uint32_t c: { 0x110000u, 0x110001u, 0x110041u, 0x1FFFFFu, 0x7FFFFFFFu, 0x80000041u, 0xFFFFFFFFu })
        {
            ++vf::cases;
            s += (s.empty() ? "" : ",") + esc(u::codepoint_properties::name(c));
        }
        fprintf(f, "{\"kind\":\"big\",\"lo\":1114112,\"names\":[%s]}\n", s.c_str());
    }
    else if (mode == "ages")
    {
        vector<string> in;
        for (int a = 0; a < 40; ++a)
            for (int z = 0; z < 15; ++z)
                for (string t: { "", " ", "0", ".0", "x" })
                {
                    in.push_back(to_string(a) + "." + to_string(z) + t);
                    if (!t.empty())
                        in.push_back(t + to_string(a) + "." + to_string(z));
                }
        for (int a = 0; a < 40; ++a)
            for (string t: { "", ".", "_0", "-0", ",0" })
                in.push_back(to_string(a) + t), in.push_back("V" + to_string(a) + "_0");
        for (string t: { "", ".", "NA", "na", "Unassigned", "1", "V1_1", "15.1.0", "1.10", "01.1", "1.1\n" })
            in.push_back(t);
        in.push_back(string("1.1\0", 4));
        in.push_back(string("\0", 1));
        string order;
        for (auto const& [v, n]: info<u::Age>().byValue)
            order += (order.empty() ? "" : ",") + esc(n);
        fprintf(f, "{\"kind\":\"ageorder\",\"order\":[%s]}\n", order.c_str());
        for (auto const& a: in)
        {
            ++vf::cases;
            fprintf(f, "{\"kind\":\"age\",\"text\":%s,\"age\":%s}\n", esc(a).c_str(), esc(ageOf(a)).c_str());
        }
    }
    else
        vf::usage("mode");
    fclose(f);
    return vf::finish();
}
