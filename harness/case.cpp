// Conformance harness for case mapping: records for spec/CaseTrace.tla and replays the tables of spec/CaseGen.tla.
#include "segtab.h"
#include "utftab.h"

#include <libunicode/case_mapping.h>

#include <algorithm>
#include <unordered_map>

using namespace unicode;
using namespace std;
using vf::mismatch;
using vf::show;

enum { Upper, Lower, Title, Fold };
static constexpr char const* opNames[] = { "upper", "lower", "title", "fold" };

static char32_t simpleOf(int op, char32_t c)
{
    switch (op)
    {
        case Upper: return simple_uppercase(c);
        case Lower: return simple_lowercase(c);
        case Title: return simple_titlecase(c);
        default: return simple_casefold(c);
    }
}
static case_mapping_result fullOf(int op, char32_t c)
{
    switch (op)
    {
        case Upper: return full_uppercase(c);
        case Lower: return full_lowercase(c);
        case Title: return full_titlecase(c);
        default: return full_casefold(c);
    }
}
static bool changesOf(int op, char32_t c)
{
    switch (op)
    {
        case Upper: return changes_when_uppercased(c);
        case Lower: return changes_when_lowercased(c);
        case Title: return changes_when_titlecased(c);
        default: return changes_when_casefolded(c);
    }
}
template <typename S>
static auto convertTo(int op, S s)
{
    switch (op)
    {
        case Upper: return to_uppercase(s);
        case Lower: return to_lowercase(s);
        case Title: return to_titlecase(s);
        default: return casefold(s);
    }
}
template <typename F>
static string perOp(F fn)
{
    string s = "{";
    for (int op = 0; op < 4; ++op)
        s += string(op ? "," : "") + "\"" + opNames[op] + "\":" + fn(op);
    return s + "}";
}
static char const* truth(bool b) { return b ? "true" : "false"; }
static int sign(int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }

struct Tables
{
    struct Row { uint32_t simple[4]; u32string full[4]; };
    unordered_map<uint32_t, Row> rows;
    vector<uint32_t> mapped;
    vector<pair<uint32_t, uint32_t>> cased;

    void load(char const* file)
    {
        vf::Ints in(file);
        for (auto n = in.get(); n > 0; --n)
        {
            auto const c = (uint32_t) in.get();
            mapped.push_back(c);
            auto& r = rows[c];
            for (auto& x: r.simple)
                x = (uint32_t) in.get();
            for (auto& f: r.full)
                for (auto k = in.get(); k > 0; --k)
                    f += (char32_t) in.get();
        }
        for (auto n = in.get(); n > 0; --n)
        {
            auto const a = (uint32_t) in.get(), b = (uint32_t) in.get();
            cased.emplace_back(a, b);
        }
    }
    bool isCased(uint32_t c) const
    {
        auto const i = upper_bound(cased.begin(), cased.end(), c, [](auto x, auto const& r) { return x < r.first; });
        return i != cased.begin() && c <= prev(i)->second;
    }
    u32string full(int op, char32_t c) const
    {
        auto const i = rows.find(c);
        return i == rows.end() ? u32string(1, c) : i->second.full[op];
    }
};
static Tables tab;
static vf::SegTab words;
static vf::StreamTab ut;

static u32string wanted(int op, u32string const& s)
{
    u32string out;
    if (op != Title)
    {
        for (auto c: s)
            out += tab.full(op, c);
        return out;
    }
    size_t at = 0;
    for (auto n: words.lengths(s))
    {
        bool begun = false;
        for (auto const end = at + (size_t) n; at < end; ++at)
            if (!tab.isCased(s[at]))
                out += s[at];
            else
            {
                out += tab.full(begun ? Lower : Title, s[at]);
                begun = true;
            }
    }
    return out;
}

static bool scalars(u32string_view s)
{
    return all_of(s.begin(), s.end(), [](char32_t c) { return c <= 0x10FFFF && (c < 0xD800 || c > 0xDFFF); });
}
static string utf8(u32string_view s)
{
    string o;
    for (auto c: s)
        vf::putUtf8(o, c);
    return o;
}
static char32_t any(vf::Rng& r)
{
    static constexpr char32_t misc[] = { ' ', '\'', '.', ':', '-', '_', '3', 0x301, 0x345, 0x200D, 0x2019, 0xAD, 0x2B0, 0x24D0, 0x2160, 0xB7, 0x5D0, 0x30A2, 0x4E00, '\n', 0x1F600, 0 };
    switch (r.below(8))
    {
        case 0:
        case 1:
        case 2: return (char32_t) r.pick(tab.mapped);
        case 3: return misc[r.below(size(misc))];
        case 4: return (char32_t) ((r.chance(50) ? 'a' : 'A') + r.below(26));
        case 5:
        {
            auto const f = tab.full((int) r.below(4), (char32_t) r.pick(tab.mapped));
            return f[r.below((uint32_t) f.size())];
        }
        case 6: return (char32_t) vf::randomScalar(r);
        default: return (char32_t) (r.chance(50) ? 'a' + r.below(26) : r.pick(tab.mapped));
    }
}
static u32string text(vf::Rng& r, uint32_t n)
{
    u32string s;
    for (auto k = r.below(n + 1); k > 0; --k)
        s += any(r);
    return s;
}
/// A text to compare with: often equal but for case, a prefix, or different in one place.
static u32string companion(vf::Rng& r, u32string const& s)
{
    auto o = s;
    switch (r.below(6))
    {
        case 0: return text(r, 4);
        case 1: o = convertTo((int) r.below(4), u32string_view(s)); break;
        case 2:
            for (auto& c: o)
                c = simpleOf((int) r.below(4), c);
            break;
        case 3: o.resize(r.below((uint32_t) o.size() + 1)); break;
        case 4: o += any(r); break;
        default:
            for (auto& c: o)
                c = simpleOf((int) r.below(4), c);
            if (!o.empty())
                o[r.below((uint32_t) o.size())] = any(r);
    }
    return o;
}
static string bytesOf(vf::Rng& r, u32string const& s)
{
    auto b = utf8(s);
    if (r.chance(30) && !b.empty())
    {
        auto const clean = b;
        switch (r.below(3))
        {
            case 0: b.erase(r.below((uint32_t) b.size()), 1); break;
            case 1: b.insert(r.below((uint32_t) b.size()), 1, (char) r.below(256)); break;
            default: b.resize(r.below((uint32_t) b.size())); break;
        }
        if (!scalars(ut.converted(b)))
            return clean;
    }
    return b;
}

static void points(ostream& out)
{
    long from = -1;
    bool wasCased = false, wasIgnorable = false;
    auto const close = [&](uint32_t c) {
        if (from >= 0)
            out << "{\"k\":\"range\",\"lo\":" << from << ",\"hi\":" << c - 1 << ",\"cased\":" << truth(wasCased) << ",\"ignorable\":" << truth(wasIgnorable) << "}\n";
        from = -1;
    };
    for (uint32_t c = 0; c <= 0x110010; ++c)
    {
        ++vf::cases;
        bool plain = true;
        for (int op = 0; op < 4; ++op)
            plain = plain && simpleOf(op, c) == c && fullOf(op, c).length == 0 && fullOf(op, c).is_identity() && fullOf(op, c).view().empty() && !changesOf(op, c);
        auto const cased = is_cased(c), ign = is_case_ignorable(c);
        if (!plain || c % 2048 == 0 || (from >= 0 && (cased != wasCased || ign != wasIgnorable)))
            close(c);
        if (plain)
        {
            if (from < 0)
            {
                from = c;
                wasCased = cased;
                wasIgnorable = ign;
            }
            continue;
        }
        out << "{\"k\":\"point\",\"c\":" << c << ",\"simple\":" << perOp([&](int op) { return to_string((uint32_t) simpleOf(op, c)); })
            << ",\"full\":" << perOp([&](int op) { return show(fullOf(op, c).view()); })
            << ",\"changes\":" << perOp([&](int op) { return string(truth(changesOf(op, c))); })
            << ",\"cased\":" << truth(cased) << ",\"ignorable\":" << truth(ign) << "}\n";
    }
    close(0x110011);
    for (uint32_t c: { 0x200041u, 0x7FFFFFFFu, 0x80000061u, 0xFFFFFFFFu })
        for (int op = 0; op < 4; ++op)
            if (simpleOf(op, c) != c || fullOf(op, c).length || changesOf(op, c) || is_cased(c))
                mismatch("value beyond the code space " + to_string(c) + " is changed by " + opNames[op]);
}

int main(int argc, char** argv)
{
    if (argc < 6)
        vf::usage("mode case seg utf ...");
    string const mode = argv[1];
    tab.load(argv[2]);
    words.load(argv[3]);
    ut.load(argv[4]);
    auto const arg = [&](int i) { return i < argc ? argv[i] : (vf::usage("arguments"), argv[0]); };
    if (mode == "points") // out
    {
        ofstream out(arg(5));
        points(out);
    }
    else if (mode == "record") // seed n out
    {
        vf::Rng r((uint64_t) atoll(arg(5)));
        ofstream out(arg(7));
        for (int i = 0, n = atoi(arg(6)); i < n; ++i)
        {
            ++vf::cases;
            auto const s = text(r, 8), o = companion(r, s);
            u32string_view const a = s, b = o;
            out << "{\"k\":\"text\",\"in\":" << show(s) << ",\"other\":" << show(o) << ",\"out\":" << perOp([&](int op) { return show(convertTo(op, a)); })
                << ",\"cmp\":" << sign(casefold_compare(a, b)) << ",\"eq\":" << truth(casefold_equals(a, b)) << "}\n";
            if (!scalars(s) || !scalars(o))
                continue;
            auto const x = bytesOf(r, s), y = bytesOf(r, o);
            string_view const p = x, q = y;
            out << "{\"k\":\"bytes\",\"in\":" << show(x) << ",\"other\":" << show(y) << ",\"out\":" << perOp([&](int op) { return show(convertTo(op, p)); })
                << ",\"cmp\":" << sign(casefold_compare(p, q)) << ",\"eq\":" << truth(casefold_equals(p, q)) << "}\n";
        }
    }
    else if (mode == "replay") // seed n
    {
        vf::Rng r((uint64_t) atoll(arg(5)));
        auto const one = [&](u32string const& s) {
            ++vf::cases;
            for (int op = 0; op < 4; ++op)
            {
                auto const want = wanted(op, s), got = convertTo(op, u32string_view(s));
                if (got != want)
                    mismatch(string(opNames[op]) + " of " + show(s) + " is " + show(got) + " expected " + show(want));
            }
            auto const o = companion(r, s);
            auto const f = wanted(Fold, s), g = wanted(Fold, o);
            auto const want = f < g ? -1 : f > g ? 1 : 0, got = sign(casefold_compare(u32string_view(s), u32string_view(o)));
            if (got != want || casefold_equals(u32string_view(s), u32string_view(o)) != (want == 0))
                mismatch("comparison of " + show(s) + " and " + show(o) + " is " + to_string(got));
            if (!scalars(s) || !scalars(o))
                return;
            auto const b = utf8(s);
            auto const op = (int) r.below(4);
            if (auto const u = convertTo(op, string_view(b)); u != utf8(wanted(op, s)))
                mismatch(string(opNames[op]) + " of UTF-8 " + show(b) + " is " + show(u));
            auto const p = utf8(o);
            if (sign(casefold_compare(string_view(b), string_view(p))) != want || casefold_equals(string_view(b), string_view(p)) != (want == 0))
                mismatch("comparison of UTF-8 " + show(b) + " and " + show(p));
        };
        for (auto c: tab.mapped) // every mapped code point first, in the middle and behind a mark
        {
            one({ (char32_t) c, (char32_t) c });
            one({ (char32_t) c, 'x', (char32_t) c, ' ', (char32_t) c });
            one({ '\'', (char32_t) c, 0x301, (char32_t) c, '.', (char32_t) c });
        }
        for (int i = 0, n = atoi(arg(6)); i < n; ++i)
        {
            auto s = text(r, i % 32 ? 10 : 200);
            vf::stretch(r, s, (uint64_t) i);
            one(s);
        }
    }
    else
        vf::usage("mode");
    return vf::finish();
}
