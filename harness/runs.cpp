// Conformance harness for combined runs: refinement of the machines of Script.tla and Emoji.tla; records for RunsTrace.tla.
#include "emojitab.h"
#include "scripttab.h"

#include <libunicode/run_segmenter.h>

using namespace unicode;
using namespace std;
using vf::mismatch;
using vf::show;

static vf::ScriptTab st;
static vf::EmojiTab et;

template <unsigned Bit>
struct bit_value // (printing a range needs different types)
{
    int value = 0;
    bool operator==(bit_value const&) const = default;
    friend ostream& operator<<(ostream& os, bit_value v) { return os << v.value; }
};

/// A component that breaks where a bit of the code points changes.
template <unsigned Bit>
struct bit_segmenter
{
    using property_type = bit_value<Bit>;
    char32_t const* text = nullptr;
    size_t size = 0, at = 0;
    bit_segmenter() = default;
    bit_segmenter(char32_t const* t, size_t n): text(t), size(n) {}
    bool consume(out<size_t> end, out<bit_value<Bit>> value)
    {
        if (at >= size)
            return false;
        auto const v = (text[at] >> Bit) & 1;
        while (at < size && ((text[at] >> Bit) & 1) == v)
            ++at;
        *end = at;
        *value = bit_value<Bit> { (int) v };
        return true;
    }
};

struct Range
{
    size_t start, end;
    string props; // as JSON and ", " separated text
    string text;
};

template <unsigned Bit>
static string value(bit_value<Bit> v) { return to_string(v.value); }
static string value(Script s) { return "\"" + vf::ScriptTab::name(s) + "\""; }
static string value(PresentationStyle s) { return s == PresentationStyle::Emoji ? "\"Emoji\"" : "\"Text\""; }

template <typename R>
static vector<Range> rangesOf(u32string_view s, bool view)
{
    auto seg = view ? R(s) : R(s.data(), s.size());
    vector<Range> v;
    vector<typename R::range> all;
    typename R::range r {};
    while (v.size() <= s.size())
    {
        auto const finished = seg.finished();
        if (!seg.consume(out(r)))
        {
            if (!finished)
                mismatch("consume fails before it is finished in " + show(s));
            break;
        }
        if (finished)
            mismatch("goes on when it is finished in " + show(s));
        string props, text;
        apply([&](auto const&... p) { ((props += (props.empty() ? "" : ",") + value(p)), ...); }, r.properties);
        ostringstream os;
        os << r;
        v.push_back({ r.start, r.end, props, os.str() });
        // ranges are equal if nothing distinguishes them (neighbours, and with only the position moved or the properties of the first)
        auto moved = r, other = r;
        moved.end += 1;
        if (!all.empty())
            other.properties = all[0].properties;
        auto const differs = other.properties != r.properties;
        if (!(r == typename R::range(r)) || r != typename R::range(r) || r == moved || !(r != moved) || (r == other) == differs || (r != other) != differs)
            mismatch("ranges of " + show(s) + " compare wrong at " + to_string(r.start));
        moved.start += 1, moved.end -= 1;
        if (r == moved || !(r != moved))
            mismatch("ranges of " + show(s) + " compare without their start at " + to_string(r.start));
        all.push_back(r);
    }
    if (!seg.finished() || seg.consume(out(r)) || seg.consume(out(r)))
        mismatch("goes on behind the end of " + show(s));
    return v;
}

struct Comp { vector<pair<size_t, string>> runs; };
static vector<Range> refined(vector<Comp> const& comps)
{
    vector<size_t> ends;
    for (auto const& c: comps)
        for (auto const& r: c.runs)
            ends.push_back(r.first);
    sort(ends.begin(), ends.end());
    ends.erase(unique(ends.begin(), ends.end()), ends.end());
    vector<Range> out;
    size_t from = 0;
    for (auto e: ends)
    {
        Range r { from, e, "", "(" + to_string(from) + ".." + to_string(e) };
        for (auto const& c: comps)
            for (auto const& run: c.runs)
                if (from < run.first)
                {
                    r.props += (r.props.empty() ? "" : ",") + run.second;
                    auto t = run.second;
                    erase(t, '"');
                    r.text += ", " + t;
                    break;
                }
        r.text += ")";
        out.push_back(r);
        from = e;
    }
    return out;
}
static void compare(u32string_view s, vector<Range> const& got, vector<Range> const& want, char const* what)
{
    ++vf::cases;
    string a, b;
    for (auto const& r: got)
        a += to_string(r.start) + ".." + to_string(r.end) + " " + r.props + " " + r.text + ";";
    for (auto const& r: want)
        b += to_string(r.start) + ".." + to_string(r.end) + " " + r.props + " " + r.text + ";";
    if (a != b)
        mismatch(string(what) + " of " + show(s) + " are " + a + " expected " + b);
}
static vector<Comp> textComps(u32string_view s)
{
    vector<Comp> c(2);
    for (auto const& r: st.runs(s))
        c[0].runs.emplace_back(r.end, "\"" + r.script + "\"");
    for (auto const& r: et.runs(s))
        c[1].runs.emplace_back(r.end, r.emoji ? "\"Emoji\"" : "\"Text\"");
    return c;
}
static vector<Comp> bitComps(u32string_view s, int n)
{
    vector<Comp> c((size_t) n);
    for (int b = 0; b < n; ++b)
        for (size_t i = 0; i < s.size(); ++i)
        {
            auto const v = to_string((s[i] >> b) & 1);
            auto& runs = c[(size_t) b].runs;
            if (!runs.empty() && runs.back().second == v)
                runs.back().first = i + 1;
            else
                runs.emplace_back(i + 1, v);
        }
    return c;
}
using Bits1 = basic_run_segmenter<bit_segmenter<0>>;
using Bits3 = basic_run_segmenter<bit_segmenter<0>, bit_segmenter<1>, bit_segmenter<2>>;
using Bits5 = basic_run_segmenter<bit_segmenter<0>, bit_segmenter<1>, bit_segmenter<2>, bit_segmenter<3>, bit_segmenter<4>>;
static vector<Range> bitRanges(u32string_view s, int n, bool view)
{
    return n == 1 ? rangesOf<Bits1>(s, view) : n == 3 ? rangesOf<Bits3>(s, view) : rangesOf<Bits5>(s, view);
}

static u32string randomText(vf::Rng& r, uint32_t n)
{
    u32string s;
    auto const emoji = [&] {
        static vector<vector<int>> const pieces { { 1, 12 }, { 2 }, { 3, 4 }, { 6, 6 }, { 6 }, { 13, 14, 15 }, { 7, 12, 8 }, { 7 }, { 3, 4, 10, 3 }, { 1 }, { 2, 11 } };
        for (auto c: pieces[r.below((uint32_t) pieces.size())])
            if (!et.members[(size_t) c].empty())
                s += (char32_t) r.pick(et.members[(size_t) c]);
    };
    while (s.size() < n)
    {
        if (r.chance(40))
            emoji();
        else
            s += st.text(r, 3);
        if (n < 50 && r.chance(12))
            break;
    }
    return s;
}

int main(int argc, char** argv)
{
    if (argc < 6)
        vf::usage("mode script emoji ...");
    string const mode = argv[1];
    st.load(argv[2]);
    et.load(argv[3]);
    auto const arg = [&](int i) { return i < argc ? argv[i] : (vf::usage("arguments"), argv[0]); };
    vf::Rng r((uint64_t) atoll(arg(4)));
    auto const n = atoi(arg(5));
    auto const bits = [&] {
        u32string s;
        auto const stay = r.below(90);
        for (auto k = r.below(10); k > 0; --k)
            s += s.empty() || !r.chance(stay) ? (char32_t) r.below(32) : r.chance(50) ? s.back() : s.back() ^ (1u << r.below(5));
        return s;
    };
    if (mode == "random") // seed n
    {
        compare(U"", rangesOf<run_segmenter>(U"", true), {}, "runs");
        for (uint32_t c = 0; c <= 0x10FFFF; c += (c < 0x30000 ? 1 : 97))
        {
            u32string const s { 'A', (char32_t) c, 0x1F600, (char32_t) c, 0xFE0F };
            compare(s, rangesOf<run_segmenter>(s, true), refined(textComps(s)), "runs");
        }
        for (int i = 0; i < n; ++i)
        {
            auto s = randomText(r, i % 64 ? 12 : 200);
            vf::stretch(r, s, (uint64_t) i, 3000);
            compare(s, rangesOf<run_segmenter>(s, r.chance(50)), refined(textComps(s)), "runs");
            auto b = bits();
            vf::stretch(r, b, (uint64_t) i + 3, 3000);
            static constexpr int sizes[] = { 1, 3, 5 };
            auto const k = sizes[r.below(3)];
            compare(b, bitRanges(b, k, r.chance(50)), refined(bitComps(b, k)), "ranges");
        }
    }
    else if (mode == "record") // seed n out
    {
        ofstream out(arg(6));
        for (int i = 0; i < n; ++i)
        {
            ++vf::cases;
            auto const runs = r.chance(70);
            auto const s = runs ? randomText(r, 9) : bits();
            auto const k = r.chance(30) ? 1 : r.chance(50) ? 3 : 5;
            auto const v = runs ? rangesOf<run_segmenter>(s, r.chance(50)) : bitRanges(s, k, r.chance(50));
            out << "{\"k\":\"" << (runs ? "runs" : "bits") << "\",\"n\":" << k << ",\"cps\":" << show(s) << ",\"ranges\":[";
            for (size_t j = 0; j < v.size(); ++j)
                out << (j ? "," : "") << "[" << v[j].start << "," << v[j].end << ",[" << v[j].props << "]]";
            out << "]}\n";
        }
    }
    else
        vf::usage("mode");
    return vf::finish();
}
