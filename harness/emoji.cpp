// Conformance harness for the emoji segmenter: the automaton of spec/EmojiGen.tla and records for spec/EmojiTrace.tla.
#include "emojitab.h"

#include <libunicode/emoji_segmenter.h>

#include <format>
#include <sstream>

using namespace unicode;
using namespace std;
using vf::mismatch;
using vf::show;
using Run = vf::EmojiTab::Run;

static vf::EmojiTab tab;

static string text(vector<Run> const& v)
{
    string s;
    for (auto const& r: v)
        s += to_string(r.end) + (r.emoji ? "E " : "T ");
    return s;
}

static vector<Run> segmented(u32string_view s, vf::Rng* rng)
{
    auto seg = emoji_segmenter(s.data(), s.size());
    if (rng && rng->chance(50))
        seg = emoji_segmenter(s);
    vector<Run> v;
    size_t last = 0;
    for (;;)
    {
        if (rng && rng->chance(20)) // a copy goes on by itself
        {
            auto copy = seg;
            size_t n = 0;
            PresentationStyle p {};
            (void) copy.consume(out(n), out(p));
            if (rng->chance(50))
            {
                auto other = seg;
                seg = other;
            }
        }
        size_t end = 777;
        PresentationStyle style {};
        if (!seg.consume(out(end), out(style)))
            break;
        auto const emoji = style == PresentationStyle::Emoji;
        if (seg.isEmoji() != emoji || seg.isText() == emoji)
            mismatch("isEmoji of " + show(s) + " contradicts the style");
        if (seg.currentCursorBegin() != last || seg.currentCursorEnd() != end || end > s.size() || end <= last
            || (*seg).data() != s.data() + last || (*seg).size() != end - last || seg.substr() != *seg)
        {
            mismatch("run of " + show(s) + " from " + to_string(seg.currentCursorBegin()) + " to " + to_string(seg.currentCursorEnd()) + ", reported end "
                     + to_string(end) + ", expected begin " + to_string(last));
            return v;
        }
        v.push_back({ end, emoji });
        last = end;
        if (v.size() > s.size())
        {
            mismatch("no progress in " + show(s));
            return v;
        }
    }
    for (int i = 0; i < 2; ++i)
    {
        size_t end = 777;
        PresentationStyle style {};
        if (seg.consume(out(end), out(style)))
            mismatch("goes on behind the end of " + show(s));
    }
    if (seg.buffer() != s.data() || seg.size() != s.size())
        mismatch("buffer");
    return v;
}

static void check(u32string_view s, vf::Rng* rng = nullptr)
{
    ++vf::cases;
    auto const want = tab.runs(s), got = segmented(s, rng);
    if (got != want)
        mismatch("runs of " + show(s) + " are " + text(got) + " expected " + text(want));
}

static char32_t member(vf::Rng& r, int cat)
{
    auto const& m = tab.members[(size_t) cat];
    return m.empty() ? U'x' : (char32_t) r.pick(m);
}
static u32string randomText(vf::Rng& r, uint32_t n)
{
    // sequences that are nearly tokens
    static vector<vector<int>> const pieces { { 1, 12 }, { 2, 12 }, { 3, 4 }, { 6, 6 }, { 13, 14, 14, 15 }, { 13, 14 }, { 7, 12, 8 }, { 7, 8 }, { 7, 12 }, { 3, 10, 2 }, { 3, 4, 10, 3, 4 },
                                              { 1, 12, 10, 1 }, { 7, 12, 10, 2, 12 }, { 2, 9 }, { 1, 11 }, { 3, 11 }, { 10 }, { 10, 10 }, { 16 }, { 6 }, { 2, 10 }, { 13, 10, 3, 12, 10, 2 }, { 13, 11 }, { 3, 12, 4 } };
    u32string s;
    while (s.size() < n)
    {
        if (r.chance(30))
            s += member(r, (int) r.below((uint32_t) tab.cats));
        else
            for (auto c: pieces[r.below((uint32_t) pieces.size())])
            {
                if (r.chance(8))
                    continue;
                s += member(r, c);
                if (r.chance(5))
                    s += member(r, (int) r.below((uint32_t) tab.cats));
            }
        if (n < 50 && r.chance(12))
            break;
        // the same again and again, joined or not
        if (n >= 50 && r.chance(6))
        {
            auto const& p = pieces[r.below((uint32_t) pieces.size())];
            auto const joined = r.chance(50);
            for (auto k = r.below(n); k > 0; --k)
            {
                for (auto c: p)
                    s += member(r, c);
                if (joined)
                    s += member(r, 10);
            }
        }
    }
    return s;
}

int main(int argc, char** argv)
{
    if (argc < 3)
        vf::usage("mode table ...");
    string const mode = argv[1];
    tab.load(argv[2]);
    auto const arg = [&](int i) { return i < argc ? argv[i] : (vf::usage("arguments"), argv[0]); };
    if (mode == "exhaust") // n: all texts of one member of every category
    {
        u32string reps;
        for (auto const& m: tab.members)
            if (!m.empty())
                reps += (char32_t) m[m.size() / 2];
        auto const k = reps.size();
        for (int n = 0, max = atoi(arg(3)); n <= max; ++n)
        {
            vector<size_t> idx((size_t) n, 0);
            u32string s((size_t) n, reps[0]);
            vf::Guard guard;
            for (;;)
            {
                check(u32string_view(guard.atEnd(s.data(), s.size()), s.size()));
                int i = 0;
                for (; i < n; ++i)
                {
                    if (++idx[(size_t) i] < k)
                    {
                        s[(size_t) i] = reps[idx[(size_t) i]];
                        break;
                    }
                    idx[(size_t) i] = 0;
                    s[(size_t) i] = reps[0];
                }
                if (i == n)
                    break;
            }
        }
    }
    else if (mode == "points") // every code point in every context of the grammar
    {
        auto const m = [&](int c) { return (char32_t) tab.members[(size_t) c].front(); };
        for (uint32_t x = 0; x <= 0x110002; ++x)
        {
            auto const c = (char32_t) x;
            check(u32string { c });
            check(u32string { c, m(12) });
            check(u32string { c, m(11) });
            check(u32string { c, m(9), c });
            check(u32string { c, m(10), m(1) });
            check(u32string { m(2), m(10), c, m(12), c });
            check(u32string { m(3), c, m(10), m(3), c });
            check(u32string { m(6), c, m(6) });
            check(u32string { m(13), c, m(15), m(14) });
            check(u32string { m(13), m(14), c });
            check(u32string { c, m(14), m(15) });
            check(u32string { c, m(12), m(8) });
            check(u32string { m(7), m(12), c });
            check(u32string { m(1), c, m(1) });
            check(u32string { c, c, m(6), m(4) });
        }
        // default construction and text forms
        emoji_segmenter none;
        size_t n = 0;
        PresentationStyle p {};
        if (none.consume(out(n), out(p)) || none.size() != 0)
            mismatch("default constructed segmenter has runs");
        for (auto v: { PresentationStyle::Text, PresentationStyle::Emoji })
        {
            ostringstream os;
            os << v;
            auto const want = v == PresentationStyle::Text ? "Text" : "Emoji";
            if (os.str() != want || format("{}", v) != want)
                mismatch("presentation style prints as " + os.str() + " and " + format("{}", v));
        }
    }
    else if (mode == "random") // seed n
    {
        vf::Rng r((uint64_t) atoll(arg(3)));
        for (int i = 0, n = atoi(arg(4)); i < n; ++i)
        {
            auto s = randomText(r, i % 64 ? 12 : 300);
            vf::stretch(r, s, (uint64_t) i);
            check(s, &r);
        }
    }
    else if (mode == "record") // seed n out
    {
        vf::Rng r((uint64_t) atoll(arg(3)));
        ofstream out(arg(5));
        for (int i = 0, n = atoi(arg(4)); i < n; ++i)
        {
            ++vf::cases;
            auto const s = randomText(r, 10);
            out << "{\"cps\":" << show(s) << ",\"runs\":[";
            auto const v = segmented(s, &r);
            for (size_t k = 0; k < v.size(); ++k)
                out << (k ? "," : "") << "[" << v[k].end << ",\"" << (v[k].emoji ? "Emoji" : "Text") << "\"]";
            out << "]}\n";
        }
    }
    else
        vf::usage("mode");
    return vf::finish();
}
