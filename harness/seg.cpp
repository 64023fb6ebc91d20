// Conformance harness for grapheme and word segmentation: replays the machines of spec/Grapheme.tla and spec/Word.tla.
#include "segtab.h"
#include "utftab.h"

#include <libunicode/capi.h>
#include <libunicode/grapheme_segmenter.h>
#include <libunicode/utf8_grapheme_segmenter.h>
#include <libunicode/word_segmenter.h>

using namespace unicode;
using namespace std;
using vf::mismatch;
using vf::show;

static vf::SegTab tab;
static auto& cm = tab.cm;
static auto& begin_ = tab.begin_;
static auto& paths = tab.paths;
static auto& trans = tab.trans;
static auto& words = tab.words;
static vector<char> expected(u32string_view t) { return tab.breaks(t); }

static vector<int> lens(vector<char> const& brk, size_t n)
{
    vector<int> v;
    if (!n)
        return v;
    int k = 1;
    for (auto b: brk)
        if (b)
        {
            v.push_back(k);
            k = 1;
        }
        else
            ++k;
    v.push_back(k);
    return v;
}

static bool bad(char const* what, u32string_view t, vector<int> const& got, vector<int> const& want)
{
    mismatch(string(what) + " text " + show(t) + " got lengths " + vf::join(got) + " expected " + vf::join(want));
    return false;
}

/// Every interface on one text, compared with the machine of the specification.
static bool compare(u32string_view t)
{
    ++vf::cases;
    auto const brk = expected(t);
    auto const want = lens(brk, t.size());
    if (words)
    {
        for (int fresh = 0; fresh < 2; ++fresh)
        {
            vector<char> got;
            word_segmenter_state st {};
            static word_segmenter_state used {}; // a state that has seen other texts must start afresh, too
            auto& s = fresh ? used : st;
            if (!t.empty())
            {
                word_process_init(t[0], s);
                for (size_t i = 1; i < t.size(); ++i)
                {
                    got.push_back(word_process_breakable(t[i], t.data() + i + 1, t.size() - i - 1, s));
                    if (fresh && got.back())
                        word_process_init(t[i], s);
                }
            }
            if (got != brk)
                return bad(fresh ? "word_process_breakable (restarted)" : "word_process_breakable", t, lens(got, t.size()), want);
        }
        vector<int> got;
        auto const* p = t.data();
        for (auto seg = word_segmenter(t);; ++seg)
        {
            auto const w = *seg;
            if (w.size() != seg.size() || w.empty() != seg.empty())
                return bad("word_segmenter size", t, {}, want);
            if (w.empty())
                break;
            if (w.data() != p)
                return bad("word_segmenter does not continue where the last word ended", t, got, want);
            p += w.size();
            got.push_back((int) w.size());
            if ((bool) seg != seg.codepointsAvailable() || seg.codepointsAvailable() != (p != t.data() + t.size()))
                return bad("word_segmenter availability", t, got, want);
            if (got.size() > t.size() + 1)
                break;
        }
        if (got != want)
            return bad("word_segmenter", t, got, want);
        return true;
    }
    for (int fresh = 0; fresh < 2; ++fresh)
    {
        vector<char> got;
        grapheme_segmenter_state st {};
        static grapheme_segmenter_state used {};
        auto& s = fresh ? used : st;
        if (!t.empty())
        {
            grapheme_process_init(t[0], s);
            for (size_t i = 1; i < t.size(); ++i)
            {
                got.push_back(grapheme_process_breakable(t[i], s));
                if (fresh && got.back())
                    grapheme_process_init(t[i], s);
            }
        }
        if (got != brk)
            return bad(fresh ? "grapheme_process_breakable (restarted)" : "grapheme_process_breakable", t, lens(got, t.size()), want);
    }
    vector<int> got;
    auto const* p = t.data();
    auto seg = grapheme_segmenter(t);
    if (!t.empty())
        for (;; ++seg)
        {
            auto const w = *seg;
            if (w.data() != p || w.empty() || w.size() > size_t(t.data() + t.size() - p))
                return bad("grapheme_segmenter clusters do not tile the text", t, got, want);
            p += w.size();
            got.push_back((int) w.size());
            if (seg.codepointsAvailable() != (p != t.data() + t.size()) || bool(seg) != seg.codepointsAvailable())
                return bad("grapheme_segmenter availability", t, got, want);
            if (!seg.codepointsAvailable())
                break;
        }
    if (got != want)
        return bad("grapheme_segmenter", t, got, want);
    ++seg;
    if (!(*seg).empty())
        return bad("grapheme_segmenter beyond the end", t, {}, want);
    if (int const n = u32_gc_count((u32_char_t const*) t.data(), t.size()); n != (int) want.size())
        return bad("u32_gc_count", t, { n }, want);
    if (t.size() == 2)
        if (int const u = u32_grapheme_unbreakable(t[0], t[1]); u != (brk[0] ? 0 : 1))
            return bad("u32_grapheme_unbreakable", t, { u }, want);
    string u8;
    for (auto c: t)
    {
        if (c > 0x10FFFF)
            return true;
        vf::putUtf8(u8, c);
    }
    if (int const n = u8_gc_count(u8.data(), u8.size()); n != (int) want.size())
        return bad("u8_gc_count", t, { n }, want);
    return true;
}

/// Every code point behind every state of the machine; then suffixes of classes which tell the states apart.
static void exhaust(uint64_t seed, int suffixLen, bool allWithSuffix)
{
    vf::Rng r(seed);
    auto const edge = [](uint32_t c) { return c > 0x10FFFF || (c & 0xFF) == 0; };
    for (size_t s = 0; s < paths.size(); ++s)
    {
        u32string t;
        for (auto c: paths[s])
            t += (char32_t) cm.reps[c][0];
        auto const n = t.size();
        // the state in front of the code point under test
        int st = begin_[cm.of(t[0])];
        word_segmenter_state ws {};
        grapheme_segmenter_state gs {};
        words ? word_process_init(t[0], ws) : grapheme_process_init(t[0], gs);
        for (size_t i = 1; i < n; ++i)
        {
            st = trans[st][cm.of(t[i])].next;
            if (words)
                word_process_breakable(t[i], nullptr, 0, ws);
            else
                grapheme_process_breakable(t[i], gs);
        }
        auto const one = [&](uint32_t c) {
            ++vf::cases;
            bool b;
            if (words)
            {
                auto w = ws;
                b = word_process_breakable(c, nullptr, 0, w);
            }
            else
            {
                auto g = gs;
                b = grapheme_process_breakable(c, g);
            }
            if (b != (bool) trans[st][cm.of(c)].brk[0])
            {
                t.resize(n);
                t += (char32_t) c;
                mismatch(string(b ? "boundary" : "no boundary") + " before the last code point of " + show(t) +
                         ", the specification says otherwise");
            }
        };
        for (uint32_t c = 0; c <= 0x110010; ++c)
            one(c);
        for (uint32_t c: { 0x1FFFFFu, 0x200000u, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu, 0xFFFF0000u })
            one(c);
        // the state every code point leads to, told apart by every class behind it
        if (n <= (words && !allWithSuffix ? 1u : 2u))
            for (size_t cell = 0; cell < cm.lo.size(); ++cell)
            {
                auto const a = cm.lo[cell], b = cell + 1 < cm.lo.size() ? cm.lo[cell + 1] : 0x110000;
                for (uint32_t c = a; c < b; c += b - a > 2000 ? 61 : 1)
                    for (int d = 0; d < cm.n; ++d)
                    {
                        ++vf::cases;
                        auto const x = (char32_t) cm.random(r, d);
                        bool got;
                        if (words)
                        {
                            auto w = ws;
                            word_process_breakable(c, nullptr, 0, w);
                            got = word_process_breakable(x, nullptr, 0, w);
                        }
                        else
                        {
                            auto g = gs;
                            grapheme_process_breakable(c, g);
                            got = grapheme_process_breakable(x, g);
                        }
                        if (got != (bool) trans[trans[st][cm.cls[cell]].next][d].brk[0])
                        {
                            t.resize(n);
                            t += (char32_t) c;
                            t += x;
                            mismatch(string(got ? "boundary" : "no boundary") + " before the last code point of " + show(t) +
                                     ", the specification says otherwise");
                        }
                    }
            }
        // class strings behind the state
        vector<int> suf(suffixLen, 0);
        for (;;)
        {
            t.resize(n);
            for (auto c: suf)
                t += (char32_t) cm.random(r, c);
            compare(t);
            int k = 0;
            while (k < suffixLen && ++suf[k] == cm.n)
                suf[k++] = 0;
            if (k == suffixLen)
                break;
        }
    }
    // every code point first, with every pair of classes behind it
    for (uint32_t c = 0; c <= 0x110000; ++c)
    {
        auto const& reps = cm.reps[cm.of(c)];
        bool const isEdge = std::find(reps.begin(), reps.end(), c) != reps.end();
        if (!allWithSuffix && !isEdge && c % 16)
            continue;
        for (int d = 0; d < cm.n; ++d)
            compare(u32string { (char32_t) c, (char32_t) cm.random(r, d) });
        if (isEdge && allWithSuffix)
            for (int d = 0; d < cm.n; ++d)
                for (int e = 0; e < cm.n; ++e)
                    compare(u32string { (char32_t) c, (char32_t) cm.random(r, d), (char32_t) cm.random(r, e) });
    }
    compare(u32string {});
}

static u32string rnd(vf::Rng& r, size_t len)
{
    u32string t;
    for (auto c: vf::randomText(r, cm, len))
        t += (char32_t) c;
    return t;
}

// ---- UTF-8 grapheme iteration
static vf::StreamTab utf;

static bool compareUtf8(string const& s, FILE* rec = nullptr)
{
    ++vf::cases;
    auto const text = utf.text(s);
    auto const want = lens(expected(text), text.size());
    auto const* mem = s.data();
    auto const seg = utf8_grapheme_segmenter(string_view(mem, s.size()));
    vector<int> got;
    u32string all;
    size_t steps = 0;
    auto it = seg.begin();
    vector<decltype(it)> copies;
    for (; it != seg.end(); ++it)
    {
        if (++steps > s.size() + 2)
        {
            mismatch("utf8_grapheme_segmenter does not end on " + show(s));
            return false;
        }
        copies.push_back(it);
        got.push_back((int) (*it).size());
        all += *it;
        if (it.value() != *it)
            mismatch("value() differs from operator*");
    }
    if (rec)
        fprintf(rec, "{\"kind\":\"u8\",\"bytes\":%s,\"cps\":%s,\"lens\":%s}\n", show(s).c_str(), show(all).c_str(), vf::join(got).c_str());
    else if (all != text || got != want)
    {
        mismatch("utf8_grapheme_segmenter of " + show(s) + " got " + show(all) + " lengths " + vf::join(got) + " expected " +
                 show(text) + " lengths " + vf::join(want));
        return false;
    }
    // copies go on by themselves, in any order
    for (size_t k = copies.size(); k-- > 0;)
    {
        auto c = copies[k];
        size_t at = 0;
        for (size_t i = 0; i < k; ++i)
            at += got[i];
        size_t i = k;
        bool const post = k & 1;
        for (; c != seg.end() && i < got.size(); ++i)
        {
            auto const v = *c;
            if (post)
            {
                auto const old = c++;
                if (*old != v)
                    mismatch("post-increment does not return the old iterator on " + show(s));
            }
            else
                ++c;
            if (v != all.substr(at, got[i]))
            {
                mismatch("copy of an iterator yields another cluster on " + show(s));
                return false;
            }
            at += got[i];
        }
        if (i != got.size() || c != seg.end())
        {
            mismatch("copy of an iterator ends elsewhere on " + show(s));
            return false;
        }
        if (copies.size() > 12 && k < copies.size() - 8)
            break;
    }
    return true;
}

static string rndUtf8(vf::Rng& r, size_t len, uint64_t i = 0)
{
    string s;
    auto t = rnd(r, len);
    vf::stretch(r, t, i);
    for (auto c: t)
        if (c <= 0x10FFFF)
            vf::putUtf8(s, c);
    for (int k = (int) r.below(4); k > 0 && !s.empty(); --k)
    {
        auto const at = r.below((uint32_t) s.size());
        static vector<int> const bytes = { 0x80, 0xBF, 0xC3, 0xE2, 0xF0, 0xFF, 0xF8, 'a', 0xCC, 0x0D };
        switch (r.below(4))
        {
            case 0: s[at] = (char) r.pick(bytes); break;
            case 1: s.insert(at, 1, (char) r.pick(bytes)); break;
            case 2: s.erase(at, 1); break;
            default: s.resize(at); break;
        }
    }
    return s;
}

static void utf8Exhaust(int maxLen)
{
    // bytes from which CR, LF, a letter, a combining mark (CC 80), ZWJ (E2 80 8D), an emoji and errors can be built
    static vector<int> const alpha = { 0x0D, 0x0A, 'a', 0xCC, 0x80, 0xE2, 0x8D, 0xF0, 0x9F, 0xFF };
    for (int len = 0; len <= maxLen; ++len)
    {
        vector<int> ix(len, 0);
        for (;;)
        {
            string s;
            for (auto i: ix)
                s += (char) alpha[i];
            if (!compareUtf8(s))
                return;
            int k = 0;
            while (k < len && ++ix[k] == (int) alpha.size())
                ix[k++] = 0;
            if (k == len)
                break;
        }
    }
    // all sequences of up to three characters out of well-formed and malformed pieces
    static vector<string> const pieces = { "a", "\r", "\n", "\xCC\x80", "\xE2\x80\x8D", "\xF0\x9F\x98\x80", "\xF0\x9F\x87\xA6", "\xE0\xA4\x95", "\xE0\xA5\x8D",
                                           "\xE1\x84\x80", "\xE1\x85\xA1", "\xFF", "\x80", "\xC3", "\xE2\x80", "\xF0\x9F\x98", "\xEF\xBF\xBD", "\xD8\x80" };
    for (auto const& a: pieces)
        for (auto const& b: pieces)
            for (auto const& c: pieces)
                for (auto const& d: pieces)
                    compareUtf8(a + b + c + d);
}

int main(int argc, char** argv)
{
    if (argc < 3)
        vf::usage("seg MODE table ...");
    string const mode = argv[1];
    tab.load(argv[2]);
    auto const num = [&](int i) { return argc > i ? strtoull(argv[i], nullptr, 10) : 0; };
    if (mode == "exhaust")
        exhaust(num(3), (int) num(4), num(5));
    else if (mode == "random")
    {
        vf::Rng r(num(3));
        for (uint64_t i = 0; i < num(4); ++i)
        {
            auto t = rnd(r, i % 10 ? 12 : 300);
            vf::stretch(r, t, i);
            compare(t);
        }
    }
    else if (mode == "record")
    {
        vf::Rng r(num(3) + 77);
        auto* f = fopen(argv[5], "w");
        for (uint64_t i = 0; i < num(4); ++i)
        {
            auto const t = rnd(r, 14);
            vector<int> got;
            if (words)
                for (auto s = word_segmenter(t); !s.empty() && got.size() < 100; ++s)
                    got.push_back((int) s.size());
            else if (!t.empty())
                for (auto s = grapheme_segmenter(t); got.size() < 100; ++s)
                {
                    got.push_back((int) (*s).size());
                    if (!s)
                        break;
                }
            fprintf(f, "{\"kind\":\"u32\",\"cps\":%s,\"lens\":%s}\n", show(t).c_str(), vf::join(got).c_str());
            ++vf::cases;
        }
        fclose(f);
    }
    else if (mode == "utf8")
    {
        utf.load(argv[3]);
        utf8Exhaust((int) num(4));
        vf::Rng r(num(5));
        for (uint64_t i = 0; i < num(6); ++i)
        {
            auto s = rndUtf8(r, i % 10 ? 8 : 60, i);
            vf::stretch(r, s, i + 7);
            compareUtf8(s);
        }
    }
    else if (mode == "record8")
    {
        utf.load(argv[3]);
        vf::Rng r(num(4) + 99);
        auto* f = fopen(argv[6], "w");
        for (uint64_t i = 0; i < num(5); ++i)
            compareUtf8(rndUtf8(r, 8), f);
        fclose(f);
    }
    else
        vf::usage("mode");
    return vf::finish();
}
