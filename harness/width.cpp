// Conformance harness for cluster widths: replays the measure of spec/Width.tla.
#include "segtab.h"
#include "utftab.h"
#include "widthtab.h"

#include <libunicode/capi.h>
#include <libunicode/width.h>

using namespace unicode;
using namespace std;
using vf::mismatch;
using vf::show;
using Acc = grapheme_cluster_width_accumulator;

static vf::WidthTab wt;
static vf::SegTab gt;
static vf::StreamTab ut;

static long total(u32string_view t, bool base)
{
    long sum = 0;
    size_t at = 0;
    for (auto n: gt.lengths(t))
    {
        sum += base ? wt.single(t[at]) : wt.cluster(t.substr(at, n));
        at += n;
    }
    return sum;
}

static void expect(char const* what, string const& input, long got, long want)
{
    if (got != want)
        mismatch(string(what) + " of " + input + " is " + to_string(got) + ", expected " + to_string(want));
}

static Acc used; // has measured other things before every reset

static void cluster(u32string_view t)
{
    ++vf::cases;
    vf::WidthTab::Run r;
    Acc a;
    used.reset();
    for (size_t i = 0; i < t.size(); ++i)
    {
        wt.push(r, t[i]);
        a.push(t[i]);
        used.push(t[i]);
        if ((long) a.width() != wt.columns(r))
            expect("incremental width", show(t.substr(0, i + 1)), a.width(), wt.columns(r));
        if ((long) used.width() != wt.columns(r))
            expect("incremental width after reset", show(t.substr(0, i + 1)), used.width(), wt.columns(r));
    }
    expect("grapheme_cluster_width", show(t), grapheme_cluster_width(t), wt.columns(r));
}

static void text(u32string_view t)
{
    ++vf::cases;
    auto const whole = total(t, false), base = total(t, true);
    auto const* p = (u32_char_t const*) t.data();
    expect("u32_gc_width (whole clusters)", show(t), u32_gc_width(p, t.size(), GC_WIDTH_MODE_MODIFIABLE), whole);
    expect("u32_gc_width (base only)", show(t), u32_gc_width(p, t.size(), GC_WIDTH_MODE_NON_MODIFIABLE), base);
}

static void bytes(string const& s)
{
    ++vf::cases;
    auto const t = ut.converted(s);
    auto const whole = total(t, false), base = total(t, true);
    expect("grapheme_cluster_width (UTF-8)", show(s), grapheme_cluster_width(string_view(s)), whole);
    expect("u8_gc_width (whole clusters)", show(s), u8_gc_width(s.data(), s.size(), GC_WIDTH_MODE_MODIFIABLE), whole);
    expect("u8_gc_width (base only)", show(s), u8_gc_width(s.data(), s.size(), GC_WIDTH_MODE_NON_MODIFIABLE), base);
}

static void exhaust(int suffix)
{
    vf::Rng r(5);
    // every code point by itself, and behind every control state of the measure
    for (size_t i = 0; i < wt.states.size(); ++i)
    {
        Acc a;
        vf::WidthTab::Run m;
        u32string t;
        for (auto k: wt.states[i].path)
        {
            t += (char32_t) wt.cm.random(r, k);
            a.push(t.back());
            wt.push(m, t.back());
        }
        auto const one = [&](uint32_t c) {
            ++vf::cases;
            auto b = a;
            auto n = m;
            b.push(c);
            wt.push(n, c);
            if ((long) b.width() != wt.columns(n))
                expect("incremental width", show(t + (char32_t) c), b.width(), wt.columns(n));
        };
        for (uint32_t c = 0; c <= 0x110010; ++c)
            one(c);
        for (uint32_t c: { 0x1FFFFFu, 0x200000u, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu, 0xFFFF0000u, 0x1200Du, 0x20200Du, 0xFFFFFE0Fu })
            one(c);
        // class strings behind the state tell the state it really is in
        vector<int> ix(suffix, 0);
        for (;;)
        {
            auto b = a;
            auto n = m;
            auto u = t;
            for (auto k: ix)
            {
                auto const c = wt.cm.random(r, k);
                u += (char32_t) c;
                b.push(c);
                wt.push(n, c);
                if ((long) b.width() != wt.columns(n))
                {
                    expect("incremental width", show(u), b.width(), wt.columns(n));
                    break;
                }
            }
            ++vf::cases;
            int k = 0;
            while (k < suffix && ++ix[k] == wt.cm.n)
                ix[k++] = 0;
            if (k == suffix)
                break;
        }
    }
    // every code point in front of every class (what is remembered of it)
    for (uint32_t c = 0; c <= 0x110001; ++c)
    {
        u32string t(1, (char32_t) c);
        cluster(t);
        text(t);
        if (c <= 0x10FFFF)
        {
            string s;
            vf::putUtf8(s, c);
            bytes(s);
        }
        auto const& reps = wt.cm.reps[wt.cm.of(c)];
        bool const edge = std::find(reps.begin(), reps.end(), c) != reps.end();
        for (int d = 0; d < wt.cm.n; ++d)
        {
            t.resize(1);
            t += (char32_t) wt.cm.random(r, d);
            if (edge || c % 8 == 0)
                cluster(t);
            if (edge)
                for (int e = 0; e < wt.cm.n; ++e)
                {
                    t.resize(2);
                    t += (char32_t) wt.cm.random(r, e);
                    cluster(t);
                }
        }
    }
    // all class strings as clusters and as texts
    for (int len = 0; len <= suffix + 1; ++len)
    {
        vector<int> ix(len, 0);
        for (;;)
        {
            u32string t;
            for (auto k: ix)
                t += (char32_t) wt.cm.random(r, k);
            cluster(t);
            text(t);
            int k = 0;
            while (k < len && ++ix[k] == wt.cm.n)
                ix[k++] = 0;
            if (k == len)
                break;
        }
    }
    bytes("");
}

static u32string rnd(vf::Rng& r, size_t len)
{
    u32string t;
    for (auto c: vf::randomText(r, r.chance(50) ? wt.cm : gt.cm, len))
        t += (char32_t) c;
    return t;
}

static string rnd8(vf::Rng& r, size_t len, uint64_t i = 0)
{
    string s;
    auto t = rnd(r, len);
    vf::stretch(r, t, i);
    for (auto c: t)
        if (c <= 0x10FFFF)
            vf::putUtf8(s, c);
    static vector<int> const noise = { 0x80, 0xBF, 0xC3, 0xE2, 0xF0, 0xFF, 'a', 0xCC };
    for (int k = r.chance(50) ? (int) r.below(3) : 0; k > 0 && !s.empty(); --k)
        s[r.below((uint32_t) s.size())] = (char) r.pick(noise);
    if (r.chance(10) && !s.empty())
        s.pop_back();
    return s;
}

int main(int argc, char** argv)
{
    if (argc < 6)
        vf::usage("width MODE width-table grapheme-table utf-table ...");
    string const mode = argv[1];
    wt.load(argv[2]);
    gt.load(argv[3]);
    ut.load(argv[4]);
    auto const num = [&](int i) { return argc > i ? strtoull(argv[i], nullptr, 10) : 0; };
    if (mode == "exhaust")
        exhaust((int) num(5));
    else if (mode == "random")
    {
        vf::Rng r(num(5));
        for (uint64_t i = 0; i < num(6); ++i)
        {
            auto t = rnd(r, i % 20 ? 10 : 200);
            vf::stretch(r, t, i);
            cluster(t);
            text(t);
            bytes(rnd8(r, i % 20 ? 10 : 200, i));
        }
    }
    else if (mode == "record")
    {
        vf::Rng r(num(5) + 31);
        auto* f = fopen(argv[7], "w");
        for (uint64_t i = 0; i < num(6); ++i)
        {
            ++vf::cases;
            if (i % 3 == 0)
            {
                Acc a;
                auto const t = rnd(r, 14);
                vector<int> resets, widths;
                for (size_t k = 0; k < t.size(); ++k)
                {
                    if (r.chance(8))
                    {
                        a.reset();
                        resets.push_back((int) k + 1);
                    }
                    a.push(t[k]);
                    widths.push_back((int) a.width());
                }
                string cps = "[";
                for (size_t k = 0; k < t.size(); ++k)
                    cps += (k ? "," : "") + to_string(t[k] > 0x7FFFFFFF ? 0x7FFFFFFF : (uint32_t) t[k]);
                fprintf(f, "{\"kind\":\"push\",\"cps\":%s],\"resets\":%s,\"widths\":%s}\n", cps.c_str(), vf::join(resets).c_str(), vf::join(widths).c_str());
            }
            else if (i % 3 == 1)
            {
                auto t = rnd(r, 14);
                for (auto& c: t)
                    if (c > 0x7FFFFFFF)
                        c = 0x7FFFFFFF;
                auto const* p = (u32_char_t const*) t.data();
                fprintf(f, "{\"kind\":\"text\",\"cps\":%s,\"total\":%d,\"base\":%d}\n", show(t).c_str(), u32_gc_width(p, t.size(), 1), u32_gc_width(p, t.size(), 0));
            }
            else
            {
                auto const s = rnd8(r, 10);
                fprintf(f, "{\"kind\":\"u8\",\"bytes\":%s,\"total\":%d,\"base\":%d}\n", show(s).c_str(), (int) grapheme_cluster_width(string_view(s)), u8_gc_width(s.data(), s.size(), 0));
            }
        }
        fclose(f);
    }
    else
        vf::usage("mode");
    return vf::finish();
}
