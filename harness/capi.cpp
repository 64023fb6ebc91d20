// Conformance harness for the C interface (spec/Capi*.tla): every call goes through capi_client.c, compiled as C.
#include "capi_client.h"
#include "segtab.h"
#include "utftab.h"
#include "widthtab.h"

#include <libunicode/convert.h>
#include <libunicode/grapheme_segmenter.h>
#include <libunicode/width.h>

using namespace std;
using vf::mismatch;
using vf::show;

static vf::WidthTab wt;
static vf::SegTab gt;
static vf::StreamTab ut;
static capi_table const& C = *capi();

static void expect(char const* what, string const& input, long got, long want)
{
    if (got != want)
        mismatch(string(what) + " of " + input + " is " + to_string(got) + ", expected " + to_string(want));
}

static uint32_t const* p32(u32string_view t) { return (uint32_t const*) t.data(); }

static long total(u32string_view t, bool base)
{
    long sum = 0;
    size_t at = 0;
    for (auto n: gt.lengths(t))
    {
        sum += base ? wt.single(t[at]) : wt.cluster(t.substr(at, n));
        at += n;
    }
    return sum;
}

static vf::Guard in32(1 << 20), in8(1 << 20), out8(1 << 20);

// Texts: counts and widths; the input touches inaccessible memory on either side.
static void text(u32string_view u)
{
    ++vf::cases;
    for (int side = 0; side < 2; ++side)
    {
        auto const* p = side ? in32.atBegin(p32(u), u.size()) : in32.atEnd(p32(u), u.size());
        expect("u32_gc_count", show(u), C.gc_count(p, u.size()), (long) gt.lengths(u).size());
        expect("u32_gc_width, whole clusters,", show(u), C.gc_width(p, u.size(), C.whole), total(u, false));
        expect("u32_gc_width, base only,", show(u), C.gc_width(p, u.size(), C.base_only), total(u, true));
    }
}

static void bytes(string const& s)
{
    ++vf::cases;
    auto const u = ut.converted(s);
    for (int side = 0; side < 2; ++side)
    {
        auto const* p = side ? in8.atBegin(s.data(), s.size()) : in8.atEnd(s.data(), s.size());
        expect("u8_gc_count", show(s), C.gc_count8(p, s.size()), (long) gt.lengths(u).size());
        expect("u8_gc_width, whole clusters,", show(s), C.gc_width8(p, s.size(), C.whole), total(u, false));
        expect("u8_gc_width, base only,", show(s), C.gc_width8(p, s.size(), C.base_only), total(u, true));
    }
}

static void pairOf(uint32_t a, uint32_t b)
{
    ++vf::cases;
    char32_t const t[2] = { a, b };
    auto const want = gt.breaks(u32string_view(t, 2))[0] ? 0 : 1;
    auto const got = C.unbreakable(a, b) ? 1 : 0;
    if (got != want)
        expect("u32_grapheme_unbreakable", show(u32string_view(t, 2)), got, want);
}

struct Converted
{
    int ret;
    string stored;
    int beyond;
};
// Destination of `room` bytes: once in front of inaccessible memory, once in front of a canary.
static Converted convert(u32string_view src, size_t room, size_t want)
{
    auto const* s = in32.atEnd(p32(src), src.size());
    string canary(room + 16, '\x5A');
    for (size_t i = 0; i < canary.size(); ++i)
        canary[i] = (char) (0x5A ^ (i * 7));
    auto* g = out8.atEnd(canary.data(), room);
    auto const a = C.convert(s, src.size(), g, room);
    string buf = canary;
    auto const b = C.convert(s, src.size(), buf.data(), room);
    Converted r { a, {}, 0 };
    if (a != b || memcmp(g, buf.data(), room) != 0)
        mismatch("u32u8_convert of " + show(src) + " into " + to_string(room) + " bytes depends on where the destination lies");
    for (size_t i = a >= 0 ? min((size_t) a, room) : room; i < buf.size(); ++i)
        if (buf[i] != canary[i])
            r.beyond = 1;
    r.stored = buf.substr(0, min(a >= 0 ? (size_t) a : want, room));
    return r;
}
// Bytes of the characters that fit, by the C++ encoder.
static string fitting(u32string_view src, size_t room, size_t& all)
{
    string fit;
    bool full = false;
    all = 0;
    for (auto c: src)
    {
        string e;
        unicode::encoder<char> {}(c, back_inserter(e));
        all += e.size();
        if (!full && fit.size() + e.size() <= room)
            fit += e;
        else
            full = true;
    }
    return fit;
}
static void conversion(u32string_view src, size_t room)
{
    ++vf::cases;
    size_t all = 0;
    auto const fit = fitting(src, room, all);
    auto const r = convert(src, room, fit.size());
    auto const what = "u32u8_convert of " + show(src) + " into " + to_string(room) + " bytes";
    if (r.ret != (all <= room ? (int) all : -1))
        mismatch(what + " returns " + to_string(r.ret));
    else if (r.stored != fit)
        mismatch(what + " stores " + show(r.stored));
    else if (r.beyond)
        mismatch(what + " writes behind the text");
}

// A history of calls on several converters against the machine.
struct Op
{
    int h, b, ret;
    uint32_t before, after;
};
static vector<Op> history(vf::Rng& r, int handles, int len)
{
    static vector<int> const common = { 'a', 0x80, 0xBF, 0x9F, 0xC3, 0xC2, 0xE2, 0x82, 0xAC, 0xF0, 0x9F, 0x98, 0x80, 0xFF, 0xF8, 0, 0x7F, 0xED, 0xA0, 0xF4, 0xF7, 0xE0, 0xC0 };
    vector<void*> live(handles, nullptr);
    vector<string> queue(handles);
    vector<Op> ops;
    for (int i = 0; i < len; ++i)
    {
        auto const h = (int) r.below((uint32_t) handles);
        if (!live[h])
        {
            live[h] = C.create();
            queue[h].clear();
            ops.push_back({ h, -1, live[h] ? 1 : 0, 0, 0 });
            continue;
        }
        if (r.chance(3))
        {
            ops.push_back({ h, -2, C.destroy(live[h]) == nullptr ? 1 : 0, 0, 0 });
            live[h] = nullptr;
            continue;
        }
        if (queue[h].empty())
        {
            if (r.chance(60))
                vf::putUtf8(queue[h], vf::randomScalar(r));
            else
                queue[h] += (char) (r.chance(80) ? r.pick(common) : (int) r.below(256));
        }
        auto const b = (unsigned char) queue[h][0];
        queue[h].erase(0, 1);
        // the cell stands before inaccessible memory and between canaries
        uint32_t const before = 1000000000u + r.below(1000000);
        uint32_t frame[3] = { 0xA5A5A5A5u, before, 0x5A5A5A5Au };
        auto const ret = C.run(live[h], (char) b, &frame[1]);
        ops.push_back({ h, b, ret, before, frame[1] });
        if (frame[0] != 0xA5A5A5A5u || frame[2] != 0x5A5A5A5Au)
            mismatch("u8u32_stream_convert_run writes beside its output");
    }
    for (int h = 0; h < handles; ++h)
        if (live[h])
            ops.push_back({ h, -2, C.destroy(live[h]) == nullptr ? 1 : 0, 0, 0 });
    return ops;
}
static void check(vector<Op> const& ops, int handles)
{
    ++vf::cases;
    vector<int> st(handles, 0);
    vector<long long> acc(handles, 0);
    for (size_t i = 0; i < ops.size(); ++i)
    {
        auto const& o = ops[i];
        if (o.b < 0)
        {
            st[o.h] = 0;
            acc[o.h] = 0;
            if (!o.ret)
                mismatch(o.b == -1 ? "no converter is created" : "the handle is not set to NULL");
            continue;
        }
        auto const& c = ut.conv[st[o.h]][o.b];
        auto const v = c.mul * acc[o.h] + c.add;
        auto const want = c.kind == 1 ? (uint32_t) v : o.before;
        if (o.ret != (c.kind == 1) || o.after != want)
        {
            string hist;
            for (size_t k = 0; k <= i; ++k)
                if (ops[k].h == o.h)
                    hist += " " + to_string(ops[k].b);
            mismatch("stream converter fed with" + hist + " returns " + to_string(o.ret) + " with output " + to_string(o.after));
            return;
        }
        st[o.h] = c.next;
        acc[o.h] = c.next ? v : 0;
    }
}

static u32string rnd(vf::Rng& r, size_t len)
{
    u32string t;
    for (auto c: vf::randomText(r, r.chance(50) ? wt.cm : gt.cm, len))
        t += (char32_t) c;
    return t;
}
static string rnd8(vf::Rng& r, size_t len)
{
    string s;
    for (auto c: rnd(r, len))
        if (c <= 0x10FFFF)
            vf::putUtf8(s, c);
    static vector<int> const noise = { 0x80, 0xBF, 0xC3, 0xE2, 0xF0, 0xFF, 'a', 0xCC };
    for (int k = r.chance(50) ? (int) r.below(3) : 0; k > 0 && !s.empty(); --k)
        s[r.below((uint32_t) s.size())] = (char) r.pick(noise);
    if (r.chance(10) && !s.empty())
        s.pop_back();
    return s;
}
static u32string source(vf::Rng& r, size_t len, bool scalars)
{
    u32string t;
    for (auto n = r.below((uint32_t) len + 1); n > 0; --n)
        t += (char32_t) (scalars ? vf::randomScalar(r) : r.chance(3) ? 0x110000 + r.below(5) : r.chance(3) ? 0xD800 + r.below(0x800) : vf::randomScalar(r));
    return t;
}

static void exhaust(int quickStep)
{
    vf::Rng r(3);
    text(U"");
    bytes("");
    // single code points and pairs: every code point beside every class of clusters
    for (uint32_t c = 0; c <= 0x110010; ++c)
    {
        if (quickStep > 60 && c % 16 != 5 && c > 0x3000 && c < 0x10FFF0)
            continue;
        text(u32string(1, (char32_t) c));
        if (c <= 0x10FFFF)
        {
            string s;
            vf::putUtf8(s, c);
            bytes(s);
        }
        for (int k = 0; k < gt.cm.n; ++k)
        {
            pairOf(c, gt.cm.random(r, k));
            pairOf(gt.cm.random(r, k), c);
        }
        for (size_t room = 0; room <= 5; ++room)
            if (c % quickStep == 0 || c < 0x11000 || c > 0x10FF00)
                conversion(u32string(1, (char32_t) c), room);
    }
    for (uint32_t a: { 0x110000u, 0x1FFFFFu, 0x200041u, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu, 0x20000Du, 0x20000Au, 0x200300u })
        for (int k = 0; k < gt.cm.n; ++k)
        {
            pairOf(a, gt.cm.random(r, k));
            pairOf(gt.cm.random(r, k), a);
        }
    // all short sources over one character of every length, all destinations
    u32string const alpha = U"A\u00E9\u20AC\U0001F600";
    for (int len = 0; len <= 5; ++len)
    {
        vector<int> ix(len, 0);
        for (;;)
        {
            u32string t;
            for (auto k: ix)
                t += alpha[k];
            for (size_t room = 0; room <= 4 * (size_t) len + 1; ++room)
                conversion(t, room);
            int k = 0;
            while (k < len && ++ix[k] == 4)
                ix[k++] = 0;
            if (k == len)
                break;
        }
    }
    // every byte behind every state of the converter, the other one in every state of its own

        for (string const a: { "", "\xC3", "\xE2", "\xE2\x82", "\xF0", "\xF0\x9F", "\xF0\x9F\x98" })
            for (string const b: { "", "\xC3", "\xE2", "\xE2\x82", "\xF0", "\xF0\x9F", "\xF0\x9F\x98" })
                for (int x = 0; x < 256; ++x)
                {
                    void* h[2] = { C.create(), C.create() };
                    vector<Op> ops { { 0, -1, 1, 0, 0 }, { 1, -1, 1, 0, 0 } };
                    auto const feed = [&](int k, char c) {
                        uint32_t cell = 77;
                        auto const ret = C.run(h[k], c, &cell);
                        ops.push_back({ k, (unsigned char) c, ret, 77, cell });
                    };
                    for (size_t i = 0; i < max(a.size(), b.size()); ++i)
                    {
                        if (i < a.size())
                            feed(0, a[i]);
                        if (i < b.size())
                            feed(1, b[i]);
                    }
                    feed(0, (char) x);
                    for (int i = 0; i < 3; ++i)
                        feed(1, '\x80');
                    for (int i = 0; i < 3; ++i)
                        feed(0, '\xAC');
                    C.destroy(h[0]);
                    C.destroy(h[1]);
                    check(ops, 2);
                }
}

static string tla(u32string t)
{
    for (auto& c: t)
        if (c > 0x7FFFFFFF)
            c = 0x7FFFFFFF;
    return show(t);
}

static void record(vf::Rng& r, uint64_t n, FILE* f)
{
    // the whole functions of one code point as maximal ranges
    auto const ranges = [&](char const* kind, auto of, uint64_t first, uint64_t last) {
        uint64_t lo = first;
        string cur = of((uint32_t) first);
        uint64_t prev = first;
        for (uint64_t c = first + 1;; c += c < 0x300000 ? 1 : 9973)
        {
            auto const end = c > last;
            auto const v = end ? string() : of((uint32_t) c);
            if (end || v != cur)
            {
                fprintf(f, "{\"kind\":\"%s\",\"lo\":%llu,\"hi\":%llu,%s}\n", kind, (unsigned long long) min<uint64_t>(lo, 0x7FFFFFFF), (unsigned long long) min<uint64_t>(prev, 0x7FFFFFFF), cur.c_str());
                lo = c;
                cur = v;
            }
            if (end)
                break;
            prev = c;
        }
    };
    ranges("valid", [](uint32_t c) { ++vf::cases; return "\"valid\":" + to_string(C.valid(c)); }, 0, 0xFFFFFFFFull);
    auto const rooms = [](uint32_t c) {
        ++vf::cases;
        vector<int> v;
        for (size_t room = 0; room <= 5; ++room)
        {
            char d[8];
            v.push_back(C.convert(&c, 1, d, room));
        }
        return "\"rets\":" + vf::join(v);
    };
    ranges("rooms", rooms, 0, 0xD7FF);
    ranges("rooms", rooms, 0xE000, 0x10FFFF);
    for (uint64_t i = 0; i < n; ++i)
    {
        ++vf::cases;
        switch (i % 6)
        {
            case 0: {
                auto const handles = 1 + (int) r.below(3);
                string ops;
                for (auto const& o: history(r, handles, 30))
                    ops += (ops.empty() ? "[" : ",[") + to_string(o.h + 1) + "," + to_string(o.b) + "," + to_string(o.ret) + "," + to_string(o.before) + "," + to_string(o.after) + "]";
                fprintf(f, "{\"kind\":\"stream\",\"handles\":%d,\"ops\":[%s]}\n", handles, ops.c_str());
                break;
            }
            case 1: {
                auto const src = source(r, 8, true);
                size_t all = 0;
                fitting(src, 0, all);
                auto const room = r.chance(70) ? (size_t) max(0, (int) all + (int) r.below(5) - 2) : r.below(34);
                auto const fit = fitting(src, room, all);
                auto const c = convert(src, room, fit.size());
                fprintf(f, "{\"kind\":\"convert\",\"src\":%s,\"room\":%d,\"ret\":%d,\"bytes\":%s,\"beyond\":%d}\n", show(src).c_str(), (int) room, c.ret, show(c.stored).c_str(), c.beyond);
                break;
            }
            case 2: {
                auto const w = (uint32_t) r.next();
                vector<int> g;
                string on, off;
                auto const word = [](uint32_t x) { return "[" + to_string(x >> 21) + "," + to_string(x & 0x1FFFFF) + "]"; };
                for (int k = 0; k < 11; ++k)
                {
                    g.push_back(C.get(w, k));
                    on += (k ? "," : "") + word(C.on(w, k));
                    off += (k ? "," : "") + word(C.off(w, k));
                }
                fprintf(f, "{\"kind\":\"bits\",\"spare\":%u,\"code\":%u,\"capacity\":%d,\"mask\":%u,\"cleared\":%s,\"get\":%s,\"on\":[%s],\"off\":[%s]}\n", w >> 21, w & 0x1FFFFF, C.capacity(),
                        C.mask(w), word(C.cleared(w)).c_str(), vf::join(g).c_str(), on.c_str(), off.c_str());
                break;
            }
            case 3: {
                auto const u8 = r.chance(50);
                auto const t = rnd(r, 12);
                auto const s = rnd8(r, 10);
                fprintf(f, "{\"kind\":\"count\",\"u8\":%d,\"text\":%s,\"count\":%d}\n", u8, u8 ? show(s).c_str() : tla(t).c_str(), u8 ? C.gc_count8(s.data(), s.size()) : C.gc_count(p32(t), t.size()));
                break;
            }
            case 4: {
                auto const a = gt.cm.random(r, (int) r.below(gt.cm.n)), b = gt.cm.random(r, (int) r.below(gt.cm.n));
                fprintf(f, "{\"kind\":\"pair\",\"a\":%u,\"b\":%u,\"same\":%d}\n", min(a, 0x7FFFFFFFu), min(b, 0x7FFFFFFFu), C.unbreakable(a, b) ? 1 : 0);
                break;
            }
            case 5: {
                auto const u8 = r.chance(50);
                auto const t = rnd(r, 12);
                auto const s = rnd8(r, 10);
                auto const w = [&](int mode) { return u8 ? C.gc_width8(s.data(), s.size(), mode) : C.gc_width(p32(t), t.size(), mode); };
                fprintf(f, "{\"kind\":\"widths\",\"u8\":%d,\"text\":%s,\"whole\":%d,\"base\":%d}\n", u8, u8 ? show(s).c_str() : tla(t).c_str(), w(C.whole), w(C.base_only));
                break;
            }
        }
    }
}

int main(int argc, char** argv)
{
    if (argc < 6)
        vf::usage("capi MODE width-table grapheme-table utf-table ...");
    string const mode = argv[1];
    wt.load(argv[2]);
    gt.load(argv[3]);
    ut.load(argv[4]);
    auto const num = [&](int i) { return argc > i ? strtoull(argv[i], nullptr, 10) : 0; };
    if (mode == "exhaust")
        exhaust((int) num(5));
    else if (mode == "random")
    {
        vf::Rng r(num(5) + 5);
        for (uint64_t i = 0; i < num(6); ++i)
        {
            auto t = rnd(r, i % 50 ? 10 : 300);
            vf::stretch(r, t, i);
            text(t);
            auto b = rnd8(r, i % 50 ? 10 : 300);
            vf::stretch(r, b, i);
            bytes(b);
            auto const handles = 1 + (int) r.below(4);
            check(history(r, handles, 40), handles);
            auto s = source(r, i % 100 ? 12 : 400, false);
            vf::stretch(r, s, i);
            size_t all = 0;
            fitting(s, 0, all);
            for (int d = -3; d <= 2; ++d)
                if ((long) all + d >= 0)
                    conversion(s, all + d);
            conversion(s, r.below((uint32_t) all + 1));
        }
    }
    else if (mode == "record")
    {
        vf::Rng r(num(5) + 77);
        auto* f = fopen(argv[7], "w");
        record(r, num(6), f);
        fclose(f);
    }
    else
        vf::usage("mode");
    return vf::finish();
}
