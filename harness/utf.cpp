// Conformance harness for the UTF encoding forms: interprets the tables written by spec/UtfGen.tla.
#include "util.h"

#include <libunicode/capi.h>
#include <libunicode/convert.h>
#include <libunicode/utf8.h>

using namespace unicode;
using namespace std;
using vf::mismatch;
using vf::show;

struct Cell { int next, kind; long long mul, add; };
struct Unit { long long div, mod, add; };
struct Row { long long lo, hi; vector<Unit> units; };
struct C16 { int next, kind; long long mulAcc, mulU, add; };

static vector<array<Cell, 256>> stream_, conv_, iter_;
static vector<Row> rows8, rows16;
static vector<pair<long long, long long>> cls16;  // ranges of the unit classes
static vector<vector<C16>> dec16;

static void load(char const* file)
{
    vf::Ints in(file);
    for (auto* t: { &stream_, &conv_, &iter_ })
    {
        t->resize((size_t) in.get());
        for (auto& r: *t)
            for (auto& c: r)
            {
                c.next = (int) in.get();
                c.kind = (int) in.get();
                c.mul = in.get();
                c.add = in.get();
            }
    }
    for (auto* t: { &rows8, &rows16 })
    {
        t->resize((size_t) in.get());
        for (auto& r: *t)
        {
            r.lo = in.get();
            r.hi = in.get();
            r.units.resize((size_t) in.get());
            for (auto& u: r.units)
            {
                u.div = in.get();
                u.mod = in.get();
                u.add = in.get();
            }
        }
    }
    cls16.resize((size_t) in.get());
    for (auto& c: cls16)
    {
        c.first = in.get();
        c.second = in.get();
    }
    dec16.resize((size_t) in.get());
    for (auto& r: dec16)
    {
        r.resize(cls16.size());
        for (auto& c: r)
        {
            c.next = (int) in.get();
            c.kind = (int) in.get();
            c.mulAcc = in.get();
            c.mulU = in.get();
            c.add = in.get();
        }
    }
}

template <typename S>
static S encode(vector<Row> const& rows, uint64_t c)
{
    S s;
    for (auto const& r: rows)
        if ((uint64_t) r.lo <= c && c <= (uint64_t) r.hi)
            for (auto const& u: r.units)
                s.push_back((typename S::value_type) (u.add + ((long long) c / u.div) % u.mod));
    return s;
}

struct Model
{
    vector<array<Cell, 256>> const& t;
    int ctl = 0;
    long long acc = 0;
    // returns value, -1 incomplete, -2 invalid
    long long step(uint8_t b)
    {
        auto const& c = t[(size_t) ctl][b];
        auto const v = c.mul * acc + c.add;
        ctl = c.next;
        if (c.kind == 1)
        {
            acc = 0;
            return v;
        }
        acc = ctl ? v : 0;
        return c.kind == 0 ? -1 : -2;
    }
};

static u32string decodeModel(vector<array<Cell, 256>> const& t, string_view s)
{
    Model m { t };
    u32string o;
    for (auto b: s)
        if (auto v = m.step((uint8_t) b); v >= 0)
            o.push_back((char32_t) v);
    return o;
}

static u32string decode16Model(u16string_view s)
{
    u32string o;
    int st = 0;
    long long acc = 0;
    for (auto u: s)
        for (size_t k = 0; k < cls16.size(); ++k)
            if (cls16[k].first <= u && u <= cls16[k].second)
            {
                auto const& c = dec16[(size_t) st][k];
                auto const v = c.mulAcc * acc + c.mulU * (long long) u + c.add;
                if (c.kind == 1)
                    o.push_back((char32_t) v);
                st = c.next;
                acc = st ? v : 0;
                break;
            }
    return o;
}

static long long code(ConvertResult const& r)
{
    if (holds_alternative<Incomplete>(r))
        return -1;
    if (holds_alternative<Invalid>(r))
        return -2;
    return (long long) get<Success>(r).value;
}

// ---- all byte strings up to four bytes, each followed by probes -------------------------------------------------
static vector<uint8_t> fourth;
static string path_;

static const uint8_t probes[] = { 0x41, 0x80, 0xBF, 0xC3, 0xE2, 0xF0, 0xF8, 0xFF };

static void probeStream(utf8_decoder_state const& st, Model const& m)
{
    for (auto p: probes)
    {
        auto s = st;
        auto q = m;
        for (int k = 0; k < 4; ++k)
        {
            auto const b = k == 0 ? p : uint8_t(0x91);
            auto const want = q.step(b);
            auto const got = code(from_utf8(s, b));
            ++vf::cases;
            if (want != got)
                return mismatch("stream after " + show(path_) + " then byte " + to_string(p) + " x " + to_string(k) + ": want "
                                + to_string(want) + " got " + to_string(got));
        }
    }
}

static void walkStream(int depth, utf8_decoder_state const& st, Model const& m)
{
    auto visit = [&](uint8_t b) {
        auto s = st;
        auto q = m;
        auto s2 = st;
        auto const want = q.step(b);
        auto const got = code(from_utf8(s, b));
        auto const goti = (long long) (int) from_utf8i(s2, b);
        ++vf::cases;
        path_.push_back((char) b);
        if (want != got || want != goti)
            mismatch("stream " + show(path_) + ": want " + to_string(want) + " got " + to_string(got) + "/" + to_string(goti));
        if (depth < 4 && q.ctl != 0)
            walkStream(depth + 1, s, q);
        else if (depth < 4 || (b & 15) == 0)
            probeStream(s, q);
        path_.pop_back();
    };
    if (depth < 4)
        for (int b = 0; b < 256; ++b)
            visit((uint8_t) b);
    else
        for (auto b: fourth)
            visit(b);
}

static void walkConv(int depth, decoder<char> const& st, Model const& m)
{
    auto visit = [&](uint8_t b) {
        auto s = st;
        auto q = m;
        auto const want = q.step(b);
        auto const r = s(b);
        auto const got = r.has_value() ? (long long) *r : -1;
        ++vf::cases;
        path_.push_back((char) b);
        if (want != got)
            mismatch("decoder<char> " + show(path_) + ": want " + to_string(want) + " got " + to_string(got));
        if (depth < 4 && q.ctl != 0)
            walkConv(depth + 1, s, q);
        path_.pop_back();
    };
    if (depth < 4)
        for (int b = 0; b < 256; ++b)
            visit((uint8_t) b);
    else
        for (auto b: fourth)
            visit(b);
}

// ---- every code point -----------------------------------------------------------------------------------------
static void oneScalar(uint32_t c, vf::Guard& g)
{
    auto const bytes = encode<string>(rows8, c);
    auto const units = encode<u16string>(rows16, c);
    bool const scalar = c < 0x110000 && !(c >= 0xD800 && c <= 0xDFFF);
    auto bad = [&](char const* what, string const& got) {
        mismatch(string(what) + " U+" + to_string(c) + ": want " + show(bytes) + "/" + show(units) + " got " + got);
    };
    ++vf::cases;
    char32_t const c32 = c;
    u32string_view const text(&c32, 1);
    if (c < 0x110000)
    {
        uint8_t buf[8];
        memset(buf, 0xEE, sizeof buf);
        auto const n = to_utf8(c32, buf);
        if (n != bytes.size() || memcmp(buf, bytes.data(), n) != 0 || buf[n] != 0xEE)
            bad("to_utf8(cp, buf)", to_string(n));
        if (to_utf8(c32) != bytes)
            bad("to_utf8(cp)", show(to_utf8(c32)));
        if (to_utf8(text) != bytes || to_utf8(u32string(text)) != bytes || to_utf8(&c32, 1) != bytes)
            bad("to_utf8(text)", show(to_utf8(text)));
        string e;
        encoder<char> {}(c32, back_inserter(e));
        if (e != bytes)
            bad("encoder<char>", show(e));
        if (auto const s = convert_to<char>(text); s != bytes)
            bad("convert_to<char>(u32)", show(s));
        if (auto const s = convert_to<char>(c32); s != bytes)
            bad("convert_to<char>(char32_t)", show(s));
    }
    u16string e16;
    encoder<char16_t> {}(c32, back_inserter(e16));
    if (e16 != units)
        bad("encoder<char16_t>", show(e16));
    if (auto const s = convert_to<char16_t>(text); s != units)
        bad("convert_to<char16_t>(u32)", show(s));
    if (auto const s = convert_to<wchar_t>(text); sizeof(wchar_t) == 4 && (s.size() != 1 || (uint32_t) s[0] != c))
        bad("convert_to<wchar_t>(u32)", show(s));
    if (!scalar)
        return;
    string_view const b8(g.atEnd(bytes.data(), bytes.size()), bytes.size());
    {
        utf8_decoder_state st {};
        for (size_t i = 0; i < b8.size(); ++i)
        {
            auto const r = code(from_utf8(st, (uint8_t) b8[i]));
            if (r != (i + 1 == b8.size() ? (long long) c : -1))
                bad("from_utf8(state)", to_string(r));
        }
        size_t n = 0;
        auto const r = code(from_utf8(b8.data(), &n));
        if (r != (long long) c || n != bytes.size())
            bad("from_utf8(bytes,size)", to_string(r) + " " + to_string(n));
        auto const r2 = code(from_utf8((uint8_t const*) b8.data(), nullptr));
        if (r2 != (long long) c)
            bad("from_utf8(bytes)", to_string(r2));
    }
    if (from_utf8(b8) != text)
        bad("from_utf8(sv)", show(from_utf8(b8)));
    if (convert_to<char32_t>(b8) != text)
        bad("convert_to<char32_t>(u8)", show(convert_to<char32_t>(b8)));
    if (convert_to<char16_t>(b8) != units)
        bad("convert_to<char16_t>(u8)", show(convert_to<char16_t>(b8)));
    u32string o;
    convert_to<char32_t>(b8, back_inserter(o));
    if (o != text)
        bad("convert_to<char32_t>(u8, out)", show(o));
    {
        auto const* i = b8.data();
        auto const r = decoder<char> {}(i);
        if (!r || *r != c || i != b8.data() + b8.size())
            bad("decoder<char>(iterator)", "");
        decoder<char> d;
        for (size_t k = 0; k < b8.size(); ++k)
        {
            auto const v = d((uint8_t) b8[k]);
            if (v.has_value() != (k + 1 == b8.size()) || (v && *v != c))
                bad("decoder<char>(byte)", "");
        }
    }
    u16string_view const b16(g.atEnd(units.data(), units.size()), units.size());
    if (convert_to<char32_t>(b16) != text)
        bad("convert_to<char32_t>(u16)", show(convert_to<char32_t>(b16)));
    if (convert_to<char>(b16) != bytes)
        bad("convert_to<char>(u16)", show(convert_to<char>(b16)));
}

// ---- whole buffers ---------------------------------------------------------------------------------------------
static vf::Guard gA(1 << 20), gB(1 << 20);

static string cStream(string_view s, u32string& out)
{
    auto h = u8u32_stream_convert_create();
    auto h2 = u8u32_stream_convert_create(); // a second, independent converter fed with noise
    for (size_t i = 0; i < s.size(); ++i)
    {
        uint32_t v = 0xDEADBEEF;
        uint32_t v2 = 0;
        u8u32_stream_convert_run(h2, (char) (0xE0 + i % 7), &v2);
        auto const r = u8u32_stream_convert_run(h, s[i], &v);
        if (r != 0 && r != 1)
            return "return value " + to_string(r);
        if (r == 0 && v != 0xDEADBEEF)
            return "output touched without a character";
        if (r == 1)
            out.push_back(v);
    }
    u8u32_stream_convert_destroy(&h);
    u8u32_stream_convert_destroy(&h2);
    return h ? "handle not cleared" : "";
}

static void bytesBuffer(string const& in)
{
    ++vf::cases;
    auto const want = decodeModel(conv_, in);
    auto const wantI = decodeModel(iter_, in);
    u16string want16;
    for (auto c: want)
        want16 += encode<u16string>(rows16, c);
    auto bad = [&](char const* what, string const& w, string const& got) {
        mismatch(string(what) + " of " + show(in) + ": want " + w + " got " + got);
    };
    for (int place = 0; place < 2; ++place)
    {
        auto const* p = place ? gA.atBegin(in.data(), in.size()) : gA.atEnd(in.data(), in.size());
        string_view const s(p, in.size());
        if (auto r = convert_to<char32_t>(s); r != want)
            bad("convert_to<char32_t>", show(want), show(r));
        if (auto r = from_utf8(s); r != want)
            bad("from_utf8(sv)", show(want), show(r));
        if (auto r = convert_to<char16_t>(s); r != want16)
            bad("convert_to<char16_t>", show(want16), show(r));
        u32string o;
        convert_to<char32_t>(s, back_inserter(o));
        if (o != wantI)
            bad("convert_to<char32_t>(out)", show(wantI), show(o));
        if (auto r = convert_to<wchar_t>(s); sizeof(wchar_t) == 4 && !equal(r.begin(), r.end(), wantI.begin(), wantI.end()))
            bad("convert_to<wchar_t>", show(wantI), show(r));
        u16string o16;
        u16string wantI16;
        for (auto c: wantI)
            wantI16 += encode<u16string>(rows16, c);
        convert_to<char16_t>(s, back_inserter(o16));
        if (o16 != wantI16)
            bad("convert_to<char16_t>(out)", show(wantI16), show(o16));
        if (auto r = convert_to<char>(s); r != in)
            bad("convert_to<char>(char)", show(in), show(r));
    }
    u32string d;
    decoder<char> dec;
    for (auto b: in)
        if (auto v = dec((uint8_t) b))
            d.push_back(*v);
    if (d != want)
        bad("decoder<char>(byte)", show(want), show(d));
    u32string cs;
    auto const e = cStream(in, cs);
    if (!e.empty() || cs != want)
        bad("u8u32_stream_convert_run", show(want), e + show(cs));
}

static void unitsBuffer(u16string const& in)
{
    ++vf::cases;
    auto const want = decode16Model(in);
    string want8;
    for (auto c: want)
        want8 += encode<string>(rows8, c);
    auto bad = [&](char const* what, string const& w, string const& got) {
        mismatch(string(what) + " of " + show(in) + ": want " + w + " got " + got);
    };
    for (int place = 0; place < 2; ++place)
    {
        auto const* p = place ? gA.atBegin(in.data(), in.size()) : gA.atEnd(in.data(), in.size());
        u16string_view const s(p, in.size());
        if (auto r = convert_to<char32_t>(s); r != want)
            bad("convert_to<char32_t>(u16)", show(want), show(r));
        if (auto r = convert_to<char>(s); r != want8)
            bad("convert_to<char>(u16)", show(want8), show(r));
        if (auto r = convert_to<wchar_t>(s); sizeof(wchar_t) == 4 && !equal(r.begin(), r.end(), want.begin(), want.end()))
            bad("convert_to<wchar_t>(u16)", show(want), show(r));
        if (auto r = convert_to<char16_t>(s); r != in)
            bad("convert_to<char16_t>(u16)", show(in), show(r));
    }
}

static void codepointsBuffer(u32string const& in)
{
    ++vf::cases;
    string want8;
    u16string want16;
    for (auto c: in)
    {
        want8 += encode<string>(rows8, c);
        want16 += encode<u16string>(rows16, c);
    }
    auto const* p = gA.atEnd(in.data(), in.size());
    u32string_view const s(p, in.size());
    auto bad = [&](char const* what, string const& w, string const& got) {
        mismatch(string(what) + " of " + show(in) + ": want " + w + " got " + got);
    };
    if (auto r = convert_to<char>(s); r != want8)
        bad("convert_to<char>(u32)", show(want8), show(r));
    if (auto r = to_utf8(s); r != want8)
        bad("to_utf8(u32)", show(want8), show(r));
    if (auto r = convert_to<char16_t>(s); r != want16)
        bad("convert_to<char16_t>(u32)", show(want16), show(r));
    if (auto r = convert_to<char32_t>(s); r != in)
        bad("convert_to<char32_t>(u32)", show(in), show(r));
    wstring const w(in.begin(), in.end());
    if (sizeof(wchar_t) == 4)
    {
        if (auto r = convert_to<char>(wstring_view(w)); r != want8)
            bad("convert_to<char>(wide)", show(want8), show(r));
        if (auto r = convert_to<char16_t>(wstring_view(w)); r != want16)
            bad("convert_to<char16_t>(wide)", show(want16), show(r));
    }
}

static u32string randomText(vf::Rng& r, size_t n)
{
    u32string s;
    for (size_t i = 0; i < n; ++i)
        s.push_back(vf::randomScalar(r));
    return s;
}

static string randomBytes(vf::Rng& r, size_t n)
{
    // pieces of characters, stray bytes and truncated sequences
    string s;
    while (s.size() < n)
        switch (r.below(8))
        {
            case 0: s += (char) r.below(256); break;
            case 1: s += (char) (0x80 + r.below(64)); break;
            case 2: s += (char) (0xC0 + r.below(64)); break;
            case 3: s += string(r.below(20), 'x'); break;
            case 4: {
                string t;
                vf::putUtf8(t, vf::randomScalar(r));
                s += t.substr(0, r.below((uint32_t) t.size() + 1));
                break;
            }
            default: vf::putUtf8(s, vf::randomScalar(r)); break;
        }
    s.resize(n);
    return s;
}

int main(int argc, char** argv)
{
    string const mode = argc > 1 ? argv[1] : "";
    if (argc < 3)
        vf::usage("mode table ...");
    load(argv[2]);
    auto arg = [&](int i) { return i < argc ? strtoull(argv[i], nullptr, 10) : 0ull; };
    if (mode == "stream" || mode == "conv")
    {
        if (arg(3))
            for (int b = 0; b < 256; ++b)
                fourth.push_back((uint8_t) b);
        else
            for (int b: { 0,   1,   0x3F, 0x40, 0x41, 0x7F, 0x80, 0x81, 0x8F, 0x90, 0x9F, 0xA0, 0xAA, 0xBE, 0xBF, 0xC0,
                          0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xF7, 0xF8, 0xFB, 0xFE, 0xFF })
                fourth.push_back((uint8_t) b);
        if (mode == "stream")
            walkStream(1, {}, Model { stream_ });
        else
            walkConv(1, {}, Model { conv_ });
    }
    else if (mode == "scalars")
    {
        for (uint32_t c = 0; c < 0x200000; ++c)
            oneScalar(c, gA);
        for (uint32_t c: { 0x200000u, 0x7FFFFFFFu, 0x80000000u, 0x8000D800u, 0xFFFFFFFFu, 0xFFFF0041u })
            oneScalar(c, gA);
    }
    else if (mode == "texts")
    {
        vf::Rng r(arg(3));
        for (uint64_t i = 0; i < arg(4); ++i)
        {
            auto t = randomText(r, r.below(i % 16 == 0 ? 300 : 24));
            vf::stretch(r, t, i);
            codepointsBuffer(t);
            string b;
            u16string u;
            for (auto c: t)
            {
                b += encode<string>(rows8, c);
                u += encode<u16string>(rows16, c);
            }
            bytesBuffer(b);
            unitsBuffer(u);
            // the streaming decoder reports exactly the text, each character at its last byte
            utf8_decoder_state st {};
            u32string o;
            bool inv = false;
            for (auto x: b)
            {
                auto const v = code(from_utf8(st, (uint8_t) x));
                if (v == -2)
                    inv = true;
                if (v >= 0)
                    o.push_back((char32_t) v);
            }
            if (inv || o != t)
                mismatch("streaming " + show(b) + " yields " + show(o));
            if (decodeModel(conv_, b) != t || decodeModel(iter_, b) != t || decode16Model(u) != t)
                mismatch("model itself disagrees on " + show(t));
        }
    }
    else if (mode == "buffers")
    {
        // every byte string over the alphabet up to the given length, then every UTF-16 string
        vector<uint8_t> const alpha { 0x00, 0x41, 0x7F, 0x80, 0x8F, 0x9F, 0xBF, 0xC0, 0xC3, 0xDF, 0xE0, 0xE2, 0xED, 0xF0, 0xF4, 0xF7, 0xF8, 0xFC, 0xFF };
        auto const len = arg(3);
        string s;
        function<void(size_t)> rec = [&](size_t n) {
            bytesBuffer(s);
            if (n == len)
                return;
            for (auto a: alpha)
            {
                s.push_back((char) a);
                rec(n + 1);
                s.pop_back();
            }
        };
        rec(0);
        vector<char16_t> const a16 { 0, 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF };
        u16string u;
        function<void(size_t)> rec16 = [&](size_t n) {
            unitsBuffer(u);
            if (n == len)
                return;
            for (auto a: a16)
            {
                u.push_back(a);
                rec16(n + 1);
                u.pop_back();
            }
        };
        rec16(0);
        vf::Rng r(arg(4));
        for (uint64_t i = 0; i < arg(5); ++i)
        {
            auto b = randomBytes(r, r.below(i % 8 == 0 ? 400 : 40));
            vf::stretch(r, b, i);
            bytesBuffer(b);
            u16string w;
            for (size_t n = r.below(60); n; --n)
                w.push_back(r.chance(50) ? (char16_t) (0xD800 + r.below(0x800)) : r.chance(50) ? (char16_t) r.below(0x10000) : (char16_t) r.below(0x80));
            vf::stretch(r, w, i + 1);
            unitsBuffer(w);
            u32string t;
            for (size_t n = r.below(40); n; --n)
                t.push_back(r.chance(30) ? 0xD800 + r.below(0x800) : r.below(0x110000));
            // (surrogates have no UTF-8 form here; only the UTF-16 direction is specified for them)
            u16string w16;
            for (auto c: t)
                w16 += encode<u16string>(rows16, c);
            if (auto x = convert_to<char16_t>(u32string_view(t)); x != w16)
                mismatch("convert_to<char16_t>(u32) of " + show(t) + ": want " + show(w16) + " got " + show(x));
        }
    }
    else if (mode == "record")
    {
        vf::Rng r(arg(3));
        auto* f = fopen(argv[5], "w");
        for (uint64_t i = 0; i < arg(4); ++i)
        {
            auto const kind = i % 8;
            string const bytes = randomBytes(r, 1 + r.below(i % 16 < 8 ? 12 : 48));
            auto outp = [&](char const* k, auto const& in, auto const& out) {
                fprintf(f, "{\"kind\":\"%s\",\"in\":%s,\"out\":%s}\n", k, show(in).c_str(), show(out).c_str());
            };
            string_view const s(gA.atEnd(bytes.data(), bytes.size()), bytes.size());
            if (kind == 0 || kind == 1)
            {
                utf8_decoder_state st {};
                auto h = u8u32_stream_convert_create();
                string ev;
                for (auto b: bytes)
                {
                    long long v = -1;
                    if (kind == 0)
                        v = code(from_utf8(st, (uint8_t) b));
                    else
                    {
                        uint32_t o = 0;
                        if (u8u32_stream_convert_run(h, b, &o))
                            v = o;
                    }
                    ev += (ev.empty() ? "[" : ",[") + to_string((uint8_t) b) + "," + to_string(v) + "]";
                }
                u8u32_stream_convert_destroy(&h);
                fprintf(f, "{\"kind\":\"%s\",\"ev\":[%s]}\n", kind ? "bytes" : "stream", ev.c_str());
            }
            else if (kind == 2)
                outp("conv32", bytes, convert_to<char32_t>(s));
            else if (kind == 3)
                outp("conv16", bytes, convert_to<char16_t>(s));
            else if (kind == 4)
            {
                u32string o;
                convert_to<char32_t>(s, back_inserter(o));
                outp("iter", bytes, o);
            }
            else if (kind == 5)
            {
                u16string w;
                for (size_t n = r.below(30); n; --n)
                    w.push_back(r.chance(50) ? (char16_t) (0xD800 + r.below(0x800)) : (char16_t) r.below(0x10000));
                outp("u16to32", w, convert_to<char32_t>(u16string_view(w)));
                outp("u16to8", w, convert_to<char>(u16string_view(w)));
            }
            else
            {
                auto const t = randomText(r, r.below(20));
                outp("u32to8", t, convert_to<char>(u32string_view(t)));
                outp("u32to16", t, convert_to<char16_t>(u32string_view(t)));
            }
        }
        fclose(f);
    }
    else
        vf::usage("unknown mode");
    return vf::finish();
}
