// Conformance harness for text scanning: records histories for spec/ScanTrace.tla, replays the laws of spec/ScanModel.tla.
#include "segtab.h"
#include "utftab.h"
#include "widthtab.h"

#include <libunicode/convert.h>
#include <libunicode/scan.h>

#include <memory>

using namespace unicode;
using namespace std;
using vf::mismatch;
using vf::show;

static vf::WidthTab wt;
static vf::SegTab gt;
static vf::StreamTab ut;

struct Event
{
    char kind;
    long from, to, cols;
    bool operator==(Event const&) const = default;
};

struct Receiver final: grapheme_cluster_receiver
{
    char const* base;
    vector<Event> ev;
    explicit Receiver(char const* b): base(b) {}
    void receiveAsciiSequence(string_view s) noexcept override
    {
        ev.push_back({ 'A', s.data() - base, s.data() + s.size() - base, (long) s.size() });
    }
    void receiveGraphemeCluster(string_view s, size_t n) noexcept override
    {
        ev.push_back({ 'C', s.data() - base, s.data() + s.size() - base, (long) n });
    }
    void receiveInvalidGraphemeCluster() noexcept override { ev.push_back({ 'I', 0, 0, 1 }); }
};

struct Result
{
    size_t count;
    long start, end, next; // from the begin of the chunk
    vector<Event> ev;
};

/// One call, with and without a receiver.
static Result call(scan_state& st, string_view chunk, size_t max)
{
    Receiver r(chunk.data());
    auto plain = st;
    auto const a = scan_text(st, chunk, max, r);
    auto const b = scan_text(plain, chunk, max);
    if (a.count != b.count || a.start != b.start || a.end != b.end || st.next != plain.next)
        mismatch("scan without receiver differs on " + show(chunk) + " limit " + to_string(max));
    auto const* p = chunk.data();
    return { a.count, a.start - p, a.end - p, st.next - p, move(r.ev) };
}

// ---- recording -----------------------------------------------------------------------------------------------
struct Recorder
{
    ofstream out;
    string line;
    explicit Recorder(char const* f): out(f) {}
    void begin() { line.clear(); }
    void add(string_view chunk, size_t max, bool fresh, Result const& r)
    {
        line += string(line.empty() ? "" : ",") + "{\"bytes\":" + show(chunk) + ",\"max\":" + to_string(min<size_t>(max, 100000)) +
                ",\"fresh\":" + (fresh ? "true" : "false") + ",\"count\":" + to_string(r.count) + ",\"start\":" + to_string(r.start) +
                ",\"end\":" + to_string(r.end) + ",\"next\":" + to_string(r.next) + ",\"ev\":[";
        for (size_t i = 0; i < r.ev.size(); ++i)
        {
            auto const& e = r.ev[i];
            line += string(i ? "," : "") + "[\"" + e.kind + "\"," + to_string(e.from) + "," + to_string(e.to) + "," + to_string(e.cols) + "]";
        }
        line += "]}";
    }
    void end() { out << "{\"calls\":[" << line << "]}\n"; }
};

static vector<string> readPieces(char const* f)
{
    vf::Ints in(f);
    vector<string> v((size_t) in.get());
    for (auto& s: v)
        for (auto n = in.get(); n > 0; --n)
            s += (char) in.get();
    return v;
}

static vf::Guard guard(1 << 20);

/// A history: text arrives little by little, calls with random limits, controls skipped, state sometimes dropped.
static void history(vf::Rng& r, string const& text, Recorder* rec)
{
    ++vf::cases;
    if (rec)
        rec->begin();
    // bytes which have not arrived yet are something else
    auto* const mem = guard.atEnd(text.data(), text.size());
    string const rest(text);
    long avail = r.chance(40) ? (long) text.size() : (long) r.below((uint32_t) text.size() + 1);
    auto const hide = [&] {
        for (auto i = avail; i < (long) text.size(); ++i)
            mem[i] = (char) 0xFF;
    };
    hide();
    scan_state st;
    bool fresh = true;
    long pos = 0;
    int calls = 0, stuck = 0;
    while (calls++ < 40 && stuck < 3)
    {
        auto const max = r.chance(15) ? (size_t) 100000 : (size_t) r.below(r.chance(70) ? 5 : 90);
        string_view const chunk(mem + pos, (size_t) (avail - pos));
        if (fresh && r.chance(50))
            st.next = chunk.data();
        auto const res = call(st, chunk, max);
        if (rec)
            rec->add(chunk, max, fresh, res);
        fresh = false;
        auto const at = pos + res.next;
        stuck = at == pos && avail == (long) text.size() ? stuck + 1 : 0;
        pos = at;
        if (pos < 0 || pos > avail)
        {
            mismatch("resume position outside of the text " + show(text));
            return;
        }
        auto const b = pos < avail ? (unsigned char) text[pos] : 0x41;
        if (b < 32 || (b >= 0x80 && b < 0xA0) || (pos < avail && stuck == 2))
        {
            if (pos < avail)
                ++pos; // the caller deals with it
            if (r.chance(50))
            {
                st = {};
                fresh = true;
            }
            else
                st.next = r.chance(50) ? nullptr : mem + pos;
            stuck = 0;
        }
        else if (r.chance(3))
        {
            st = {};
            fresh = true;
        }
        if (avail < (long) text.size())
        {
            auto const old = avail;
            avail = r.chance(30) ? (long) text.size() : avail + (long) r.below(4);
            avail = min(avail, (long) text.size());
            memcpy(mem + old, rest.data() + old, (size_t) (avail - old));
        }
        else if (pos == avail && r.chance(80))
            break;
    }
    if (rec)
        rec->end();
}

static string randomBytes(vf::Rng& r, vector<string> const& pieces, size_t len)
{
    string s;
    vector<string> few;
    // what widens and narrows a cluster
    static const vector<string> grow = { "a", "\xE2\x8C\x9A", "\xE2\x98\xBA", "\xEF\xB8\x8E", "\xEF\xB8\x8F", "\xEF\xBE\x9E", "\xE0\xA4\x83",
                                         "\xE0\xA5\x8D", "\xE0\xA4\x95", "\xE2\x80\x8D", "\xF0\x9F\x8F\xBD", "\xE4\xB8\x80", "\xCC\x81" };
    auto const growing = r.chance(30);
    for (int i = 0; i < 4; ++i)
        few.push_back(r.pick(growing ? grow : pieces));
    auto const style = growing ? 1 : r.below(4);
    for (size_t i = 0, n = r.below((uint32_t) len + 1); i < n; ++i)
        switch (style)
        {
            case 0: s += r.pick(pieces); break;
            case 1: s += r.pick(few); break;
            case 2: vf::putUtf8(s, [&] { for (;;) { auto c = gt.cm.random(r, (int) r.below((uint32_t) gt.cm.n)); if (c <= 0x10FFFF) return c; } }()); break;
            default:
                if (r.chance(3))
                    for (auto k = r.below((uint32_t) len), x = r.below((uint32_t) pieces.size()); k > 0; --k)
                        s += pieces[x];
                else if (r.chance(70))
                    s += string(1 + r.below(6), (char) (32 + r.below(96)));
                else if (r.chance(70))
                    s += r.pick(few);
                else
                    s += (char) r.below(256);
        }
    return s;
}

// ---- laws ----------------------------------------------------------------------------------------------------
/// The text as the scanner reads it: characters never contain ASCII, malformed pieces are marked.
struct Reading
{
    struct Char
    {
        uint32_t c;
        long from, to;
        bool bad;
    };
    vector<Char> chars;   // without an unfinished character at the end
    long stop = 0;        // where the first control is, or the end
    long whole = 0;       // the end without the bytes of an unfinished character
    bool strict = true;   // well-formed UTF-8
    bool narrowing = false;
};

static Reading readText(string_view s)
{
    Reading R;
    int st = 0;
    long long acc = 0;
    long from = 0;
    for (long i = 0; i < (long) s.size(); ++i)
    {
        auto const b = (unsigned char) s[i];
        if (b < 128 && st)
        {
            R.chars.push_back({ 0xFFFD, from, i, true });
            st = 0;
            from = i;
        }
        if (b < 32 || (st == 0 && b >= 0x80 && b < 0xA0))
        {
            R.stop = R.whole = i;
            goto done;
        }
        {
            auto const& c = ut.stream[st][b];
            auto const v = c.mul * acc + c.add;
            if (c.kind == 1)
            {
                R.chars.push_back({ (uint32_t) v, from, i + 1, false });
                from = i + 1;
            }
            else if (c.kind == 2)
            {
                auto const end = c.next ? i : i + 1;
                R.chars.push_back({ 0xFFFD, from, end, true });
                from = end;
            }
            st = c.next;
            acc = st ? (c.kind == 2 ? c.add : v) : 0;
        }
    }
    R.stop = (long) s.size();
    R.whole = st ? from : R.stop;
done:
    string again;
    for (auto const& c: R.chars)
    {
        if (c.bad || c.c > 0x10FFFF)
            R.strict = false;
        else
            vf::putUtf8(again, c.c);
        R.narrowing |= c.c == 0xFE0E;
    }
    R.strict &= again == s.substr(0, (size_t) R.whole);
    return R;
}

struct Cluster
{
    long from, to, cols;
    bool bad, ascii; // ascii: starts with an ASCII character
    long marks;      // where the part behind an ASCII character starts
};

static vector<Cluster> clustersOf(Reading const& R)
{
    vector<Cluster> v;
    for (size_t i = 0; i < R.chars.size();)
    {
        if (R.chars[i].bad)
        {
            v.push_back({ R.chars[i].from, R.chars[i].to, 1, true, false, 0 });
            ++i;
            continue;
        }
        auto j = i;
        u32string t;
        do // an ASCII character starts over
            t += (char32_t) R.chars[j++].c;
        while (j < R.chars.size() && !R.chars[j].bad && R.chars[j].to - R.chars[j].from > 1);
        size_t at = 0;
        for (auto n: gt.lengths(t))
        {
            auto const a = R.chars[i + at].to - R.chars[i + at].from == 1;
            v.push_back({ R.chars[i + at].from, R.chars[i + at + n - 1].to, a && t[at] == 0x7F ? 1 : wt.cluster(u32string_view(t).substr(at, n)), false, a,
                          R.chars[i + at].from + 1 });
            at += n;
        }
        i = j;
    }
    return v;
}

static void bad(string const& what, string_view s, string const& more = {})
{
    mismatch(what + " for " + show(s) + " " + more);
}

/// Events of an unlimited scan of a text, as the clusters demand them.
static void events(string_view s, vector<Cluster> const& cl, vector<Event> const& ev)
{
    vector<Event> want;
    for (auto const& c: cl)
    {
        if (c.bad)
            want.push_back({ 'I', 0, 0, 1 });
        else if (c.ascii)
        {
            if (!want.empty() && want.back().kind == 'A' && want.back().to == c.from)
            {
                ++want.back().to;
                ++want.back().cols;
            }
            else
                want.push_back({ 'A', c.from, c.from + 1, 1 });
            if (c.to > c.marks)
                want.push_back({ 'C', c.marks, c.to, c.cols });
        }
        else
            want.push_back({ 'C', c.from, c.to, c.cols });
    }
    if (want != ev)
    {
        string t;
        for (vector<Event> const* l: { &ev, (vector<Event> const*) &want })
        {
            for (auto const& e: *l)
                t += string(" ") + e.kind + to_string(e.from) + "-" + to_string(e.to) + "/" + to_string(e.cols);
            t += l == &ev ? " expected" : "";
        }
        bad("events" + t, s);
    }
}

static void laws(vf::Rng& r, string const& text, bool whole = false)
{
    ++vf::cases;
    auto* const mem = guard.atEnd(text.data(), text.size());
    string_view const s(mem, text.size());
    auto const R = readText(s);
    auto const cl = clustersOf(R);
    long total = 0;
    for (auto const& c: cl)
        total += c.cols;
    // everything at once
    scan_state one;
    auto const o = call(one, s, r.chance(50) ? 1000000 : ~size_t { 0 } - r.below(3));
    if (o.next != R.stop || o.end != R.whole || o.start != 0)
        bad("unlimited scan covers " + to_string(o.end) + "," + to_string(o.next), s,
            "expected " + to_string(R.whole) + "," + to_string(R.stop));
    if ((long) o.count != total)
        bad("unlimited scan counts " + to_string(o.count), s, "expected " + to_string(total));
    events(s, cl, o.ev);
    if (whole)
        return;
    // limited, resumed at once or after having been put back
    {
        scan_state st;
        long pos = 0, sum = 0;
        int stuck = 0;
        bool torn = false;
        for (int i = 0; i < 400 + (int) s.size() && pos < R.stop && stuck < 2; ++i)
        {
            auto const m = stuck ? (size_t) 2 + r.below(3) : (size_t) r.below(8);
            auto const x = call(st, s.substr((size_t) pos), m);
            if (x.count > m)
                bad("more columns than allowed: " + to_string(x.count) + " limit " + to_string(m), s.substr((size_t) pos));
            if (x.next < 0 || x.end > x.next || x.next - x.end > 3)
                bad("range " + to_string(x.end) + "," + to_string(x.next), s.substr((size_t) pos));
            sum += (long) x.count;
            pos += x.next;
            stuck = x.next == 0 ? stuck + 1 : 0;
            // the part of a cluster behind its ASCII base was put back: a text of its own now
            auto const inside = any_of(cl.begin(), cl.end(), [&](auto const& c) { return c.from < pos && pos < c.to; });
            torn |= inside && x.count < m;
            if (x.count < m && pos < R.stop && !R.narrowing && !inside)
            {
                // what stands there does not fit
                scan_state again;
                auto const y = call(again, s.substr((size_t) pos), m - x.count);
                if (y.next != 0)
                    bad("scan stopped early at " + to_string(pos) + " with " + to_string(x.count) + " of " + to_string(m), s);
            }
        }
        if (stuck < 2 && pos < R.stop)
            bad("resumed scan does not come to its end", s);
        if (pos > R.stop)
            bad("resumed scan goes on to " + to_string(pos), s, "expected " + to_string(R.stop));
        if (pos == R.stop && !R.narrowing && !torn && sum != total)
            bad("resumed scan counts " + to_string(sum), s, "expected " + to_string(total));
    }
    // cut into chunks
    {
        scan_state st;
        long pos = 0, sum = 0, end = 0;
        vector<Event> ev;
        for (long avail = 0; pos < R.stop || (st.utf8.expectedLength && avail < (long) s.size());)
        {
            if (avail == (long) s.size())
            {
                bad("scan in chunks stops at " + to_string(pos), s, "expected " + to_string(R.stop));
                break;
            }
            avail = r.chance(10) ? (long) s.size() : min((long) s.size(), avail + 1 + (long) r.below(r.chance(50) ? 3 : 40));
            for (auto i = avail; i < (long) s.size(); ++i)
                mem[i] = (char) 0xFF;
            memcpy(mem, text.data(), (size_t) avail);
            auto const x = call(st, string_view(mem + pos, (size_t) (avail - pos)), 1000000);
            sum += (long) x.count;
            end = pos + x.end;
            pos += x.next;
        }
        memcpy(mem, text.data(), text.size());
        if (pos != R.stop || (R.stop && end != R.whole))
            bad("scan in chunks covers " + to_string(end) + "," + to_string(pos), s, "expected " + to_string(R.whole) + "," + to_string(R.stop));
        if (!R.narrowing && sum != total)
            bad("scan in chunks counts " + to_string(sum), s, "expected " + to_string(total));
    }
}

// ---- vector widths -------------------------------------------------------------------------------------------
static uint64_t digest = 1469598103934665603ull;
static void mix(uint64_t v)
{
    for (int i = 0; i < 8; ++i)
        digest = (digest ^ ((v >> (8 * i)) & 255)) * 1099511628211ull;
}

static void converted(string_view s, u32string const& want)
{
    ++vf::cases;
    auto const a = convert_to<char32_t>(s);
    if (a != want)
        mismatch("UTF-8 to UTF-32 of " + show(s) + " gives " + show(a));
    auto const b = convert_to<char16_t>(s);
    u16string w;
    for (auto c: want)
        if (c > 0x10FFFF || (c >= 0xD800 && c < 0xE000))
            continue; // has no encoding
        else if (c < 0x10000)
            w += (char16_t) c;
        else
        {
            w += (char16_t) (0xD7C0 + (c >> 10));
            w += (char16_t) (0xDC00 + (c & 0x3FF));
        }
    if (b != w)
        mismatch("UTF-8 to UTF-16 of " + show(s) + " gives " + show(b));
    for (auto c: a)
        mix(c);
    for (auto c: b)
        mix(c);
}

static void scanned(string_view s, size_t max)
{
    ++vf::cases;
    scan_state st;
    auto const x = call(st, s, max);
    mix(x.count), mix((uint64_t) x.start), mix((uint64_t) x.end), mix((uint64_t) x.next);
    for (auto const& e: x.ev)
        mix((uint64_t) e.kind), mix((uint64_t) e.from), mix((uint64_t) e.to), mix((uint64_t) e.cols);
}

/// ASCII with one other thing in it: every length, position, alignment.
static void placed(int maxLen, int step)
{
    static const vector<string> things = { "\x1F", "\x20", "\x7E", "\x7F", "\x80", "\x9F", "\xA0", "\xC3\xA9", "\xE4\xB8\x80", "\xFF", "\x01" };
    vf::Guard g(1 << 16);
    for (int len = 0; len <= maxLen; ++len)
        for (int pos = 0; pos <= len; ++pos)
        {
            string t;
            for (int i = 0; i < len; ++i)
                t += (char) (33 + (i * 7 + len) % 94);
            auto const& x = things[(size_t) (pos + len * 5 + step) % things.size()];
            if (pos < len)
                t = t.substr(0, (size_t) pos) + x + t.substr((size_t) pos + 1);
            for (int al = 0; al < 64; al += step)
            {
                // either against the end of the page or anywhere, with foreign bytes around
                char* p;
                if (al == 0)
                    p = g.atEnd(t.data(), t.size());
                else
                {
                    p = g.begin() + 128 + al;
                    memset(g.begin(), al % 2 ? 0xC3 : 'x', t.size() + 512);
                    memcpy(p, t.data(), t.size());
                }
                string_view const s(p, t.size());
                auto const R = readText(s);
                auto const ascii = [&] {
                    long n = 0;
                    while (n < (long) s.size() && (unsigned char) s[(size_t) n] >= 32 && (unsigned char) s[(size_t) n] < 128)
                        ++n;
                    return n;
                }();
                for (size_t max: { (size_t) 1000, (size_t) pos, (size_t) pos + 1, (size_t) max(0, pos - 1), (size_t) len, (size_t) (len * 3 / 4) })
                {
                    ++vf::cases;
                    scan_state st;
                    auto const y = call(st, s, max);
                    long first = 0;
                    if (!y.ev.empty() && y.ev[0].kind == 'A')
                        first = y.ev[0].to;
                    if (first != min(ascii, (long) max))
                        mismatch("ASCII run of " + show(s) + " limit " + to_string(max) + " is " + to_string(first));
                    if (max >= (size_t) len + 8 && (y.next != R.stop || y.end != R.whole))
                        mismatch("scan of " + show(s) + " ends at " + to_string(y.next));
                }
                converted(s, ut.converted(s));
            }
        }
}

int main(int argc, char** argv)
{
    if (argc < 5)
        vf::usage("mode w g u ...");
    string const mode = argv[1];
    wt.load(argv[2]);
    gt.load(argv[3]);
    ut.load(argv[4]);
    auto const arg = [&](int i) { return i < argc ? argv[i] : (vf::usage("arguments"), argv[0]); };
    if (mode == "texts") // w g u pieces len cuts limits... out : all texts of up to len pieces, resumed at all cuts
    {
        auto const pieces = readPieces(arg(5));
        auto const len = atoi(arg(6));
        auto const cuts = atoi(arg(7)) != 0;
        Recorder rec(arg(8));
        static const size_t limits[] = { 0, 1, 2, 3, 4, 1000 };
        vector<size_t> idx;
        function<void(string const&, int)> go = [&](string const& t, int n) {
            vf::cases++;
            auto* const mem = guard.atEnd(t.data(), t.size());
            string_view const s(mem, t.size());
            rec.begin();
            for (long k = cuts ? 0 : (long) t.size(); k <= (long) t.size(); ++k)
                for (auto m: limits)
                {
                    scan_state st;
                    memset(mem, 0xFF, t.size());
                    memcpy(mem, t.data(), (size_t) k);
                    auto const first = cuts ? (size_t) 1000 : m;
                    auto const a = call(st, s.substr(0, (size_t) k), first);
                    rec.add(string_view(t).substr(0, (size_t) k), first, true, a);
                    memcpy(mem, t.data(), t.size());
                    long pos = a.next;
                    for (auto limit: { m, (size_t) 1000 })
                    {
                        if (pos < 0 || pos > (long) t.size())
                            break;
                        auto const b = call(st, s.substr((size_t) pos), limit);
                        rec.add(string_view(t).substr((size_t) pos), limit, false, b);
                        pos += b.next;
                    }
                }
            rec.end();
            if (n < len)
                for (auto const& p: pieces)
                    go(t + p, n + 1);
        };
        go("", 0);
    }
    else if (mode == "histories") // w g u pieces seed n out : random histories, recorded
    {
        auto const pieces = readPieces(arg(5));
        vf::Rng r((uint64_t) atoll(arg(6)));
        auto const n = atoi(arg(7));
        Recorder rec(arg(8));
        for (int i = 0; i < n; ++i)
            history(r, randomBytes(r, pieces, i % 4 == 0 ? 24 : 8), &rec);
    }
    else if (mode == "laws") // w g u pieces seed n
    {
        auto const pieces = readPieces(arg(5));
        vf::Rng r((uint64_t) atoll(arg(6)));
        auto const n = atoi(arg(7));
        for (int i = 0; i < n; ++i)
        {
            auto const t = randomBytes(r, pieces, i % 16 == 0 ? 60 : 10);
            laws(r, t);
            history(r, t, nullptr);
            if (auto u = t; vf::stretch(r, u, (uint64_t) i))
            {
                laws(r, u, u.size() > 2000 || i % 5);
                if (u.size() < 2000)
                    history(r, u, nullptr);
            }
        }
    }
    else if (mode == "vector") // w g u pieces seed n maxLen step
    {
        auto const pieces = readPieces(arg(5));
        vf::Rng r((uint64_t) atoll(arg(6)));
        auto const n = atoi(arg(7));
#ifdef VERIF_DETECTOR
        auto const w = __real__ZN7unicode6detail13max_simd_sizeEv();
        ++vf::cases;
        if ((w != 128 && w != 256 && w != 512) || w > processorWidth())
            mismatch("detected width " + to_string(w) + ", the processor has " + to_string(processorWidth()));
#endif
        placed(atoi(arg(8)), atoi(arg(9)));
        for (int i = 0; i < n; ++i)
        {
            string t(r.below(140), 'a');
            t += randomBytes(r, pieces, 30);
            t += string(r.below(140), 'z');
            vf::stretch(r, t, (uint64_t) i);
            string_view const s(guard.atEnd(t.data(), t.size()), t.size());
            scanned(s, i % 2 ? 1000 : 1000000);
            scanned(s, r.below(300));
            converted(s, ut.converted(s));
        }
        printf("DIGEST %llu\n", (unsigned long long) digest);
    }
    else
        vf::usage("mode");
    return vf::finish();
}
