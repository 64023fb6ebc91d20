// Conformance harness for normalization: records for spec/NormTrace.tla and replays the tables of spec/NormGen.tla.
#include "utftab.h"

#include <libunicode/normalization.h>

#include <algorithm>
#include <map>
#include <unordered_map>

using namespace unicode;
using namespace std;
using vf::mismatch;
using vf::show;
using Form = Normalization_Form;

static constexpr Form forms[] = { Form::NFC, Form::NFD, Form::NFKC, Form::NFKD };
static constexpr char const* names[] = { "NFC", "NFD", "NFKC", "NFKD" };

static string quickName(Quick_Check_Result r)
{
    return r == Quick_Check_Result::Yes ? "Yes" : r == Quick_Check_Result::No ? "No" : r == Quick_Check_Result::Maybe ? "Maybe" : "?";
}
static string typeName(Decomposition_Type t)
{
    switch (t)
    {
        case Decomposition_Type::None: return "none";
        case Decomposition_Type::Canonical: return "canonical";
        case Decomposition_Type::Circle: return "circle";
        case Decomposition_Type::Compat: return "compat";
        case Decomposition_Type::Final: return "final";
        case Decomposition_Type::Font: return "font";
        case Decomposition_Type::Fraction: return "fraction";
        case Decomposition_Type::Initial: return "initial";
        case Decomposition_Type::Isolated: return "isolated";
        case Decomposition_Type::Medial: return "medial";
        case Decomposition_Type::Narrow: return "narrow";
        case Decomposition_Type::Nobreak: return "noBreak";
        case Decomposition_Type::Small: return "small";
        case Decomposition_Type::Square: return "square";
        case Decomposition_Type::Sub: return "sub";
        case Decomposition_Type::Super: return "super";
        case Decomposition_Type::Vertical: return "vertical";
        case Decomposition_Type::Wide: return "wide";
        default: return "?";
    }
}
static string qcName(char32_t c, int f)
{
    auto const nfc = [](auto q) { using E = decltype(q); return q == E::Yes ? "Yes" : q == E::No ? "No" : q == E::Maybe ? "Maybe" : "?"; };
    switch (f)
    {
        case 0: return nfc(nfc_quick_check(c));
        case 1: return nfd_quick_check(c) ? "Yes" : "No";
        case 2: return nfc(nfkc_quick_check(c));
        default: return nfkd_quick_check(c) ? "Yes" : "No";
    }
}
static string convenience(int f, u32string_view s)
{
    u32string r;
    switch (f)
    {
        case 0: r = to_nfc(s); break;
        case 1: r = to_nfd(s); break;
        case 2: r = to_nfkc(s); break;
        default: r = to_nfkd(s); break;
    }
    return show(r);
}
static bool isForm(int f, u32string_view s) { return f == 0 ? is_nfc(s) : f == 1 ? is_nfd(s) : f == 2 ? is_nfkc(s) : is_nfkd(s); }
static bool isForm(int f, string_view s) { return f == 0 ? is_nfc(s) : f == 1 ? is_nfd(s) : f == 2 ? is_nfkc(s) : is_nfkd(s); }
static string toForm(int f, string_view s) { return f == 0 ? to_nfc(s) : f == 1 ? to_nfd(s) : f == 2 ? to_nfkc(s) : to_nfkd(s); }

template <typename F>
static string perForm(F fn)
{
    string s = "{";
    for (int f = 0; f < 4; ++f)
        s += string(f ? "," : "") + "\"" + names[f] + "\":" + fn(f);
    return s + "}";
}
static string quoted(string const& s) { return "\"" + s + "\""; }
static char const* truth(bool b) { return b ? "true" : "false"; }

// ---- tables of the specification -------------------------------------------------------------------------------
struct Tables
{
    unordered_map<uint32_t, int> ccc;
    unordered_map<uint32_t, u32string> full[2];
    map<pair<uint32_t, uint32_t>, uint32_t> pairs;
    vector<uint32_t> mapped, marks, firsts, seconds, maybe;

    void load(char const* file)
    {
        vf::Ints in(file);
        for (auto n = in.get(); n > 0; --n)
        {
            auto const a = (uint32_t) in.get(), b = (uint32_t) in.get();
            auto const k = (int) in.get();
            if (k)
                for (auto c = a; c <= b; ++c)
                {
                    ccc[c] = k;
                    marks.push_back(c);
                }
        }
        for (auto n = in.get(); n > 0; --n)
        {
            auto const c = (uint32_t) in.get();
            mapped.push_back(c);
            for (auto& f: full)
            {
                u32string s;
                for (auto k = in.get(); k > 0; --k)
                    s += (char32_t) in.get();
                f[c] = s;
            }
        }
        for (auto n = in.get(); n > 0; --n)
        {
            auto const a = (uint32_t) in.get(), b = (uint32_t) in.get();
            pairs[{ a, b }] = (uint32_t) in.get();
            firsts.push_back(a);
            seconds.push_back(b);
        }
        for (auto n = in.get(); n > 0; --n)
            maybe.push_back((uint32_t) in.get());
        for (auto* v: { &firsts, &seconds })
        {
            sort(v->begin(), v->end());
            v->erase(unique(v->begin(), v->end()), v->end());
        }
    }
    int cc(uint32_t c) const
    {
        auto const i = ccc.find(c);
        return i == ccc.end() ? 0 : i->second;
    }
    static bool syllable(uint32_t c) { return c >= 44032 && c < 44032 + 11172; }
    uint32_t pair2(uint32_t a, uint32_t b) const
    {
        if (a >= 4352 && a < 4371 && b >= 4449 && b < 4470)
            return 44032 + ((a - 4352) * 21 + (b - 4449)) * 28;
        if (syllable(a) && (a - 44032) % 28 == 0 && b > 4519 && b < 4547)
            return a + b - 4519;
        auto const i = pairs.find({ a, b });
        return i == pairs.end() ? 0 : i->second;
    }
    u32string nf(u32string_view s, int form) const
    {
        bool const k = form >= 2;
        u32string d;
        for (auto c: s)
            if (syllable(c))
            {
                auto const i = (uint32_t) c - 44032;
                d += (char32_t) (4352 + i / 588);
                d += (char32_t) (4449 + i % 588 / 28);
                if (i % 28)
                    d += (char32_t) (4519 + i % 28);
            }
            else if (auto const i = full[k].find(c); i != full[k].end())
                d += i->second;
            else
                d += c;
        for (size_t a = 0; a < d.size();)
        {
            auto b = a;
            while (b < d.size() && cc(d[b]))
                ++b;
            stable_sort(d.begin() + (long) a, d.begin() + (long) b, [&](auto x, auto y) { return cc(x) < cc(y); });
            a = b + 1;
        }
        if (form % 2)
            return d;
        u32string out;
        size_t starter = u32string::npos;
        for (auto c: d)
        {
            if (starter != u32string::npos)
            {
                bool blocked = false;
                for (auto i = starter + 1; i < out.size(); ++i)
                    blocked |= cc(out[i]) == 0 || cc(out[i]) >= cc(c);
                if (auto const p = blocked ? 0 : pair2(out[starter], c))
                {
                    out[starter] = (char32_t) p;
                    continue;
                }
            }
            if (cc(c) == 0)
                starter = out.size();
            out += c;
        }
        return out;
    }
    uint32_t any(vf::Rng& r) const
    {
        switch (r.below(12))
        {
            case 0: return r.pick(mapped);
            case 1:
            case 2: return r.pick(marks);
            case 3: return r.pick(firsts);
            case 4: return r.pick(seconds);
            case 5: return r.pick(maybe);
            case 6: return 4352 + r.below(256);
            case 7: return 44032 + r.below(11172);
            case 8: return 44032 + 28 * r.below(399);
            case 9: return vf::randomScalar(r);
            case 10: return 0x61 + r.below(26);
            default: return r.pick(mapped);
        }
    }
    u32string text(vf::Rng& r, size_t n) const
    {
        u32string few, s;
        for (int i = 0; i < 4; ++i)
            few += (char32_t) any(r);
        // a composing pair and the parts of a decomposition belong together
        auto const p = next(pairs.begin(), r.below((uint32_t) pairs.size()));
        few += (char32_t) p->first.first;
        few += (char32_t) p->first.second;
        few += full[1].at(r.pick(mapped)).substr(0, 4);
        auto const style = r.below(3);
        for (size_t i = 0, len = r.below((uint32_t) n + 1); i < len; ++i)
            s += style == 0 ? (char32_t) any(r) : style == 1 ? few[r.below((uint32_t) few.size())] : (char32_t) (r.chance(60) ? r.pick(marks) : few[r.below((uint32_t) few.size())]);
        return s;
    }
    /// Long runs of marks, mostly or not at all in order, between composing characters.
    u32string longRun(vf::Rng& r, size_t n) const
    {
        u32string s;
        for (auto runs = 1 + r.below(2); runs > 0; --runs)
        {
            auto const p = next(pairs.begin(), r.below((uint32_t) pairs.size()));
            s += (char32_t) p->first.first;
            auto const style = r.below(3);
            auto const one = r.pick(marks), two = r.pick(marks);
            for (size_t i = 0, len = r.below((uint32_t) n + 1); i < len; ++i)
                s += (char32_t) (style == 0 ? r.pick(marks) : style == 1 || r.chance(95) ? one : two);
            if (r.chance(70))
                s += (char32_t) two;
            if (r.chance(50))
                s += (char32_t) p->first.second;
        }
        return s;
    }
};
static Tables tab;
static vf::StreamTab ut;

// ---- streaming ---------------------------------------------------------------------------------------------------
/// Feeds a text; the normalizer may have been used before.
static u32string streamed(normalizer& n, u32string_view s)
{
    u32string out;
    for (auto c: s)
        out += n.feed(c);
    out += n.flush();
    return out;
}
static string streamed(utf8_normalizer& n, string_view s, vf::Rng& r)
{
    string out;
    size_t at = 0;
    while (at < s.size())
    {
        auto const k = min(s.size() - at, (size_t) (r.chance(20) ? 0 : r.chance(60) ? 1 + r.below(3) : 1 + r.below(12)));
        auto const o = n.feed(s.substr(at, k));
        out += o;
        at += k;
    }
    out += n.flush();
    return out;
}
static normalizer& used(int f)
{
    static normalizer n[] = { normalizer(forms[0]), normalizer(forms[1]), normalizer(forms[2]), normalizer(forms[3]) };
    return n[f];
}
static utf8_normalizer& used8(int f)
{
    static utf8_normalizer n[] = { utf8_normalizer(forms[0]), utf8_normalizer(forms[1]), utf8_normalizer(forms[2]), utf8_normalizer(forms[3]) };
    return n[f];
}
/// Leaves something behind which reset must forget.
static void disturb(int f, vf::Rng& r)
{
    if (!r.chance(40))
        return;
    for (auto c: tab.text(r, 4))
        (void) used(f).feed(c);
    used(f).reset();
    string s;
    for (auto c: tab.text(r, 3))
        vf::putUtf8(s, c);
    if (r.chance(60))
        s += "\xE4\xB8"; // unfinished
    (void) used8(f).feed(s);
    used8(f).reset();
}

static string utf8(u32string_view s)
{
    string o;
    for (auto c: s)
        if (c <= 0x10FFFF && (c < 0xD800 || c > 0xDFFF))
            vf::putUtf8(o, c);
    return o;
}

// ---- recording -----------------------------------------------------------------------------------------------------
static void recordText(ostream& out, vf::Rng& r, u32string const& s)
{
    ++vf::cases;
    u32string other = s;
    if (r.chance(50))
        other = normalize(u32string_view(s), forms[r.below(4)]);
    else if (!s.empty() && r.chance(70))
        swap(other[r.below((uint32_t) s.size())], other[r.below((uint32_t) s.size())]);
    else
        other = tab.text(r, 3);
    out << "{\"k\":\"text\",\"in\":" << show(s) << ",\"nf\":" << perForm([&](int f) { return r.chance(50) ? convenience(f, s) : show(normalize(u32string_view(s), forms[f])); })
        << ",\"quick\":" << perForm([&](int f) { return quoted(quickName(quick_check(u32string_view(s), forms[f]))); })
        << ",\"is\":" << perForm([&](int f) { return truth(r.chance(50) ? isForm(f, u32string_view(s)) : is_normalized(u32string_view(s), forms[f])); })
        << ",\"stream\":" << perForm([&](int f) { disturb(f, r); return show(streamed(used(f), s)); })
        << ",\"other\":" << show(other) << ",\"canonical\":" << truth(is_canonically_equivalent(u32string_view(s), u32string_view(other)))
        << ",\"compatible\":" << truth(is_compatibility_equivalent(u32string_view(s), u32string_view(other))) << "}\n";
}

static bool scalars(u32string_view s)
{
    return all_of(s.begin(), s.end(), [](char32_t c) { return c <= 0x10FFFF && (c < 0xD800 || c > 0xDFFF); });
}

/// UTF-8, often damaged, but such that the decoders see only scalar values in it.
static string bytesOf(vf::Rng& r, size_t n)
{
    auto const clean = utf8(tab.text(r, n));
    auto s = clean;
    if (r.chance(30))
        for (int i = 0; i < 2 && !s.empty(); ++i)
            switch (r.below(3))
            {
                case 0: s.erase(r.below((uint32_t) s.size()), 1); break;
                case 1: s.insert(r.below((uint32_t) s.size()), 1, (char) r.below(256)); break;
                default: s.resize(r.below((uint32_t) s.size())); break;
            }
    if (!scalars(ut.text(s)) || !scalars(ut.converted(s)))
        return clean;
    return s;
}

static void recordBytes(ostream& out, vf::Rng& r, string const& s)
{
    ++vf::cases;
    string other = s;
    if (r.chance(60))
        other = normalize(string_view(s), forms[r.below(4)]);
    else
        other = bytesOf(r, 3);
    out << "{\"k\":\"bytes\",\"in\":" << show(s) << ",\"nf\":" << perForm([&](int f) { return show(r.chance(50) ? toForm(f, s) : normalize(string_view(s), forms[f])); })
        << ",\"quick\":" << perForm([&](int f) { return quoted(quickName(quick_check(string_view(s), forms[f]))); })
        << ",\"is\":" << perForm([&](int f) { return truth(r.chance(50) ? isForm(f, string_view(s)) : is_normalized(string_view(s), forms[f])); })
        << ",\"stream\":" << perForm([&](int f) { disturb(f, r); return show(streamed(used8(f), s, r)); })
        << ",\"other\":" << show(other) << ",\"canonical\":" << truth(is_canonically_equivalent(string_view(s), string_view(other)))
        << ",\"compatible\":" << truth(is_compatibility_equivalent(string_view(s), string_view(other))) << "}\n";
}

/// Properties of all code points; those which have none come as ranges.
static void recordPoints(ostream& out)
{
    long from = -1;
    auto const close = [&](uint32_t c) {
        if (from >= 0)
            out << "{\"k\":\"range\",\"lo\":" << from << ",\"hi\":" << c - 1 << "}\n";
        from = -1;
    };
    for (uint32_t c = 0; c <= 0x110003; ++c)
    {
        ++vf::cases;
        u32string const s(1, (char32_t) c);
        auto const canon = canonical_decomposition(c), compat = compatibility_decomposition(c);
        auto const type = decomposition_type(c);
        auto const ccc = canonical_combining_class(c);
        bool plain = canon.empty() && compat.empty() && type == Decomposition_Type::None && ccc == 0 && !is_full_composition_exclusion(c) && !is_composition_exclusion(c);
        for (int f = 0; f < 4; ++f)
            plain = plain && qcName(c, f) == "Yes" && normalize(u32string_view(s), forms[f]) == s;
        if (plain && (c > 0x100000 ? c % 65536 : c % 2048) != 0)
        {
            if (from < 0)
                from = c;
            continue;
        }
        close(c);
        if (plain)
        {
            from = c;
            continue;
        }
        out << "{\"k\":\"point\",\"c\":" << c << ",\"ccc\":" << (int) ccc << ",\"type\":" << quoted(typeName(type)) << ",\"canon\":" << show(canon)
            << ",\"compat\":" << show(compat) << ",\"listed\":" << truth(is_composition_exclusion(c)) << ",\"excl\":" << truth(is_full_composition_exclusion(c))
            << ",\"qc\":" << perForm([&](int f) { return quoted(qcName(c, f)); })
            << ",\"nf\":" << perForm([&](int f) { return show(normalize(u32string_view(s), forms[f])); }) << "}\n";
    }
    close(0x110004);
}

// ---- replay ----------------------------------------------------------------------------------------------------------
static void equivalence(u32string const& a, u32string const& b, bool canonical, bool compatible)
{
    auto const ab = is_canonically_equivalent(u32string_view(a), u32string_view(b));
    auto const ba = is_canonically_equivalent(u32string_view(b), u32string_view(a));
    auto const kab = is_compatibility_equivalent(u32string_view(a), u32string_view(b));
    auto const kba = is_compatibility_equivalent(u32string_view(b), u32string_view(a));
    if (ab != canonical || ba != canonical || kab != compatible || kba != compatible)
        mismatch("equivalence of " + show(a) + " and " + show(b) + " is canonical " + truth(ab) + "/" + truth(ba) + " compatible " + truth(kab) + "/" + truth(kba));
    if (!scalars(a) || !scalars(b))
        return;
    auto const a8 = utf8(a), b8 = utf8(b);
    auto const c8 = is_canonically_equivalent(string_view(a8), string_view(b8)), k8 = is_compatibility_equivalent(string_view(a8), string_view(b8));
    if (c8 != canonical || k8 != compatible)
        mismatch("equivalence of UTF-8 " + show(a) + " and " + show(b) + " is canonical " + truth(c8) + " compatible " + truth(k8));
}

static void replay(vf::Rng& r, u32string const& s)
{
    ++vf::cases;
    u32string want[4];
    for (int f = 0; f < 4; ++f)
    {
        want[f] = tab.nf(s, f);
        auto const got = normalize(u32string_view(s), forms[f]);
        if (got != want[f])
            mismatch(string(names[f]) + " of " + show(s) + " is " + show(got) + " expected " + show(want[f]));
        auto const is = is_normalized(u32string_view(s), forms[f]);
        if (is != (want[f] == s))
            mismatch(string("is_normalized ") + names[f] + " of " + show(s) + " is " + truth(is));
        auto const q = quick_check(u32string_view(s), forms[f]);
        if ((q == Quick_Check_Result::Yes && want[f] != s) || (q == Quick_Check_Result::No && want[f] == s) || (f % 2 && q == Quick_Check_Result::Maybe))
            mismatch(string("quick_check ") + names[f] + " of " + show(s) + " is " + quickName(q));
        disturb(f, r);
        auto const st = streamed(used(f), s);
        if (st != want[f])
            mismatch(string("streamed ") + names[f] + " of " + show(s) + " is " + show(st) + " expected " + show(want[f]));
    }
    // what is equivalent: the forms of the text (however long they are), hardly ever another text
    static u32string last;
    auto other = r.chance(50) ? last : s;
    if (r.chance(50) && other.size() > 1)
        swap(other[r.below((uint32_t) other.size())], other[r.below((uint32_t) other.size())]);
    equivalence(s, other, tab.nf(other, 1) == want[1], tab.nf(other, 3) == want[3]);
    for (int f = 0; f < 4; ++f)
        if (want[f] != s && find(want, want + f, want[f]) == want + f)
            equivalence(s, want[f], f < 2 || tab.nf(want[f], 1) == want[1], true);
    last = s;
    auto const f = (int) r.below(4);
    auto const b = utf8(s);
    auto const u = normalize(string_view(b), forms[f]);
    if (!scalars(s))
        return;
    if (u != utf8(want[f]))
        mismatch(string(names[f]) + " of UTF-8 " + show(b) + " is " + show(u));
    auto const st = streamed(used8(f), b, r);
    if (st != utf8(want[f]))
        mismatch(string("streamed ") + names[f] + " of UTF-8 " + show(b) + " is " + show(st));
    // malformed UTF-8 is streamed as U+FFFD
    auto m = bytesOf(r, 5);
    auto const text = ut.text(m);
    auto const sm = streamed(used8(f), m, r);
    if (sm != utf8(tab.nf(text, f)))
        mismatch(string("streamed ") + names[f] + " of malformed " + show(m) + " is " + show(sm));
}

int main(int argc, char** argv)
{
    if (argc < 4)
        vf::usage("mode n u ...");
    string const mode = argv[1];
    tab.load(argv[2]);
    ut.load(argv[3]);
    auto const arg = [&](int i) { return i < argc ? argv[i] : (vf::usage("arguments"), argv[0]); };
    if (mode == "points") // out
    {
        ofstream out(arg(4));
        recordPoints(out);
    }
    else if (mode == "record") // seed n inputs out
    {
        vf::Rng r((uint64_t) atoll(arg(4)));
        auto const n = atoi(arg(5));
        vf::Ints in(arg(6));
        ofstream out(arg(7));
        while (in.more())
        {
            u32string s;
            for (auto k = in.get(); k > 0; --k)
                s += (char32_t) in.get();
            recordText(out, r, s);
            if (r.chance(20))
                recordBytes(out, r, utf8(s));
        }
        for (int i = 0; i < n; ++i)
        {
            recordText(out, r, tab.text(r, 7));
            recordBytes(out, r, bytesOf(r, 5));
        }
    }
    else if (mode == "replay") // seed n
    {
        vf::Rng r((uint64_t) atoll(arg(4)));
        auto const n = atoi(arg(5));
        // every pair of a first and a second, with something in between and behind
        for (auto a: tab.firsts)
            for (auto b: tab.seconds)
            {
                u32string const t { (char32_t) a, (char32_t) b };
                replay(r, t);
                if (r.chance(10))
                {
                    replay(r, u32string { (char32_t) a, (char32_t) r.pick(tab.marks), (char32_t) b });
                    replay(r, t + (char32_t) tab.any(r));
                }
            }
        for (auto c: tab.mapped)
        {
            replay(r, u32string(1, (char32_t) c));
            replay(r, tab.full[0].at(c));
            replay(r, tab.full[1].at(c) + (char32_t) r.pick(tab.seconds));
            replay(r, u32string(1, (char32_t) tab.any(r)) + (char32_t) c);
        }
        for (int i = 0; i < n; ++i)
        {
            auto s = i % 64 == 5 ? tab.longRun(r, i % 128 == 5 ? 20 : i % 512 == 69 ? 700 : 70) : tab.text(r, i % 16 ? 8 : 60);
            vf::stretch(r, s, (uint64_t) i, 3000);
            replay(r, s);
        }
    }
    else if (mode == "marks") // every pair of marks behind a starter
    {
        for (auto a: tab.marks)
            for (auto b: tab.marks)
            {
                ++vf::cases;
                u32string const s { U'x', (char32_t) a, (char32_t) b };
                auto const w = tab.nf(s, 1), g = normalize(u32string_view(s), Form::NFD);
                if (g != w)
                    mismatch("NFD of " + show(s) + " is " + show(g) + " expected " + show(w));
            }
    }
    else if (mode == "hangul") // out limit
    {
        ofstream out(arg(4));
        long from = -1;
        auto const close = [&](uint32_t c) {
            if (from >= 0)
                out << "{\"k\":\"nohangul\",\"lo\":" << from << ",\"hi\":" << c - 1 << "}\n";
            from = -1;
        };
        char32_t o[8];
        for (uint32_t c = 0; c <= 0x110100; ++c)
        {
            ++vf::cases;
            for (auto& x: o)
                x = 0xEEEE;
            auto const n = hangul_decompose(c, o);
            for (auto i = n; i < 8; ++i)
                if (o[i] != 0xEEEE)
                    mismatch("decomposition of " + to_string(c) + " writes behind its length");
            if (!n && !is_hangul_syllable(c) && !is_hangul_l_jamo(c) && !is_hangul_v_jamo(c) && !is_hangul_t_jamo(c))
            {
                if (from < 0)
                    from = c;
                continue;
            }
            close(c);
            out << "{\"k\":\"hangul\",\"c\":" << c << ",\"syl\":" << truth(is_hangul_syllable(c)) << ",\"l\":" << truth(is_hangul_l_jamo(c))
                << ",\"v\":" << truth(is_hangul_v_jamo(c)) << ",\"t\":" << truth(is_hangul_t_jamo(c)) << ",\"out\":" << show(u32string_view(o, n)) << "}\n";
        }
        close(0x110101);
        // composition of three: everything around the jamo, and round trips
        vector<uint32_t> near;
        for (uint32_t c = 0x10F0; c < 0x1210; ++c)
            near.push_back(c);
        for (uint32_t c: { 0u, 1u, 0x61u, 0xAC00u, 0xAC1Cu, 0xD7A3u, 0x110000u, 0xFFFFFFFFu, 0x80001100u })
            near.push_back(c);
        for (auto l: near)
            for (auto v: near)
                for (auto t: near)
                {
                    ++vf::cases;
                    auto const x = hangul_compose(l, v, t);
                    // which syllable decomposes into these
                    auto const n = x ? hangul_decompose(x, o) : 0;
                    if (x && !(n >= 2 && o[0] == l && o[1] == v && (n == 3 ? o[2] == t : t == 0)))
                        mismatch("composition of " + show(vector<uint32_t> { l, v, t }) + " is " + to_string((uint32_t) x) + ", which does not decompose into it");
                }
        for (uint32_t c = 0xAC00; c <= 0xD7A3; ++c)
        {
            auto const n = hangul_decompose(c, o);
            if (n < 2 || n > 3 || hangul_compose(o[0], o[1], n == 3 ? o[2] : 0) != c || (n == 2 && hangul_compose(o[0], o[1]) != c))
                mismatch("syllable " + to_string(c) + " does not compose again");
        }
        vf::Rng r((uint64_t) atoll(arg(5)));
        for (int i = 0; i < 20000; ++i)
        {
            uint32_t in[] = { 0x10FE + r.below(0x18), 0x115F + r.below(0x19), r.chance(30) ? 0 : 0x11A5 + r.below(0x20) };
            if (r.chance(10))
                in[r.below(3)] = r.pick(near) & 0x7FFFFFFF;
            out << "{\"k\":\"compose\",\"in\":" << show(vector<uint32_t>(in, in + 3)) << ",\"out\":" << (uint32_t) hangul_compose(in[0], in[1], in[2]) << "}\n";
        }
        // strings of jamo and syllables
        for (int i = 0; i < atoi(arg(6)); ++i)
        {
            u32string s;
            for (auto n = 1 + r.below(6); n > 0; --n)
                switch (r.below(7))
                {
                    case 0: s += (char32_t) (0x10FF + r.below(21)); break;
                    case 1: s += (char32_t) (0x1160 + r.below(23)); break;
                    case 2: s += (char32_t) (0x11A6 + r.below(30)); break;
                    case 3: s += (char32_t) (0xAC00 + 28 * r.below(399)); break;
                    case 4: s += (char32_t) (0xAC00 + r.below(11172)); break;
                    case 5: s += (char32_t) (r.chance(50) ? 0xD7A3 + r.below(2) : 0xABFF + r.below(2)); break;
                    default: s += (char32_t) tab.any(r);
                }
            recordText(out, r, s);
        }
    }
    else
        vf::usage("mode");
    return vf::finish();
}
