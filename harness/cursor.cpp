// Conformance harness for the value semantics of segmenters, iterators and incremental states (spec/Cursor*.tla).
#include "segtab.h"
#include "util.h"

#include <libunicode/capi.h>
#include <libunicode/case_mapping.h>
#include <libunicode/codepoint_properties.h>
#include <libunicode/convert.h>
#include <libunicode/emoji_segmenter.h>
#include <libunicode/grapheme_segmenter.h>
#include <libunicode/normalization.h>
#include <libunicode/run_segmenter.h>
#include <libunicode/scan.h>
#include <libunicode/script_segmenter.h>
#include <libunicode/ucd.h>
#include <libunicode/ucd_fmt.h>
#include <libunicode/ucd_ostream.h>
#include <libunicode/utf8.h>
#include <libunicode/utf8_grapheme_segmenter.h>
#include <libunicode/width.h>
#include <libunicode/word_segmenter.h>

#include <optional>
#include <thread>

using namespace unicode;
using namespace std;
using vf::show;

struct Text
{
    u32string cps;
    string bytes;
    vector<size_t> pieces; // how an incremental reader is fed
    size_t columns = 0;
};

template <typename... A>
static string str(A const&... a)
{
    string s;
    ((s += (s.empty() ? "" : ",") + to_string((long long) a)), ...);
    return s;
}

// Every kind: make(text) and, where == exists, end(text); step(); cur(); avail(); 
template <typename S>
struct Range
{
    static constexpr char const* how = "range";
    optional<S> s;
    char32_t const* base = nullptr;
    void make(Text const* t, bool alt)
    {
        base = t ? t->cps.data() : nullptr;
        if (!t)
            s.emplace();
        else if (alt)
            s.emplace(u32string_view(t->cps));
        else
            s.emplace(t->cps.data(), t->cps.data() + t->cps.size());
    }
    string step()
    {
        auto& r = ++*s;
        return &r == &*s ? "" : "not itself";
    }
    string cur() const
    {
        auto const v = **s;
        auto more = string();
        if constexpr (is_same_v<S, word_segmenter>)
            more = str(s->size(), s->empty());
        return str(v.data() - base, v.size(), s->codepointsAvailable(), s->operator bool()) + ";" + more;
    }
    bool avail() const { return s->codepointsAvailable(); }
    bool equal(Range const& o) const { return *s == *o.s; }
};

struct Utf8
{
    static constexpr char const* how = "position";
    optional<utf8_grapheme_segmenter> g;
    optional<utf8_grapheme_segmenter::iterator> it;
    void make(Text const* t, bool)
    {
        static string const empty;
        g.emplace(t ? string_view(t->bytes) : string_view(empty));
        it.emplace(g->begin());
    }
    void makeEnd(Text const* t)
    {
        make(t, false);
        it.emplace(g->end());
    }
    string step()
    {
        auto& r = ++*it;
        return &r == &*it ? "" : "not itself";
    }
    string cur() const
    {
        string a, b;
        for (auto c: **it)
            a += to_string((uint32_t) c) + " ";
        for (auto c: it->value())
            b += to_string((uint32_t) c) + " ";
        ostringstream os;
        os << *it;
        return a + "|" + b + "|" + to_string(os.str().size()) + (*it == g->end() ? "end" : "");
    }
    bool avail() const { return *it != g->end(); }
    bool equal(Utf8 const& o) const
    {
        auto const e = *it == *o.it;
        return (*it != *o.it) == e ? !e : e; // an inconsistent pair shows as a wrong answer
    }
};

struct EmojiK
{
    static constexpr char const* how = "none";
    optional<emoji_segmenter> s;
    char32_t const* base = nullptr;
    bool at = false;
    void make(Text const* t, bool alt)
    {
        at = false;
        base = t ? t->cps.data() : nullptr;
        if (!t)
            s.emplace();
        else if (alt)
            s.emplace(u32string_view(t->cps));
        else
            s.emplace(t->cps.data(), t->cps.size());
    }
    string step()
    {
        size_t n = 0;
        PresentationStyle p {};
        auto const ok = s->consume(out(n), out(p));
        at = ok;
        return ok ? str(n, (int) p) : "no";
    }
    string cur() const
    {
        if (!at)
            return str(s->size(), base ? s->buffer() - base : 0);
        auto const v = s->substr();
        auto const w = **s;
        return str(s->size(), s->buffer() - base, s->currentCursorBegin(), s->currentCursorEnd(), s->isEmoji(), s->isText(), v.data() - base, v.size(),
                   w.data() - base, w.size());
    }
    bool avail() const { return true; }
};

struct ScriptK
{
    static constexpr char const* how = "none";
    optional<script_segmenter> s;
    bool alt_ = false;
    void make(Text const* t, bool alt)
    {
        alt_ = alt;
        if (!t)
            s.emplace();
        else if (alt)
            s.emplace(u32string_view(t->cps));
        else
            s.emplace(t->cps.data(), t->cps.size());
    }
    string step()
    {
        alt_ = !alt_;
        if (alt_)
        {
            size_t n = 0;
            Script sc {};
            return s->consume(out(n), out(sc)) ? str(n, (int) sc) : "no";
        }
        auto const r = s->consume();
        return r ? str(r->size, (int) r->script) : "no";
    }
    string cur() const { return ""; }
    bool avail() const { return true; }
};

struct RunK
{
    static constexpr char const* how = "none";
    optional<run_segmenter> s; // can be copied, not assigned
    RunK() = default;
    RunK(RunK const&) = default;
    RunK& operator=(RunK const& o)
    {
        if (this != &o)
            s.emplace(*o.s);
        return *this;
    }
    void make(Text const* t, bool alt)
    {
        static u32string const none;
        auto const& c = t ? t->cps : none;
        if (alt)
            s.emplace(u32string_view(c));
        else
            s.emplace(c.data(), c.size());
    }
    string step()
    {
        run_segmenter::range r {};
        if (!s->consume(out(r)))
            return "no";
        auto const same = r == r && !(r != r);
        auto q = r;
        q.end++;
        return str(r.start, r.end, (int) get<0>(r.properties), (int) get<1>(r.properties), same, q == r, q != r);
    }
    string cur() const { return str(s->finished()); }
    bool avail() const { return true; }
};

/// States fed one element at a time.
template <typename D>
struct Fed: D
{
    static constexpr char const* how = "none";
    Text const* t = nullptr;
    size_t at = 0;
    void make(Text const* x, bool)
    {
        t = x;
        at = 0;
        static_cast<D&>(*this) = D {};
    }
    string step()
    {
        if (!t || at >= this->count(*t))
            return "no";
        return this->feed(*t, at++);
    }
    string cur() const { return str(at) + this->shown(); }
    bool avail() const { return true; }
};
struct OfCps
{
    size_t count(Text const& t) const { return t.cps.size(); }
    string shown() const { return ""; }
};
struct GState: OfCps
{
    grapheme_segmenter_state s {};
    string feed(Text const& t, size_t i)
    {
        if (!i)
            return grapheme_process_init(t.cps[0], s), "";
        return str(grapheme_process_breakable(t.cps[i], s));
    }
};
struct WState: OfCps
{
    word_segmenter_state s {};
    string feed(Text const& t, size_t i)
    {
        if (!i)
            return word_process_init(t.cps[0], s), "";
        return str(word_process_breakable(t.cps[i], t.cps.data() + i + 1, t.cps.size() - i - 1, s));
    }
};
struct Width: OfCps
{
    grapheme_cluster_width_accumulator a {};
    string feed(Text const& t, size_t i)
    {
        a.push(t.cps[i]);
        return str(a.width());
    }
    string shown() const { return "," + str(a.width()); }
};
struct Decode
{
    utf8_decoder_state s {};
    size_t count(Text const& t) const { return t.bytes.size(); }
    string shown() const { return ""; }
    string feed(Text const& t, size_t i)
    {
        auto const r = from_utf8(s, (uint8_t) t.bytes[i]);
        return holds_alternative<Success>(r) ? str(get<Success>(r).value) : holds_alternative<Incomplete>(r) ? "incomplete" : "invalid";
    }
};
struct Receiver final: grapheme_cluster_receiver
{
    char const* base = nullptr;
    string log;
    void receiveAsciiSequence(string_view s) noexcept override { log += " a" + str(s.size()); }
    void receiveGraphemeCluster(string_view s, size_t n) noexcept override { log += " g" + str(s.size(), n); }
    void receiveInvalidGraphemeCluster() noexcept override { log += " i"; }
};
struct Scan
{
    scan_state s {};
    size_t at = 0, from = 0;
    size_t count(Text const& t) const { return 2 * t.pieces.size() + 2; }
    string shown() const { return "," + str(from); }
    string feed(Text const& t, size_t)
    {
        if (from >= t.bytes.size())
            return "done";
        auto const n = t.pieces.empty() ? 1 : t.pieces[at++ % t.pieces.size()];
        auto const piece = string_view(t.bytes).substr(from, n);
        Receiver r;
        s.next = piece.data();
        auto const x = scan_text(s, piece, t.columns, r);
        auto out = str(x.count, x.start - t.bytes.data(), x.end - t.bytes.data()) + r.log;
        auto const pos = (size_t) (s.next - t.bytes.data());
        from = pos > from ? pos : from + 1; // a control, or nothing fits: the caller goes on behind it
        if (pos <= from - 1)
            s = {};
        return out;
    }
};

template <typename C>
static string nums(basic_string_view<C> v)
{
    string s = to_string(v.size()) + ":";
    for (auto c: v)
        s += to_string((long long) c) + " ";
    return s;
}
template <typename C>
static string nums(basic_string<C> const& v)
{
    return nums(basic_string_view<C>(v));
}
template <Normalization_Form F>
struct Norm
{
    normalizer n { F };
    size_t count(Text const& t) const { return t.cps.size() + 1; }
    string shown() const { return ""; }
    string feed(Text const& t, size_t i) { return nums(i < t.cps.size() ? n.feed(t.cps[i]) : n.flush()); }
};
template <Normalization_Form F>
struct Norm8
{
    utf8_normalizer n { F };
    size_t count(Text const& t) const { return t.bytes.size() + 1; }
    string shown() const { return ""; }
    string feed(Text const& t, size_t i) { return nums(i < t.bytes.size() ? n.feed(string_view(t.bytes).substr(i, 1)) : n.flush()); }
};

/// Functions of the text alone: "position" is the number of calls.
using Fn = string (*)(Text const&);
template <typename F>
static string each(Text const& t, F f)
{
    string s;
    for (auto c: t.cps)
        s += f(c) + " ";
    return s;
}
template <typename T>
static string named(T v)
{
    ostringstream os;
    os << v;
    return os.str() + "/" + std::format("{}", v);
}
static constexpr auto NFC = Normalization_Form::NFC, NFD = Normalization_Form::NFD, NFKC = Normalization_Form::NFKC, NFKD = Normalization_Form::NFKD;
static u32_char_t const* c32(Text const& t) { return (u32_char_t const*) t.cps.data(); }
static Fn const functions[] = {
    [](Text const& t) { return nums(to_nfc(u32string_view(t.cps))); },
    [](Text const& t) { return nums(to_nfd(u32string_view(t.cps))); },
    [](Text const& t) { return nums(to_nfkc(u32string_view(t.cps))); },
    [](Text const& t) { return nums(to_nfkd(u32string_view(t.cps))); },
    [](Text const& t) { return nums(to_nfc(string_view(t.bytes))) + nums(to_nfkd(string_view(t.bytes))); },
    [](Text const& t) {
        string s;
        for (auto f: { NFC, NFD, NFKC, NFKD })
            s += str((int) quick_check(u32string_view(t.cps), f), is_normalized(u32string_view(t.cps), f), (int) quick_check(string_view(t.bytes), f)) + " ";
        return s;
    },
    [](Text const& t) {
        auto const h = u32string_view(t.cps).substr(t.cps.size() / 2);
        return str(is_canonically_equivalent(u32string_view(t.cps), h), is_compatibility_equivalent(u32string_view(t.cps), h),
                   casefold_compare(u32string_view(t.cps), h), casefold_equals(u32string_view(t.cps), h));
    },
    [](Text const& t) {
        return each(t, [](char32_t c) {
            auto const d = canonical_decomposition(c), k = compatibility_decomposition(c);
            return str(canonical_combining_class(c), (int) decomposition_type(c), is_composition_exclusion(c), is_full_composition_exclusion(c),
                       (int) nfc_quick_check(c), nfd_quick_check(c), (int) nfkc_quick_check(c), nfkd_quick_check(c), is_hangul_syllable(c))
                   + nums(u32string(d.begin(), d.end())) + nums(u32string(k.begin(), k.end()));
        });
    },
    [](Text const& t) { return nums(to_uppercase(u32string_view(t.cps))) + nums(to_lowercase(u32string_view(t.cps))); },
    [](Text const& t) { return nums(to_titlecase(u32string_view(t.cps))) + nums(casefold(u32string_view(t.cps))); },
    [](Text const& t) { return nums(to_uppercase(string_view(t.bytes))) + nums(to_titlecase(string_view(t.bytes))); },
    [](Text const& t) {
        return each(t, [](char32_t c) {
            return str(simple_uppercase(c), simple_lowercase(c), simple_titlecase(c), simple_casefold(c), is_cased(c), is_case_ignorable(c)) + nums(full_uppercase(c).view())
                   + nums(full_lowercase(c).view()) + nums(full_titlecase(c).view()) + nums(full_casefold(c).view());
        });
    },
    [](Text const& t) { return each(t, [](char32_t c) { return str(unicode::width(c)); }) + str(grapheme_cluster_width(u32string_view(t.cps)), grapheme_cluster_width(string_view(t.bytes))); },
    [](Text const& t) { return nums(convert_to<char>(u32string_view(t.cps))) + nums(convert_to<char16_t>(string_view(t.bytes))); },
    [](Text const& t) { return nums(convert_to<char32_t>(string_view(t.bytes))) + nums(from_utf8(string_view(t.bytes))) + nums(to_utf8(t.cps)); },
    [](Text const& t) { return each(t, [](char32_t c) { return string(codepoint_properties::name(c)); }); },
    [](Text const& t) {
        return each(t, [](char32_t c) {
            auto const p = codepoint_properties::get(c);
            return named(p.script) + named(p.general_category) + named(p.grapheme_cluster_break) + named(p.east_asian_width) + str(p.char_width, p.is_emoji(), p.is_virama());
        });
    },
    [](Text const& t) {
        return each(t, [](char32_t c) {
            auto const x = script_extensions(c);
            string s;
            if (x)
                for (auto k: *x)
                    s += named(k) + "+";
            return s + named(script(c)) + named(block(c)) + named(plane(c)) + named(general_category::get(c)) + named(east_asian_width(c)) + named(grapheme_cluster_break(c))
                   + str(is_emoji(c), is_emoji_component(c), is_emoji_modifier(c), is_emoji_presentation(c), is_extended_pictographic(c), contains(Core_Property::Alphabetic, c));
        });
    },
    [](Text const& t) {
        return str(u32_gc_count(c32(t), t.cps.size()), u8_gc_count(t.bytes.data(), t.bytes.size()), u32_gc_width(c32(t), t.cps.size(), GC_WIDTH_MODE_MODIFIABLE),
                   u32_gc_width(c32(t), t.cps.size(), GC_WIDTH_MODE_NON_MODIFIABLE), u8_gc_width(t.bytes.data(), t.bytes.size(), GC_WIDTH_MODE_MODIFIABLE));
    },
    [](Text const& t) {
        char d[80] = {};
        auto const n = u32u8_convert(c32(t), t.cps.size(), d, sizeof(d));
        auto s = str(n) + nums(string_view(d, n > 0 ? (size_t) n : 0));
        auto h = u8u32_stream_convert_create();
        for (auto c: t.bytes)
        {
            u32_char_t o = 0;
            s += " " + to_string(u8u32_stream_convert_run(h, c, &o)) + ":" + to_string(o);
        }
        u8u32_stream_convert_destroy(&h);
        return s;
    },
    [](Text const& t) {
        scan_state s {};
        auto const a = scan_text(s, t.bytes, t.columns);
        return str(a.count, a.end - t.bytes.data());
    },
};
struct Api
{
    size_t count(Text const&) const { return size(functions); }
    string shown() const { return ""; }
    string feed(Text const& t, size_t i) { return functions[i](t); }
};

template <typename K>
struct Sim
{
    vector<Text> texts; // [0]: none
    vector<K> objs;

    K fresh(size_t t, bool alt)
    {
        K k;
        k.make(t ? &texts[t] : nullptr, alt);
        return k;
    }
    static string q(string const& s) { return "\"" + s + "\""; }
    /// One uninterrupted run.
    string reference(size_t t)
    {
        string cur, res, av;
        auto k = fresh(t, false);
        for (size_t n = 0;; ++n)
        {
            auto const before = k.cur();
            auto const a = k.avail();
            auto const r = k.step();
            cur += (n ? "," : "") + q(before);
            res += (n ? "," : "") + q(r);
            av += (n ? "," : "") + to_string(a ? 1 : 0);
            auto const len = texts[t].cps.size() + 2 * texts[t].bytes.size() + 4 + size(functions);
            if (k.cur() == before && r == lastAnswer(k) && settled(k, before, r))
                break;
            if (n > 4 * len)
            {
                vf::mismatch("does not come to an end on " + show(texts[t].cps));
                break;
            }
        }
        return "{\"cur\":[" + cur + "],\"res\":[" + res + "],\"avail\":[" + av + "]}";
    }
    static string lastAnswer(K const& k)
    {
        auto c = k;
        return c.step();
    }
    static bool settled(K const& k, string const& shown, string const& r)
    {
        auto c = k;
        for (int i = 0; i < 3; ++i)
            if (c.step() != r || c.cur() != shown)
                return false;
        if constexpr (is_same_v<K, Utf8>)
            return !k.avail(); // clusters of malformed bytes look the same
        return K::how == string("none") ? r == "no" : true;
    }

    void record(vf::Rng& r, FILE* f, char const* kind, size_t slots, size_t steps)
    {
        string out = string("{\"kind\":\"") + kind + "\",\"how\":\"" + K::how + "\",\"slots\":" + to_string(slots) + ",\"texts\":[";
        // the objects exist before the reference runs, and after them
        objs.clear();
        for (size_t i = 0; i < slots; ++i)
            objs.push_back(fresh(0, false));
        for (size_t t = 0; t < texts.size(); ++t)
            out += (t ? "," : "") + reference(t);
        out += "],\"ops\":[";
        for (size_t n = 0; n < steps; ++n)
        {
            auto const d = r.below((uint32_t) slots);
            auto s = r.below((uint32_t) slots);
            auto const t = r.below((uint32_t) texts.size());
            string op = "step", res;
            auto const x = r.below(100);
            if (x < 14)
            {
                op = "new";
                objs[d] = fresh(t, r.chance(50));
            }
            else if (x < 24)
            {
                op = "copy"; // a copy is constructed
                K k(objs[s]);
                objs[d].~K();
                new (&objs[d]) K(k);
            }
            else if (x < 32)
            {
                op = "assign";
                auto const& from = objs[s];
                objs[d] = from;
            }
            else if (x < 38)
            {
                op = "move";
                K k(objs[s]);
                objs[d] = std::move(k);
            }
            else if (x < 42 && s != d)
            {
                op = "swap";
                std::swap(objs[s], objs[d]);
            }
            else if constexpr (is_same_v<K, Utf8>)
            {
                if (x < 48)
                {
                    op = "end";
                    objs[d].makeEnd(t ? &texts[t] : nullptr);
                }
                else if (x < 64 && s != d)
                {
                    op = "post";
                    auto old = (*objs[d].it)++;
                    objs[s].g = objs[d].g;
                    objs[s].it.emplace(std::move(old));
                }
                else
                    res = objs[d].step();
            }
            else
                res = objs[d].step();
            string cur, eq;
            for (size_t i = 0; i < slots; ++i)
            {
                cur += (i ? "," : "") + q(objs[i].cur());
                if constexpr (requires { objs[i].equal(objs[i]); })
                {
                    eq += (i ? ",[" : "[");
                    for (size_t j = 0; j < slots; ++j)
                        eq += (j ? "," : "") + to_string(objs[i].equal(objs[j]) ? 1 : 0);
                    eq += "]";
                }
            }
            out += (n ? ",{" : "{");
            out += "\"op\":\"" + op + "\",\"d\":" + to_string(d + 1) + ",\"s\":" + to_string(s + 1) + ",\"t\":" + to_string(t + 1) + ",\"res\":" + q(res)
                   + ",\"cur\":[" + cur + "],\"eq\":[" + eq + "]}";
        }
        fprintf(f, "%s]}\n", out.c_str());
        ++vf::cases;
    }
};

static vf::SegTab gt;
static Text randomText(vf::Rng& r)
{
    static u32string const& hot = *new u32string(U"Aa1 \r\n.,'\"_\u0301\u00E9\u200D\uFE0F\uFE0E\U0001F468\U0001F469\U0001F3FB\U0001F1E9\U0001F1EA#\u20E3\u0915\u094D\u0937"
                                 U"\u1100\u1161\u11A8\uAC00\u05D0\u05D1\u3042\u30AB\u4E00\u0391\u0416\u2764\u00A9\u0600\u00AD\u0085\u0130\u03A3\u00DF\u1E9B\u0323\u01C6\uFB01\u2126\u0345\u0390");
    Text t;
    auto const n = r.chance(10) ? 0 : 1 + r.below(9);
    for (uint32_t i = 0; i < n; ++i)
        t.cps += r.chance(75) ? hot[r.below((uint32_t) hot.size())] : (char32_t) gt.cm.random(r, (int) r.below((uint32_t) gt.cm.n));
    for (auto c: t.cps)
        if (!(c >= 0xD800 && c <= 0xDFFF) && c <= 0x10FFFF)
            vf::putUtf8(t.bytes, c);
    if (r.chance(25) && !t.bytes.empty())
        t.bytes.erase(r.below((uint32_t) t.bytes.size()), 1);
    if (r.chance(30)) // sequences which break off, also before the first byte of the next one
        for (auto k = 1 + r.below(3); k > 0; --k)
        {
            auto at = r.below((uint32_t) t.bytes.size() + 1);
            while (r.chance(80) && at < t.bytes.size() && (uint8_t) t.bytes[at] < 0xC0)
                ++at;
            t.bytes.insert(at, 1, "\xC3\xE2\xF0\xE0\x80\xBF"[r.below(6)]);
        }
    for (auto k = r.below(4); k > 0; --k)
        t.pieces.push_back(1 + r.below(7));
    t.columns = r.below(9);
    return t;
}

template <typename K>
static void histories(vf::Rng& r, FILE* f, char const* kind, int n)
{
    for (int i = 0; i < n; ++i)
    {
        Sim<K> sim;
        sim.texts.emplace_back();
        auto const m = 1 + r.below(3);
        sim.texts.reserve(m + 2);
        for (uint32_t k = 0; k < m; ++k)
            sim.texts.push_back(randomText(r));
        if (r.chance(30)) // the same contents in another place
            sim.texts.push_back(sim.texts.back());
        sim.record(r, f, kind, 2 + r.below(3), 12 + r.below(24));
    }
}

static FILE* open_(string const& name)
{
    auto* f = fopen(name.c_str(), "w");
    if (!f)
        vf::usage("cannot write " + name);
    return f;
}
static void all(vf::Rng& r, FILE* f, int n)
{
    histories<Range<grapheme_segmenter>>(r, f, "grapheme", n);
    histories<Range<word_segmenter>>(r, f, "word", n);
    histories<Utf8>(r, f, "utf8", 3 * n);
    histories<EmojiK>(r, f, "emoji", n);
    histories<ScriptK>(r, f, "script", n);
    histories<RunK>(r, f, "run", n);
    histories<Fed<GState>>(r, f, "gstate", n);
    histories<Fed<WState>>(r, f, "wstate", n);
    histories<Fed<Width>>(r, f, "width", n);
    histories<Fed<Decode>>(r, f, "decode", n);
    histories<Fed<Scan>>(r, f, "scan", n);
    histories<Fed<Norm<NFC>>>(r, f, "nfc", n);
    histories<Fed<Norm<NFKD>>>(r, f, "nfkd", n);
    histories<Fed<Norm8<NFC>>>(r, f, "nfc8", n);
    histories<Fed<Norm8<NFD>>>(r, f, "nfd8", n);
    histories<Fed<Api>>(r, f, "api", n);
}

int main(int argc, char** argv)
{
    if (argc < 6)
        vf::usage("record|threads segtab seed n out [threads]");
    gt.load(argv[2]);
    auto const seed = (uint64_t) atoll(argv[3]);
    auto const n = atoi(argv[4]);
    if (argv[1] == string("record"))
    {
        vf::Rng r(seed);
        auto* f = open_(argv[5]);
        all(r, f, n);
        fclose(f);
    }
    else
    {
        // Every thread records histories of its own; they start together, so that nothing has been used before.
        auto const k = argc > 6 ? atoi(argv[6]) : 4;
        atomic<int> waiting { k };
        vector<thread> ts;
        for (int i = 0; i < k; ++i)
            ts.emplace_back([&, i] {
                vf::Rng r(seed + 1000 * (uint64_t) i);
                auto* f = open_(string(argv[5]) + "." + to_string(i));
                --waiting;
                while (waiting > 0)
                    this_thread::yield();
                if (i % 2) // not all in the same order
                    histories<Fed<Api>>(r, f, "api", n);
                all(r, f, n);
                fclose(f);
            });
        for (auto& t: ts)
            t.join();
    }
    return vf::finish();
}
