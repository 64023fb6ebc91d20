// Conformance harness for the script segmenter: the machine of spec/Script.tla and records for spec/ScriptTrace.tla.
#include "scripttab.h"

#include <libunicode/script_segmenter.h>

using namespace unicode;
using namespace std;
using vf::mismatch;
using vf::show;
using Run = vf::ScriptTab::Run;

static vf::ScriptTab tab;

static string text(vector<Run> const& v)
{
    string s;
    for (auto const& r: v)
        s += to_string(r.end) + r.script + " ";
    return s;
}

static vector<Run> segmented(u32string_view s, vf::Rng* rng)
{
    auto seg = script_segmenter(s.data(), s.size());
    if (rng && rng->chance(30))
        seg = script_segmenter(s);
    else if (rng && rng->chance(30))
    {
        static u32string copy; // zero terminated
        copy = s.substr(0, s.find(U'\0'));
        if (copy.size() == s.size())
        {
            seg = script_segmenter(copy.c_str());
            s = copy;
        }
    }
    vector<Run> v;
    while (v.size() <= s.size())
    {
        if (rng && rng->chance(20)) // a copy goes on by itself
        {
            auto copy = seg;
            (void) copy.consume();
        }
        if (rng && rng->chance(50))
        {
            size_t n = 777;
            Script script {};
            if (!seg.consume(out(n), out(script)))
                break;
            v.push_back({ n, vf::ScriptTab::name(script) });
        }
        else if (auto const r = seg.consume(); r.has_value())
            v.push_back({ r->size, vf::ScriptTab::name(r->script) });
        else
            break;
    }
    for (int i = 0; i < 2; ++i)
        if (seg.consume().has_value())
            mismatch("goes on behind the end of " + show(s));
    return v;
}

static void check(u32string_view s, vf::Rng* rng = nullptr)
{
    ++vf::cases;
    auto const want = tab.runs(s), got = segmented(s, rng);
    if (got != want)
        mismatch("runs of " + show(s) + " are " + text(got) + " expected " + text(want));
}

int main(int argc, char** argv)
{
    if (argc < 3)
        vf::usage("mode table ...");
    string const mode = argv[1];
    tab.load(argv[2]);
    auto const arg = [&](int i) { return i < argc ? argv[i] : (vf::usage("arguments"), argv[0]); };
    if (mode == "points") // every code point alone and behind others; every pair of lists with something in between
    {
        for (uint32_t c = 0; c <= 0x110010; ++c)
        {
            check(u32string { (char32_t) c });
            check(u32string { 'A', (char32_t) c, ' ', 'B' });
            check(u32string { 0x964, (char32_t) c, 0x915 });
        }
        for (auto const& a: tab.members)
            for (auto const& b: tab.members)
            {
                auto const x = (char32_t) a[a.size() / 2], y = (char32_t) b[b.size() / 2];
                check(u32string { x, y });
                check(u32string { ' ', x, '1', y, 0x301, x, y });
                check(u32string { 0x951, x, y, 0x30FC, y });
            }
        script_segmenter none;
        if (none.consume().has_value() || script_segmenter(static_cast<char32_t const*>(nullptr)).consume().has_value())
            mismatch("nothing has runs");
    }
    else if (mode == "random") // seed n
    {
        vf::Rng r((uint64_t) atoll(arg(3)));
        vf::Guard guard;
        for (int i = 0, n = atoi(arg(4)); i < n; ++i)
        {
            auto s = tab.text(r, i % 64 ? 12 : 300);
            if (vf::stretch(r, s, (uint64_t) i))
                check(s, &r);
            else
                check(u32string_view(guard.atEnd(s.data(), s.size()), s.size()), &r);
        }
    }
    else if (mode == "record") // seed n out
    {
        vf::Rng r((uint64_t) atoll(arg(3)));
        ofstream out(arg(5));
        for (int i = 0, n = atoi(arg(4)); i < n; ++i)
        {
            ++vf::cases;
            auto const s = tab.text(r, 10);
            out << "{\"cps\":" << show(s) << ",\"runs\":[";
            auto const v = segmented(s, &r);
            for (size_t k = 0; k < v.size(); ++k)
                out << (k ? "," : "") << "[" << v[k].end << ",\"" << v[k].script << "\"]";
            out << "]}\n";
        }
    }
    else
        vf::usage("mode");
    return vf::finish();
}
