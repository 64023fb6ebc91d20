// Script lists written by spec/ScriptGen.tla and the run machine of spec/Script.tla.
#pragma once
#include "util.h"

#include <libunicode/ucd.h>
#include <libunicode/ucd_ostream.h>

#include <algorithm>
#include <map>

namespace vf
{
struct ScriptTab
{
    std::vector<std::string> names;
    std::vector<std::vector<int>> lists;
    struct Row { uint32_t lo, hi; int cls; };
    std::vector<Row> rows;
    std::vector<uint32_t> constrained, free, extended;
    std::vector<std::vector<uint32_t>> members;
    int common = 0, inherited = 0, unknown = 0;

    void load(char const* file)
    {
        std::ifstream in(file);
        size_t n = 0;
        in >> n;
        names.resize(n);
        for (auto& x: names)
            in >> x;
        common = index("Common");
        inherited = index("Inherited");
        unknown = index("Unknown");
        in >> n;
        lists.resize(n);
        for (auto& l: lists)
        {
            in >> n;
            l.resize(n);
            for (auto& x: l)
                in >> x;
        }
        in >> n;
        rows.resize(n);
        members.resize(lists.size());
        for (auto& r: rows)
        {
            in >> r.lo >> r.hi >> r.cls;
            auto& m = members[(size_t) r.cls];
            for (auto c = r.lo; c <= r.hi && c < r.lo + 50; ++c)
                m.push_back(c);
            m.push_back(r.hi);
        }
        if (!in)
            usage("script table");
    }
    int index(std::string const& s) const { return (int) (std::find(names.begin(), names.end(), s) - names.begin()); }
    std::vector<int> listOf(uint32_t c) const
    {
        if (c > 0x10FFFF)
            return { unknown };
        return lists[(size_t) std::prev(std::upper_bound(rows.begin(), rows.end(), c, [](uint32_t x, Row const& r) { return x < r.lo; }))->cls];
    }
    bool constrains(std::vector<int> const& l) const { return l[0] != common && l[0] != inherited; }
    std::vector<int> merge(std::vector<int> const& cur, std::vector<int> const& l) const
    {
        if (!constrains(l))
            return cur;
        if (!constrains(cur))
            return l;
        auto const in = [](std::vector<int> const& v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); };
        std::vector<int> rest, out;
        for (size_t i = 1; i < cur.size(); ++i)
            if (in(l, cur[i]))
                rest.push_back(cur[i]);
        if (in(l, cur[0]))
            out.push_back(cur[0]);
        else if (in(rest, l[0]))
        {
            out.push_back(l[0]);
            rest.erase(std::find(rest.begin(), rest.end(), l[0]));
        }
        out.insert(out.end(), rest.begin(), rest.end());
        return out;
    }
    struct Run { size_t end; std::string script; bool operator==(Run const&) const = default; };
    std::vector<Run> runs(std::u32string_view t) const
    {
        std::vector<Run> out;
        std::vector<int> cur { common };
        for (size_t i = 0; i < t.size(); ++i)
        {
            auto const l = listOf(t[i]);
            auto m = merge(cur, l);
            if (m.empty())
            {
                out.push_back({ i, names[(size_t) cur[0]] });
                m = l;
            }
            cur = m;
        }
        if (!t.empty())
            out.push_back({ t.size(), names[(size_t) cur[0]] });
        return out;
    }
    static std::string name(unicode::Script s)
    {
        std::ostringstream os;
        os << s;
        return os.str();
    }
    char32_t any(Rng& r) const { return (char32_t) r.pick(members[r.below((uint32_t) members.size())]); }
    /// Characters around one list: of the same list, of its scripts, of scripts next to it, and shared ones.
    char32_t near(Rng& r, size_t cls) const
    {
        if (r.chance(25))
            return (char32_t) r.pick(members[cls]);
        if (r.chance(20))
            return U" .0\u0301"[r.below(4)];
        for (int i = 0; i < 40; ++i)
        {
            auto const k = r.below((uint32_t) lists.size());
            for (auto s: lists[k])
                if (std::find(lists[cls].begin(), lists[cls].end(), s) != lists[cls].end())
                    return (char32_t) r.pick(members[k]);
        }
        return any(r);
    }
    std::u32string text(Rng& r, uint32_t n) const
    {
        std::u32string s;
        auto cls = r.below((uint32_t) lists.size());
        // most texts begin with characters of many scripts
        if (r.chance(60))
            for (int i = 0; i < 200 && lists[cls].size() < 2; ++i)
                cls = r.below((uint32_t) lists.size());
        auto const size = r.below(n + 1);
        auto const keep = r.chance(20) ? 100 : 85, change = keep == 100 ? 1 : 10;
        while (s.size() < size)
        {
            s += r.chance(keep) ? near(r, cls) : any(r);
            if (r.chance(change))
                cls = r.below((uint32_t) lists.size());
        }
        return s;
    }
};
} // namespace vf
