// The emoji scanner automaton written by spec/EmojiGen.tla.
#pragma once
#include "util.h"
#include <algorithm>
#include <string_view>
#include <vector>
namespace vf
{
struct EmojiTab
{
    int cats = 0, dead = 0;
    std::vector<int> accepts;
    std::vector<std::vector<int>> next;
    struct Row { uint32_t lo, hi; int cat; };
    std::vector<Row> rows;
    std::vector<std::vector<uint32_t>> members; // some of every category

    void load(char const* file)
    {
        Ints in(file);
        cats = (int) in.get();
        auto const states = in.get();
        dead = (int) in.get();
        for (long long i = 0; i < states; ++i)
        {
            accepts.push_back((int) in.get());
            next.emplace_back();
            for (int c = 0; c < cats; ++c)
                next.back().push_back((int) in.get());
        }
        members.resize((size_t) cats);
        for (auto n = in.get(); n > 0; --n)
        {
            Row r {};
            r.lo = (uint32_t) in.get();
            r.hi = (uint32_t) in.get();
            r.cat = (int) in.get();
            rows.push_back(r);
            auto& m = members[(size_t) r.cat];
            for (auto c = r.lo; c <= r.hi && c < r.lo + 300; ++c)
                m.push_back(c);
            m.push_back(r.hi);
        }
    }
    int of(uint32_t c) const
    {
        if (c > 0x10FFFF)
            return rows[0].cat;
        return std::prev(std::upper_bound(rows.begin(), rows.end(), c, [](uint32_t x, Row const& r) { return x < r.lo; }))->cat;
    }
    struct Run { size_t end; bool emoji; bool operator==(Run const&) const = default; };
    std::vector<Run> runs(std::u32string_view s) const
    {
        std::vector<Run> out;
        for (size_t at = 0; at < s.size();)
        {
            size_t end = at + 1;
            bool emoji = false;
            int q = 0;
            for (auto i = at; i < s.size(); ++i)
            {
                q = next[(size_t) q][(size_t) of(s[i])];
                if (q == dead)
                    break;
                if (accepts[(size_t) q])
                {
                    end = i + 1;
                    emoji = accepts[(size_t) q] == 2;
                }
            }
            if (!out.empty() && out.back().emoji == emoji)
                out.back().end = end;
            else
                out.push_back({ end, emoji });
            at = end;
        }
        return out;
    }
};
} // namespace vf
