// The measure of grapheme clusters written by spec/WidthGen.tla.
#pragma once
#include "seg.h"
namespace vf
{
struct WidthTab
{
    ClassMap cm;
    std::vector<int> w;
    struct State { int cur; std::vector<int> path; std::vector<int> next, add; };
    std::vector<State> states;
    void load(char const* file)
    {
        Ints in(file);
        cm.load(in);
        for (int i = 0; i < cm.n; ++i)
            w.push_back((int) in.get());
        states.resize((size_t) in.get());
        for (auto& s: states)
        {
            s.cur = (int) in.get();
            s.path.resize((size_t) in.get());
            for (auto& x: s.path)
                x = (int) in.get();
            for (int i = 0; i < cm.n; ++i)
            {
                s.next.push_back((int) in.get());
                s.add.push_back((int) in.get());
            }
        }
    }
    struct Run
    {
        int st = 0;
        long tot = 0;
    };
    void push(Run& r, uint32_t c) const { step(r, cm.of(c)); }
    void step(Run& r, int k) const
    {
        r.tot += states[r.st].add[k];
        r.st = states[r.st].next[k];
    }
    long columns(Run const& r) const { return std::max(0L, r.tot + states[r.st].cur); }
    long cluster(std::u32string_view s) const
    {
        Run r;
        for (auto c: s)
            push(r, c);
        return columns(r);
    }
    long single(uint32_t c) const { return w[cm.of(c)]; }
};
} // namespace vf
