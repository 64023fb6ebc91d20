// A segmentation machine written by spec/GraphemeGen.tla or spec/WordGen.tla, as an oracle for other harnesses.
#pragma once
#include "seg.h"
namespace vf
{
struct SegTab
{
    ClassMap cm;
    std::vector<int> begin_, look_;
    std::vector<std::vector<int>> paths;
    struct Tr { int next; int brk[4]; };
    std::vector<std::vector<Tr>> trans;
    bool words = false;

    void load(char const* file)
    {
        Ints in(file);
        words = in.get() == 1;
        cm.load(in);
        begin_.resize(cm.n);
        for (auto& x: begin_)
            x = (int) in.get();
        if (words)
        {
            look_.resize(cm.n);
            for (auto& x: look_)
                x = (int) in.get();
        }
        auto const states = in.get();
        paths.resize(states);
        for (auto& p: paths)
        {
            p.resize(in.get());
            for (auto& x: p)
                x = (int) in.get();
        }
        trans.assign(states, std::vector<Tr>(cm.n));
        for (auto& s: trans)
            for (auto& t: s)
            {
                if (words)
                {
                    t.next = (int) in.get();
                    for (auto& b: t.brk)
                        b = (int) in.get();
                }
                else
                {
                    auto const b = (int) in.get();
                    for (auto& k: t.brk)
                        k = b;
                    t.next = (int) in.get();
                }
            }
    }

    /// Boundaries the machine puts in front of elements 1..n-1.
    std::vector<char> breaks(std::u32string_view t) const
    {
        std::vector<char> out;
        if (t.empty())
            return out;
        std::vector<int> la(t.size() + 1, 0);
        if (words)
            for (size_t i = t.size(); i-- > 0;)
            {
                auto const k = look_[cm.of(t[i])];
                la[i] = k < 0 ? la[i + 1] : k;
            }
        int st = begin_[cm.of(t[0])];
        for (size_t i = 1; i < t.size(); ++i)
        {
            auto const& tr = trans[st][cm.of(t[i])];
            out.push_back((char) tr.brk[words ? la[i + 1] : 0]);
            st = tr.next;
        }
        return out;
    }

    std::vector<int> lengths(std::u32string_view t) const
    {
        std::vector<int> v;
        if (t.empty())
            return v;
        int k = 1;
        for (auto b: breaks(t))
            if (b)
            {
                v.push_back(k);
                k = 1;
            }
            else
                ++k;
        v.push_back(k);
        return v;
    }
};
} // namespace vf
