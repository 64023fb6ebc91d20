// Tables shared by the segmentation harnesses: class map of the code space and machines written by the specs.
#pragma once
#include "util.h"
#include <algorithm>

namespace vf
{
/// Cells (lo, hi, class) which cover the code space; anything behind it has class `outside`.
struct ClassMap
{
    std::vector<uint32_t> lo;
    std::vector<int> cls;
    std::vector<int> flat; // class of every code point
    int outside = 0;
    int n = 0;
    std::vector<std::vector<uint32_t>> reps; // code points of every class: the ends of its cells
    void load(Ints& in)
    {
        n = (int) in.get();
        outside = (int) in.get();
        reps.resize(n);
        flat.resize(0x110000);
        auto const rows = in.get();
        for (long long i = 0; i < rows; ++i)
        {
            auto const a = (uint32_t) in.get(), b = (uint32_t) in.get();
            auto const c = (int) in.get();
            lo.push_back(a);
            cls.push_back(c);
            for (auto k = a; k <= b; ++k)
                flat[k] = c;
            reps[c].push_back(a);
            if (b != a)
                reps[c].push_back(b);
            if (b > a + 1)
                reps[c].push_back(a + (b - a) / 2);
        }
        for (uint32_t big: { 0x110000u, 0x110001u, 0x1FFFFFu, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu })
            reps[outside].push_back(big);
    }
    int of(uint32_t c) const { return c <= 0x10FFFF ? flat[c] : outside; }
    uint32_t random(Rng& r, int c) const { return reps[c][r.below((uint32_t) reps[c].size())]; }
};

/// A code point sequence of random classes: some uniformly, some from a small set so that rules interact.
inline std::vector<uint32_t> randomText(Rng& r, ClassMap const& m, size_t maxLen)
{
    std::vector<uint32_t> v;
    auto const len = r.below((uint32_t) maxLen + 1);
    std::vector<int> few;
    for (int i = 0, k = 1 + (int) r.below(5); i < k; ++i)
        few.push_back((int) r.below((uint32_t) m.n));
    auto const common = r.chance(20) ? 99 : 85;
    for (size_t i = 0; i < len; ++i)
        v.push_back(m.random(r, r.chance(common) ? r.pick(few) : (int) r.below((uint32_t) m.n)));
    return v;
}

inline std::string join(std::vector<int> const& v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i)
        s += (i ? "," : "") + std::to_string(v[i]);
    return s + "]";
}
} // namespace vf
