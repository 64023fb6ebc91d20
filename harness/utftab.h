// The streaming decoder's table (first part of the file written by spec/UtfGen.tla).
#pragma once
#include "util.h"
#include <array>
namespace vf
{
struct StreamTab
{
    struct Cell { int next, kind; long long mul, add; };
    std::vector<std::array<Cell, 256>> stream, conv;
    void load(char const* file)
    {
        Ints in(file);
        for (auto* t: { &stream, &conv })
        {
            t->resize((size_t) in.get());
            for (auto& r: *t)
                for (auto& c: r)
                {
                    c.next = (int) in.get();
                    c.kind = (int) in.get();
                    c.mul = in.get();
                    c.add = in.get();
                }
        }
    }
    /// kind 0: incomplete, 1: value, 2: invalid. Text of the streaming decoder, malformed pieces as U+FFFD.
    std::u32string text(std::string_view s) const
    {
        std::u32string out;
        int st = 0;
        long long acc = 0;
        for (unsigned char b: s)
        {
            auto const& c = stream[st][b];
            auto const v = c.mul * acc + c.add;
            if (c.kind == 1)
                out += (char32_t) v;
            else if (c.kind == 2)
                out += U'\uFFFD';
            st = c.next;
            acc = st ? v : 0;
            if (c.kind == 2 && st)
                acc = c.add;
        }
        if (st)
            out += U'\uFFFD';
        return out;
    }
    std::u32string converted(std::string_view s) const
    {
        std::u32string out;
        int st = 0;
        long long acc = 0;
        for (unsigned char b: s)
        {
            auto const& c = conv[st][b];
            auto const v = c.mul * acc + c.add;
            if (c.kind == 1)
                out += (char32_t) v;
            st = c.next;
            acc = st ? v : 0;
        }
        return out;
    }
};
} // namespace vf
