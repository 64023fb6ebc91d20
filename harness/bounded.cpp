// Conformance harness for fs_array and out (spec/Bounded*.tla).
#include "util.h"

#include <libunicode/support.h>
#include <libunicode/ucd_enums.h>

#include <fstream>
#include <functional>
#include <iostream>
#include <string>
#include <utility>
#include <vector>

using namespace std;

/// Values 1..9 as elements of a type, and back.
template <typename T>
struct Value
{
    static T of(int v) { return static_cast<T>(v); }
    static int back(T const& t) { return static_cast<int>(t); }
};
template <>
struct Value<string>
{
    static string of(int v) { return v == 9 ? string() : string(v % 2 ? 3 : 70, (char) ('0' + v)); }
    static int back(string const& s) { return s.empty() ? 9 : s[0] - '0'; }
};

struct Op
{
    char const* op;
    int d, s, v, i;
};

template <typename T, size_t N>
struct Arrays
{
    using A = unicode::fs_array<T, N>;
    vector<A> objs;
    int way = 0;

    void show(ostream& out, A& a)
    {
        A const& c = a;
        out << "{\"size\":" << c.size() << ",\"empty\":" << (c.empty() ? "true" : "false") << ",\"capacity\":" << c.capacity() << ",\"items\":[";
        char const* sep = "";
        auto const put = [&](T const& t) {
            out << sep << Value<T>::back(t);
            sep = ",";
        };
        switch (way++ % 6)
        {
            case 0: for (size_t i = 0; i < c.size(); ++i) put(c[i]); break;
            case 1: for (size_t i = 0; i < c.size(); ++i) put(c.at(i)); break;
            case 2: for (auto& t: a) put(t); break;
            case 3: for (auto const& t: c) put(t); break;
            case 4: for (size_t i = 0; i < c.size(); ++i) put(c.data()[i]); break;
            default: for (auto i = a.begin(); i != a.end(); ++i) put(*i); break;
        }
        out << "],\"ends\":[";
        if (!c.empty())
        {
            if (way % 3 == 0)
                out << Value<T>::back(a.front()) << "," << Value<T>::back(a.back());
            else if (way % 3 == 1)
                out << Value<T>::back(c.front()) << "," << Value<T>::back(c.back());
            else
                out << Value<T>::back(*c.begin()) << "," << Value<T>::back(*prev(c.end()));
        }
        out << "]}";
    }
    bool apply(Op const& e)
    {
        auto& a = objs[(size_t) e.d - 1];
        string const op = e.op;
        if (op == "push")
            return a.push_back(Value<T>::of(e.v));
        if (op == "clear")
            a.clear();
        else if (op == "resize")
            a.resize((size_t) e.v);
        else if (op == "put")
        {
            if ((size_t) e.i <= a.size())
            {
                auto const i = (size_t) e.i - 1;
                if (i == 0 && way % 3 == 0)
                    a.front() = Value<T>::of(e.v);
                else if (i + 1 == a.size() && way % 3 == 1)
                    a.back() = Value<T>::of(e.v);
                else if (way % 2)
                    *next(a.begin(), (long) i) = Value<T>::of(e.v);
                else
                    a.data()[i] = Value<T>::of(e.v);
            }
        }
        else if (op == "copy")
        {
            if (way % 2)
                a = objs[(size_t) e.s - 1];
            else
            {
                A b = objs[(size_t) e.s - 1];
                a = std::move(b);
            }
        }
        else if (op == "swap")
            swap(a, objs[(size_t) e.s - 1]);
        return true;
    }
    void record(ostream& out, vector<Op> const& ops, size_t n)
    {
        ++vf::cases;
        objs.assign(n, A {});
        out << "{\"k\":\"array\",\"n\":" << N << ",\"objs\":" << n << ",\"ev\":[";
        for (size_t i = 0; i < ops.size(); ++i)
        {
            auto const& e = ops[i];
            auto const ans = apply(e);
            out << (i ? "," : "") << "{\"op\":\"" << e.op << "\",\"d\":" << e.d << ",\"s\":" << e.s << ",\"v\":" << e.v << ",\"i\":" << e.i
                << ",\"ans\":" << (ans ? "true" : "false") << ",\"shows\":[";
            for (size_t o = 0; o < n; ++o)
            {
                out << (o ? "," : "");
                show(out, objs[o]);
            }
            out << "]}";
        }
        out << "]}\n";
        objs.clear();
    }
    /// All histories of one array of this length, each continued to `len` operations.
    void all(ostream& out, int len)
    {
        vector<Op> alphabet { { "push", 1, 1, 1, 0 }, { "push", 1, 1, 2, 0 }, { "clear", 1, 1, 0, 0 }, { "put", 1, 1, 3, (int) (N < 2 ? 1 : 2) } };
        for (int k = 0; k <= (int) N + 1; ++k)
            alphabet.push_back({ "resize", 1, 1, k, 0 });
        vector<size_t> at((size_t) len, 0);
        while (true)
        {
            vector<Op> ops;
            for (auto a: at)
                ops.push_back(alphabet[a]);
            record(out, ops, 1);
            size_t i = 0;
            while (i < at.size() && ++at[i] == alphabet.size())
                at[i++] = 0;
            if (i == at.size())
                break;
        }
    }
    void random(ostream& out, vf::Rng& r, int n)
    {
        for (int i = 0; i < n; ++i)
        {
            auto const objects = 1 + r.below(3);
            vector<Op> ops;
            auto const full = r.chance(50);
            for (auto len = 1 + r.below(i % 8 ? 14 : 40 + 2 * N); len > 0; --len)
            {
                auto const d = 1 + (int) r.below(objects), s = 1 + (int) r.below(objects);
                auto const v = 1 + (int) r.below(9);
                if (r.chance(full ? 75 : 40))
                    ops.push_back({ "push", d, s, v, 0 });
                else
                    switch (r.below(6))
                    {
                        case 0: ops.push_back({ "clear", d, s, 0, 0 }); break;
                        case 1: ops.push_back({ "resize", d, s, (int) r.below(N + 3), 0 }); break;
                        case 2: ops.push_back({ "put", d, s, v, 1 + (int) r.below(N) }); break;
                        case 3: ops.push_back({ "resize", d, s, (int) (r.chance(50) ? N : N - r.below(2)), 0 }); break;
                        case 4: ops.push_back({ "copy", d, s, 0, 0 }); break;
                        default: ops.push_back({ "swap", d, s, 0, 0 }); break;
                    }
            }
            record(out, ops, objects);
        }
    }
};

template <typename T>
static void refs(ostream& out, vf::Rng& r, int n)
{
    for (int i = 0; i < n; ++i)
    {
        ++vf::cases;
        array<T, 3> vars { Value<T>::of(1), Value<T>::of(2), Value<T>::of(3) };
        using R = unicode::out<T>;
        vector<R> rs { R(vars[0]), R(vars[1]) };
        out << "{\"k\":\"out\",\"refs\":[1,2],\"vars\":[1,2,3],\"ev\":[";
        for (int j = 0, len = 1 + (int) r.below(12); j < len; ++j)
        {
            auto const d = r.below(2), s = r.below(3);
            auto const v = 1 + (int) r.below(9);
            char const* op = "";
            int from = 0;
            switch (r.below(4))
            {
                case 0:
                    op = "bind";
                    from = (int) s + 1;
                    rs[d] = r.chance(50) ? R(vars[s]) : R(std::ref(vars[s]));
                    break;
                case 1:
                    op = "again";
                    from = (int) (s % 2) + 1;
                    if (r.chance(50))
                        rs[d] = rs[s % 2];
                    else
                        rs[d] = R(rs[s % 2]);
                    break;
                default:
                    op = "assign";
                    switch (r.below(3))
                    {
                        case 0: rs[d].assign(Value<T>::of(v)); break;
                        case 1: *rs[d] = Value<T>::of(v); break;
                        default: rs[d].get() = Value<T>::of(v); break;
                    }
                    break;
            }
            out << (j ? "," : "") << "{\"op\":\"" << op << "\",\"d\":" << d + 1 << ",\"s\":" << from << ",\"v\":" << v << ",\"vars\":[";
            for (size_t k = 0; k < vars.size(); ++k)
                out << (k ? "," : "") << Value<T>::back(vars[k]);
            out << "],\"reads\":[";
            for (size_t k = 0; k < rs.size(); ++k)
            {
                auto const& c = rs[k];
                out << (k ? "," : "") << (r.chance(50) ? Value<T>::back(*c) : r.chance(50) ? Value<T>::back(c.get()) : Value<T>::back(*c.operator->()));
            }
            out << "]}";
        }
        out << "]}\n";
    }
}

template <typename T>
static void type(ostream& out, vf::Rng& r, int n)
{
    Arrays<T, 1>().random(out, r, n);
    Arrays<T, 2>().random(out, r, n);
    Arrays<T, 3>().random(out, r, n);
    Arrays<T, 32>().random(out, r, n);
    Arrays<T, 300>().random(out, r, n / 20);
    refs<T>(out, r, n);
}

int main(int argc, char** argv)
{
    if (argc != 5 || string(argv[1]) != "record") // seed n out
        vf::usage("record seed n out");
    vf::Rng r((uint64_t) atoll(argv[2]));
    auto const n = atoi(argv[3]);
    ofstream out(argv[4]);
    Arrays<int, 1>().all(out, 4);
    Arrays<int, 2>().all(out, 4);
    Arrays<int, 3>().all(out, 4);
    Arrays<string, 2>().all(out, 3);
    type<int>(out, r, n);
    type<unicode::Script>(out, r, n);
    type<char32_t>(out, r, n);
    type<string>(out, r, n);
    return vf::finish();
}
