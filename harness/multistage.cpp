// Runs the multistage table generator on many sources and records source, tables and answers.
#include "util.h"

#include <libunicode/multistage_table_generator.h>
#include <libunicode/multistage_table_view.h>

#include <map>
#include <set>
#include <unordered_set>

using namespace std;
using vf::mismatch;

struct Pod // several bytes, as the record of code point properties
{
    uint8_t a, b;
    uint16_t c;
    bool operator==(Pod const& o) const { return a == o.a && b == o.b && c == o.c; }
    bool operator!=(Pod const& o) const { return !(*this == o); }
};
struct PodHash // many collisions
{
    size_t operator()(Pod const& p) const { return p.a & 1; }
};

static void mk(int v, int& o) { o = v * 65537 - 3; }
static void mk(int v, uint8_t& o) { o = (uint8_t) v; }
static void mk(int v, Pod& o) { o = { (uint8_t) (v & 1), (uint8_t) (v >> 1 & 3), (uint16_t) (v >> 3) }; }
static void mk(int v, string& o) { o = v % 3 ? to_string(v) : v == 0 ? "" : string(40, 'x') + to_string(v); }

template <typename T> struct Hash: std::hash<T> {};
template <> struct Hash<Pod>: PodHash {};

static FILE* rec = nullptr;

template <typename T, typename S1, typename S2, uint32_t B, uint32_t Max>
static void one(vector<int> const& src, bool record)
{
    ++vf::cases;
    vector<T> in(src.size());
    for (size_t i = 0; i < src.size(); ++i)
        mk(src[i], in[i]);
    support::multistage_table<T, uint32_t, S1, S2, B, Max> tab {};
    bool threw = false;
    try
    {
        support::generate(in.data(), in.size(), tab, Hash<T> {});
    }
    catch (exception const&)
    {
        threw = true;
    }
    auto const num = [&](T const& v) -> int {
        for (size_t i = 0; i < src.size(); ++i)
            if (in[i] == v)
                return src[i];
        return -1;
    };
    vector<int> got;
    vector<pair<int, int>> beyond;
    if (!threw)
    {
        auto const view = tab.to_view();
        bool inside = tab.stage1.size() == src.size() / B;
        for (auto k: tab.stage1)
            inside &= (size_t(k) + 1) * B <= tab.stage2.size();
        for (auto k: tab.stage2)
            inside &= size_t(k) < tab.stage3.size();
        if (!inside)
            mismatch("tables point outside of themselves, block size " + to_string(B) + " source " + vf::show(src));
        if (!inside)
            return;
        for (uint32_t i = 0; i <= Max; ++i)
        {
            auto const& v = i & 1 ? tab.get(i) : view.get(i);
            if (!(v == in[i]) || !(view.unsafe_get(i) == in[i]))
            {
                mismatch("get(" + to_string(i) + ") differs from the source, block size " + to_string(B) + " source " + vf::show(src));
                break;
            }
            if (record)
                got.push_back(num(v));
        }
        for (uint32_t i: { Max + 1, Max + 2, Max + B, 2 * Max + 7, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu })
        {
            if (i <= Max)
                continue;
            if (!(view.get(i) == in[0]) || !(tab.get(i) == in[0]))
                mismatch("get(" + to_string(i) + ") beyond the maximum " + to_string(Max) + " source " + vf::show(src));
            for (uint32_t fb: { 0u, Max / 2, Max })
            {
                auto const& v = view.get(i, fb);
                if (!(v == in[fb]))
                    mismatch("get(" + to_string(i) + ", fallback " + to_string(fb) + ") source " + vf::show(src));
                if (record)
                    beyond.emplace_back((int) fb, num(v));
            }
        }
    }
    if (!record)
    {
        if (threw)
            mismatch("generation rejected, block size " + to_string(B) + " source " + vf::show(src));
        return;
    }
    vector<int> s3;
    for (auto const& v: tab.stage3)
        s3.push_back(num(v));
    string bs;
    for (auto [a, z]: beyond)
        bs += (bs.empty() ? "" : ",") + string("[") + to_string(a) + "," + to_string(z) + "]";
    vector<uint32_t> s1(tab.stage1.begin(), tab.stage1.end()), s2(tab.stage2.begin(), tab.stage2.end());
    fprintf(rec, "{\"b\":%u,\"max\":%u,\"threw\":%s,\"pod\":%s,\"cap1\":%d,\"cap2\":%d,\"src\":%s,\"s1\":%s,\"s2\":%s,\"s3\":%s,\"got\":%s,\"beyond\":[%s]}\n",
            B, Max, threw ? "true" : "false", is_same_v<T, string> ? "false" : "true", sizeof(S1) == 1 ? 256 : 65536, sizeof(S2) == 1 ? 256 : 65536,
            vf::show(src).c_str(), vf::show(s1).c_str(), vf::show(s2).c_str(), vf::show(s3).c_str(), vf::show(got).c_str(), bs.c_str());
}

template <uint32_t B, uint32_t N>
static void shape(vf::Rng& r, int values, bool all, int random, bool record)
{
    auto const run = [&](vector<int> const& src) {
        one<int, uint8_t, uint8_t, B, N * B - 1>(src, record);
        one<Pod, uint8_t, uint16_t, B, N * B - 1>(src, record);
        one<string, uint16_t, uint16_t, B, N * B - 1>(src, record);
        if constexpr (N * B > 1)
            one<uint8_t, uint16_t, uint8_t, B, N * B - 2>(src, record);
    };
    vector<int> src(B * N, 0);
    if (all)
        for (;;)
        {
            run(src);
            size_t k = 0;
            while (k < src.size() && ++src[k] == values)
                src[k++] = 0;
            if (k == src.size())
                break;
        }
    for (int i = 0; i < random; ++i)
    {
        // some blocks repeat earlier ones, wholly or but for one element
        int const v = 1 + (int) r.below(i % 2 ? 3 : 60);
        for (uint32_t k = 0; k < N; ++k)
        {
            bool const copy = k && r.chance(60);
            auto const from = copy ? r.below(k) : 0;
            for (uint32_t j = 0; j < B; ++j)
                src[k * B + j] = copy ? src[from * B + j] : (int) r.below((uint32_t) v);
            if (copy && r.chance(40))
                src[k * B + r.below(B)] = (int) r.below((uint32_t) v);
        }
        run(src);
    }
}

/// Around the capacity of the element types.
template <uint32_t B, uint32_t N>
static void large(vf::Rng& r, int distinct)
{
    vector<int> src(B * N);
    for (uint32_t k = 0; k < N; ++k)
    {
        auto const id = k < (uint32_t) distinct ? (int) k : (int) r.below((uint32_t) distinct);
        for (uint32_t j = 0; j < B; ++j)
            src[k * B + j] = B == 1 ? id : j == 0 ? id % 200 : j == 1 ? id / 200 : 0;
    }
    one<int, uint8_t, uint16_t, B, N * B - 1>(src, true);
    one<Pod, uint16_t, uint8_t, B, N * B - 1>(src, true);
    one<string, uint8_t, uint16_t, B, N * B - 1>(src, true);
    one<string, uint16_t, uint8_t, B, N * B - 1>(src, true);
}

int main(int argc, char** argv)
{
    if (argc < 4)
        vf::usage("multistage MODE seed n [OUT]");
    string const mode = argv[1];
    vf::Rng r(strtoull(argv[2], nullptr, 10));
    int const n = atoi(argv[3]);
    if (mode == "replay")
    {
        shape<1, 1>(r, 3, true, n, false);
        shape<1, 2>(r, 3, true, n, false);
        shape<1, 7>(r, 3, true, n, false);
        shape<2, 1>(r, 3, true, n, false);
        shape<2, 4>(r, 3, true, n, false);
        shape<3, 3>(r, 3, true, n, false);
        shape<4, 2>(r, 3, true, n, false);
        shape<4, 5>(r, 2, false, n, false);
        shape<5, 6>(r, 2, false, n, false);
        shape<8, 30>(r, 2, false, n, false);
        shape<16, 16>(r, 2, false, n, false);
        shape<256, 20>(r, 2, false, n / 10 + 1, false);
    }
    else if (mode == "record")
    {
        rec = fopen(argv[4], "w");
        shape<1, 4>(r, 2, true, n, true);
        shape<2, 3>(r, 2, true, n, true);
        shape<3, 2>(r, 2, true, n, true);
        shape<4, 6>(r, 2, false, n, true);
        shape<8, 9>(r, 2, false, n, true);
        shape<7, 12>(r, 2, false, n, true);
        for (int d: { 1, 100, 254, 255, 256, 257, 258, 300 })
        {
            large<1, 300>(r, d);
            large<2, 300>(r, d);
            large<3, 310>(r, d);
        }
        for (int d: { 1, 255, 256, 257 })
            large<2, 257>(r, d);
        for (int d: { 1, 255, 256 })
            large<2, 256>(r, d);
        fclose(rec);
    }
    else
        vf::usage("mode");
    return vf::finish();
}
