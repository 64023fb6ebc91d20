// Shared helpers of the conformance harnesses.
#pragma once
#include <sys/mman.h>
#include <unistd.h>
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>

// Vector width: the library asks max_simd_size(); the build wraps that symbol so that a check can choose a width.
// (Not more than what the processor has.)
#ifdef VERIF_DETECTOR
extern "C" size_t __real__ZN7unicode6detail13max_simd_sizeEv();
#endif
inline size_t processorWidth()
{
    return __builtin_cpu_supports("avx512f") && __builtin_cpu_supports("avx512bw") ? 512 : __builtin_cpu_supports("avx2") ? 256 : 128;
}
extern "C" size_t __wrap__ZN7unicode6detail13max_simd_sizeEv()
{
    auto const have = processorWidth();
    if (auto const* w = getenv("VERIF_SIMD"))
    {
        auto const want = static_cast<size_t>(atoi(w));
        return want < have ? want : have;
    }
    return have;
}

namespace vf
{
inline std::atomic<uint64_t> cases = 0;
inline std::atomic<int> mismatches = 0;

[[noreturn]] inline void usage(std::string const& m)
{
    printf("HARNESS-ERROR %s\n", m.c_str());
    exit(77);
}

inline int finish()
{
    printf("DONE %llu\n", (unsigned long long) cases.load());
    fflush(stdout);
    return mismatches ? 1 : 0;
}

inline void mismatch(std::string const& m)
{
    if (m.size() > 20000)
        printf("MISMATCH %s ... %s\n", m.substr(0, 10000).c_str(), m.substr(m.size() - 10000).c_str());
    else
        printf("MISMATCH %s\n", m.c_str());
    fflush(stdout);
    if (++mismatches >= 10)
    {
        finish();
        exit(1);
    }
}

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed): s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next()
    {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        return s * 0x2545F4914F6CDD1Dull;
    }
    uint32_t below(uint32_t n) { return n ? static_cast<uint32_t>((next() >> 20) % n) : 0; }
    bool chance(uint32_t percent) { return below(100) < percent; }
    template <typename T>
    T const& pick(std::vector<T> const& v)
    {
        return v[below((uint32_t) v.size())];
    }
};

/// Memory whose end (or begin) touches an inaccessible page.
class Guard
{
    char* base_;
    size_t page_ = 4096;
    size_t pages_;

  public:
    explicit Guard(size_t bytes = 16384): pages_((bytes + 4095) / 4096)
    {
        base_ = (char*) mmap(nullptr, (pages_ + 2) * page_, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (base_ == MAP_FAILED)
            usage("mmap");
        mprotect(base_, page_, PROT_NONE);
        mprotect(base_ + (pages_ + 1) * page_, page_, PROT_NONE);
    }
    Guard(Guard const&) = delete;
    ~Guard() { munmap(base_, (pages_ + 2) * page_); }
    size_t capacity() const { return pages_ * page_; }
    char* begin() { return base_ + page_; }
    char* end() { return base_ + (pages_ + 1) * page_; }
    /// Copy placed so that it ends right before the inaccessible page.
    template <typename T>
    T* atEnd(T const* data, size_t n)
    {
        if (n * sizeof(T) > capacity())
            usage("guard capacity");
        auto* p = (T*) (end() - n * sizeof(T));
        if (n)
            memcpy((void*) p, data, n * sizeof(T));
        return p;
    }
    /// Copy placed so that it begins right behind the inaccessible page.
    template <typename T>
    T* atBegin(T const* data, size_t n)
    {
        if (n * sizeof(T) > capacity())
            usage("guard capacity");
        auto* p = (T*) begin();
        if (n)
            memcpy((void*) p, data, n * sizeof(T));
        return p;
    }
};

template <typename S>
std::string show(S const& s)
{
    std::string o = "[";
    for (auto c: s)
    {
        char b[32];
        using T = std::decay_t<decltype(c)>;
        unsigned long v;
        if constexpr (sizeof(T) == 1)
            v = (uint8_t) c;
        else if constexpr (sizeof(T) == 2)
            v = (uint16_t) c;
        else
            v = (uint32_t) c;
        snprintf(b, sizeof b, "%s%lu", o.size() > 1 ? "," : "", v);
        o += b;
    }
    return o + "]";
}

inline std::vector<long long> readInts(char const* file)
{
    std::ifstream f(file);
    if (!f)
        usage(std::string("cannot read ") + file);
    std::vector<long long> v;
    long long x;
    while (f >> x)
        v.push_back(x);
    return v;
}

struct Ints
{
    std::vector<long long> v;
    size_t i = 0;
    explicit Ints(char const* file): v(readInts(file)) {}
    long long get()
    {
        if (i >= v.size())
            usage("table too short");
        return v[i++];
    }
    bool more() const { return i < v.size(); }
};

inline void putUtf8(std::string& s, uint32_t c) // only used to build inputs
{
    if (c < 0x80)
        s += (char) c;
    else if (c < 0x800)
    {
        s += (char) (0xC0 | (c >> 6));
        s += (char) (0x80 | (c & 63));
    }
    else if (c < 0x10000)
    {
        s += (char) (0xE0 | (c >> 12));
        s += (char) (0x80 | ((c >> 6) & 63));
        s += (char) (0x80 | (c & 63));
    }
    else
    {
        s += (char) (0xF0 | (c >> 18));
        s += (char) (0x80 | ((c >> 12) & 63));
        s += (char) (0x80 | ((c >> 6) & 63));
        s += (char) (0x80 | (c & 63));
    }
}

/// A code point that is likely to sit on some boundary.
inline uint32_t randomScalar(Rng& r)
{
    static const std::vector<uint32_t> edges = { 0,      1,      0x1F,   0x20,    0x7E,    0x7F,    0x80,    0x9F,    0xA0,
                                                 0x7FF,  0x800,  0xFFF,  0x1000,  0xD7FF,  0xE000,  0xFFFD,  0xFFFE,  0xFFFF,
                                                 0x10000, 0x1FFFF, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF };
    for (;;)
    {
        uint32_t c;
        switch (r.below(6))
        {
            case 0: c = r.pick(edges); break;
            case 1: c = 0x20 + r.below(95); break;
            case 2: c = r.below(0x800); break;
            case 3: c = r.below(0x10000); break;
            default: c = r.below(0x110000); break;
        }
        if (c < 0xD800 || c > 0xDFFF)
            return c;
    }
}

/// One part of a text again and again: sometimes some hundred times, rarely more often than 16 bits can count.
template <typename S>
bool stretch(Rng& r, S& s, uint64_t i, size_t most = 70000)
{
    size_t const k = s.empty() ? 0 : i % 4001 == 17 ? most : i % 41 == 9 ? 8 + r.below(600) : 0;
    if (!k)
        return false;
    auto const at = r.below((uint32_t) s.size());
    auto const unit = s.substr(at, 1 + r.below(3));
    S t;
    while (t.size() < k)
        t += unit;
    s.insert(at, t);
    return true;
}
} // namespace vf
