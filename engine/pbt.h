// Small property-based testing engine ("choice tape" style, as in Hypothesis).
//
// A property is a function of (Tape&, Ctx&). Every random decision is a draw
// from the tape, so a failing case is a vector of integers: it replays exactly,
// and it shrinks without the generators knowing anything about shrinking.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <iterator>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>

namespace pbt {

// Thrown by check failures. Deliberately not a std::exception, so that a
// harness's own `catch (const std::exception&)` cannot swallow it.
struct Failure { std::string msg; };

struct Shared;  // crash-safe recording area, see pbt.cpp

inline uint64_t mix64(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
    auto* b = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 0x100000001b3ull; }
    return mix64(h);
}
inline uint64_t hashStr(std::string_view s, uint64_t h = 0xcbf29ce484222325ull) {
    return hashBytes(s.data(), s.size(), h);
}

class Tape {
public:
    explicit Tape(uint64_t seed, Shared* sh) : state_(mix64(seed ^ 0x51ed270b7a1fULL)), sh_(sh) {}
    Tape(std::vector<uint64_t> replay, Shared* sh) : replay_(std::move(replay)), replaying_(true), sh_(sh) {}
    // Begins with the given choices, goes on at random.
    Tape(uint64_t seed, std::vector<uint64_t> prefix, Shared* sh) : Tape(seed, sh) { replay_ = std::move(prefix); }

    // Uniform in [0, n). 0 is the simplest value.
    uint64_t below(uint64_t n, uint64_t base = 0);
    uint64_t u64();
    // Uniform in [lo, hi]; shrinks towards lo.
    int64_t range(int64_t lo, int64_t hi) {
        uint64_t span = static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo);
        uint64_t v = span == ~0ull ? u64() : below(span + 1, static_cast<uint64_t>(lo));
        return static_cast<int64_t>(static_cast<uint64_t>(lo) + v);
    }
    // True with probability num/den; shrinks to false.
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
    bool flip() { return below(2) == 1; }
    // Weighted choice; index 0 should be the simplest alternative.
    size_t weighted(std::initializer_list<unsigned> w) {
        uint64_t sum = 0; for (auto x : w) sum += x;
        uint64_t v = below(sum); size_t i = 0;
        for (auto x : w) { if (v < x) return i; v -= x; ++i; }
        return 0;
    }
    template <class C> auto& pick(C& c) { return c[below(std::size(c))]; }
    template <class C> const auto& pick(const C& c) { return c[below(std::size(c))]; }
    template <class T> T oneOf(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
    // Small-biased size in [0, max].
    size_t size(size_t max) {
        switch (weighted({6, 3, 1})) {
        case 0: return below(std::min<size_t>(max, 4) + 1);
        case 1: return below(std::min<size_t>(max, 12) + 1);
        default: return below(max + 1);
        }
    }
    const std::vector<uint64_t>& draws() const { return log_; }

private:
    uint64_t raw();
    bool mined(uint64_t base, uint64_t n, uint64_t& v);
    void record(uint64_t v);
    uint64_t state_ = 0;
    std::vector<uint64_t> replay_;
    size_t pos_ = 0;
    bool replaying_ = false;
    Shared* sh_ = nullptr;
    std::vector<uint64_t> log_;
};

class Ctx {
public:
    explicit Ctx(Shared* sh, bool thorough) : thorough(thorough), sh_(sh) {}
    const bool thorough;
    // Human-readable description of the case; survives a crash.
    void note(std::string_view s);
    void label(const std::string& l) { ++labels[l]; }
    // The case (or one of its sub-cases) is non-trivial; `h` identifies it.
    void nontrivial(uint64_t h) { isNontrivial = true; hashes.insert(h); }
    void nontrivial(std::string_view s) { nontrivial(hashStr(s)); }
    // Sub-cases: a case may evaluate several inputs.
    void evaluation(unsigned n = 1) { evaluations += n; }

    std::map<std::string, uint64_t> labels;
    std::unordered_set<uint64_t> hashes;
    bool isNontrivial = false;
    uint64_t evaluations = 0;
    std::string notes;
private:
    Shared* sh_;
};

using PropFn = void (*)(Tape&, Ctx&);
struct Prop {
    const char* id;
    const char* rule;       // how cases are made, what makes one non-trivial
    uint64_t quick;         // number of cases, quick tier
    uint64_t thorough;      // number of cases, thorough tier
    PropFn fn;
    unsigned workers = 8;
    unsigned cpuLimit = 20; // CPU seconds for one case before it counts as not terminating
    unsigned weight = 1;
};
void registerProp(const Prop& p);
struct Registrar { explicit Registrar(const Prop& p) { registerProp(p); } };

[[noreturn]] inline void fail(const std::string& m) { throw Failure{m}; }

template <class T> std::string show(const T& v) {
    std::ostringstream o; o << v; return o.str();
}
// Printable rendering of arbitrary bytes.
std::string quote(std::string_view s);

int engineMain(int argc, char** argv);

} // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PROPERTY(...) static ::pbt::Registrar PBT_CAT(reg_, __LINE__){::pbt::Prop __VA_ARGS__}

#define REQUIRE_P(cond, ...)                                                   \
    do { if (!(cond)) { std::ostringstream o_; o_ << "expected " #cond << ": " << __VA_ARGS__; \
         ::pbt::fail(o_.str()); } } while (0)
