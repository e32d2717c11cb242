// C23: ArrayArena with ARRAY_ARENA_THREAD_SAFE, under ThreadSanitizer.
#include "threads.h"
#include "simfil/model/arena.h"
#include <array>
#include <memory>
#ifndef ARRAY_ARENA_THREAD_SAFE
#error "This harness is about the thread-safe arena"
#endif
using namespace pbt;
using simfil::ArrayIndex;

namespace {
template <class E> E elem(uint64_t v);
template <> uint64_t elem<uint64_t>(uint64_t v) { return v; }
template <> std::string elem<std::string>(uint64_t v) { auto s = std::to_string(v); return v % 3 ? s : s + " and so on, a string of some length"; }
template <> std::pair<uint32_t, uint32_t> elem(uint64_t v) { return {uint32_t(v >> 20), uint32_t(v)}; }

enum Kind { Create, Append, Fill, OwnAt, OwnIterate, OwnSize, ReadAt, ReadIterate, ReadRange, ReadLoop, ReadSize, Count, Publish, ReadPublished, AppendWhileReading, PastEnd, Pause, KindCount };
struct Op { uint8_t k; uint8_t a, b; };

template <class E, class Arena> void arena(Tape& t, Ctx& ctx, const char* type) {
    Arena ar;
    // Arrays that are complete before the threads start.
    struct Arr { ArrayIndex i; std::vector<E> v; };
    std::vector<Arr> done;
    auto pre = t.below(6);
    for (uint64_t i = 0; i < pre; ++i) {
        Arr a{ar.new_array(t.below(6)), {}};
        auto n = t.size(20);
        for (uint64_t j = 0; j < n; ++j) { a.v.push_back(elem<E>(900000000 + i * 1000 + j)); ar.push_back(a.i, a.v.back()); }
        done.push_back(std::move(a));
    }
    unsigned nt = unsigned(2 + t.below(ctx.thorough ? 7 : 4));
    std::vector<std::vector<Op>> prog(nt);
    std::vector<std::array<unsigned, KindCount>> weights;
    size_t growing = 0, total = 0;
    for (auto& p : prog) {
        // Every thread has its own mixture, so that there are writers, readers and creators.
        unsigned w[KindCount];
        for (auto& x : w) x = unsigned(t.weighted({2, 3, 1}) * 3);
        w[Create] += 1; w[Append] += 2;
        unsigned sum = 0; for (auto x : w) sum += x;
        auto n = 10 + t.below(t.chance(1, 4) ? 300 : 80);
        bool grows = false;
        for (uint64_t i = 0; i < n; ++i) {
            auto v = t.below(sum); unsigned k = 0;
            while (v >= w[k]) v -= w[k++];
            p.push_back({uint8_t(k), uint8_t(t.below(256)), uint8_t(t.below(64))});
            grows |= k == Create || k == Append || k == Fill;
        }
        growing += grows; total += n;
    }
    ctx.note(std::string(type) + ", " + std::to_string(nt) + " threads, " + std::to_string(pre) + " finished arrays, operations:");
    for (auto& p : prog) {
        std::string s = "\n ";
        for (auto& o : p) s += std::string(" ") + "CAFaisrIRLSNPpWEx"[o.k] + std::to_string(o.a % 8);
        if (ctx.notes.size() < 3000) ctx.note(s);
    }
    ctx.evaluation(unsigned(total));

    std::vector<std::vector<Arr>> mine(nt);
    // Published arrays: complete, made known with release/acquire.
    constexpr size_t SLOTS = 64;
    std::vector<std::atomic<Arr*>> slots(SLOTS);
    std::vector<std::vector<std::unique_ptr<Arr>>> keep(nt);
    std::atomic<size_t> published{0};
    threads::run(nt, [&](unsigned me) {
        auto& own = mine[me];
        uint64_t serial = uint64_t(me + 1) * 1000000;
        size_t last = 0;
        // Element by element, against what the owner put in.
        auto readAt = [&](const Arr& a, size_t i) {
            const Arena& c = ar;
            auto& x = (serial & 1) ? ar.at(a.i, i) : c.at(a.i, i);
            if (!(x == a.v[i])) fail("element " + std::to_string(i) + " of array " + std::to_string(a.i) + " is wrong");
        };
        auto iterate = [&](const Arr& a, bool append) {
            size_t n = 0;
            auto see = [&](E& x) { if (n >= a.v.size() || !(x == a.v[n])) fail("iterate: element " + std::to_string(n) + " of array " + std::to_string(a.i) + " is wrong"); ++n; };
            if (append && !own.empty()) {
                auto& o = own.back();
                if (o.i == a.i) return;
                ar.iterate(a.i, [&](E& x) { see(x); o.v.push_back(elem<E>(serial++)); ar.push_back(o.i, o.v.back()); });
            } else if (serial % 3 == 0) ar.iterate(a.i, [&](E& x, size_t i) { if (i != n) fail("iterate: index " + std::to_string(i) + " instead of " + std::to_string(n)); see(x); });
            else if (serial % 3 == 1) ar.iterate(a.i, [&](E& x) { see(x); return true; });
            else ar.iterate(a.i, [&](E& x) { see(x); });
            if (n != a.v.size()) fail("iterate visits " + std::to_string(n) + " of " + std::to_string(a.v.size()) + " elements of array " + std::to_string(a.i));
        };
        auto loop = [&](const Arr& a) {
            size_t n = 0;
            for (auto it = ar.begin(a.i); it != ar.end(a.i); ++it, ++n) if (n >= a.v.size() || !(*it == a.v[n])) fail("begin/end: element " + std::to_string(n) + " of array " + std::to_string(a.i) + " is wrong");
            if (n != a.v.size()) fail("begin/end visits " + std::to_string(n) + " of " + std::to_string(a.v.size()) + " elements");
        };
        auto range = [&](const Arr& a, size_t i) {
            auto r = ar.range(a.i);
            if (r.size() != a.v.size()) fail("range size " + std::to_string(r.size()) + " instead of " + std::to_string(a.v.size()));
            if (i < a.v.size() && !(r[i] == a.v[i])) fail("range element " + std::to_string(i) + " is wrong");
            size_t n = 0;
            for (auto&& x : r) { if (!(x == a.v[n])) fail("range: element " + std::to_string(n) + " is wrong"); ++n; }
        };
        auto size = [&](const Arr& a) { auto s = ar.size(a.i); if (s != a.v.size()) fail("size of array " + std::to_string(a.i) + " is " + std::to_string(s) + " instead of " + std::to_string(a.v.size())); };
        auto append = [&](Arr& a, bool emplace) {
            auto x = elem<E>(serial++);
            a.v.push_back(x);
            if constexpr (std::is_trivially_destructible_v<E>) {
                if (emplace) { auto& r = ar.emplace_back(a.i, x); if (!(r == x)) fail("emplace_back returns another element"); return; }
            }
            auto& r = ar.push_back(a.i, x);
            if (!(r == x)) fail("push_back returns another element");
        };
        for (auto& o : prog[me]) {
            Arr* mineP = own.empty() ? nullptr : &own[o.a % own.size()];
            const Arr* dn = done.empty() ? nullptr : &done[o.a % done.size()];
            switch (o.k) {
            case Create: own.push_back({ar.new_array(o.b % 8), {}}); break;
            case Append: if (mineP) append(*mineP, o.b & 1); break;
            case Fill: if (mineP) for (int i = 0; i < o.b % 32; ++i) append(*mineP, i & 1); break;
            case OwnAt: if (mineP && !mineP->v.empty()) readAt(*mineP, o.b % mineP->v.size()); break;
            case OwnIterate: if (mineP) iterate(*mineP, false); break;
            case OwnSize: if (mineP) size(*mineP); break;
            case ReadAt: if (dn && !dn->v.empty()) readAt(*dn, o.b % dn->v.size()); break;
            case ReadIterate: if (dn) iterate(*dn, false); break;
            case ReadRange: if (dn) range(*dn, o.b); break;
            case ReadLoop: if (dn) loop(*dn); break;
            case ReadSize: if (dn) size(*dn); break;
            case Count: { auto s = ar.size(); if (s < last || s < done.size() + own.size()) fail("the number of arrays went down to " + std::to_string(s)); last = s; break; }
            case Publish: if (mineP) {
                auto slot = published.fetch_add(1, std::memory_order_relaxed);
                if (slot < SLOTS) { keep[me].push_back(std::make_unique<Arr>(*mineP)); slots[slot].store(keep[me].back().get(), std::memory_order_release); std::swap(*mineP, own.back()); own.pop_back(); }
            } break;
            case ReadPublished: if (auto* a = slots[o.a % SLOTS].load(std::memory_order_acquire)) switch (o.b % 4) {
                case 0: iterate(*a, false); break; case 1: loop(*a); break; case 2: size(*a); break;
                default: if (!a->v.empty()) readAt(*a, o.b % a->v.size());
            } break;
            case AppendWhileReading: if (dn) iterate(*dn, true); break;
            case PastEnd: if (dn) { bool thrown = false; try { ar.at(dn->i, dn->v.size() + o.b % 3); } catch (const std::out_of_range&) { thrown = true; } if (!thrown) fail("no error behind the end of array " + std::to_string(dn->i)); } break;
            case Pause: threads::pause(o.b); break;
            }
        }
    });
    std::map<ArrayIndex, const Arr*> all;
    auto add = [&](const Arr& a) { if (!all.emplace(a.i, &a).second) fail("two arrays have the index " + std::to_string(a.i)); };
    for (auto& a : done) add(a);
    for (auto& o : mine) for (auto& a : o) add(a);
    for (auto& k : keep) for (auto& a : k) add(*a);
    REQUIRE_P(ar.size() == all.size(), "the arena has " << ar.size() << " arrays instead of " << all.size());
    ArrayIndex i = 0;
    size_t elems = 0;
    for (auto&& r : ar) {
        auto it = all.find(i);
        REQUIRE_P(it != all.end(), "array index " << i << " was never returned");
        auto& v = it->second->v;
        REQUIRE_P(r.size() == v.size() && ar.size(i) == v.size(), "array " << i << " has " << r.size() << " elements instead of " << v.size());
        for (size_t j = 0; j < v.size(); ++j) REQUIRE_P(ar.at(i, j) == v[j], "array " << i << " element " << j << " is not the one that was appended");
        size_t n = 0;
        ar.iterate(i, [&](E& x) { REQUIRE_P(n < v.size() && x == v[n], "array " << i << ": iterate finds another element at " << n); ++n; });
        REQUIRE_P(n == v.size(), "iterate visits " << n << " of " << v.size());
        elems += n; ++i;
    }
    if (elems && growing >= 2) { ctx.nontrivial(ctx.notes); ctx.label("several threads grow the arena"); }
    ctx.label(type);
}
void growth(Tape& t, Ctx& ctx) {
    // Small pages make the containers of the arena grow all the time.
    switch (t.below(4)) {
    case 0: arena<uint64_t, simfil::ArrayArena<uint64_t, 4, 2>>(t, ctx, "tiny pages"); break;
    case 1: arena<uint64_t, simfil::ArrayArena<uint64_t>>(t, ctx, "default pages"); break;
    case 2: arena<std::string, simfil::ArrayArena<std::string, 8, 4, uint64_t>>(t, ctx, "strings"); break;
    default: arena<std::pair<uint32_t, uint32_t>, simfil::ArrayArena<std::pair<uint32_t, uint32_t>, 2, 16>>(t, ctx, "pairs"); break;
    }
}
PROPERTY({"C23", "Random programs for 2-5 (thorough: 2-8) threads: creating arrays, appending to own arrays, reading finished and published arrays through every accessor, run at once on one arena under ThreadSanitizer; afterwards all contents against the record of what was appended. Non-trivial: at least two threads grow the arena.", 24000, 300000, growth, 3, 10});
} // namespace
