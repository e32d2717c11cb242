// C29: one StringPool in many threads, under ThreadSanitizer.
#include "threads.h"
#include "simfil/model/string-pool.h"
#include <memory>
using namespace pbt;
using simfil::StringPool;
using simfil::StringId;

namespace {
std::string lower(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c = char(c + 32); return s; }
std::string upper(std::string s) { for (auto& c : s) if (c >= 'a' && c <= 'z') c = char(c - 32); return s; }
enum Kind { Emplace, EmplaceRun, Get, ResolveKnown, ResolveAny, Size, Highest, Bytes, Write, Copy, Read, Hits, Held, Pause, KindCount };
struct Op { uint8_t k; uint16_t a; uint8_t b; };

void pool(Tape& t, Ctx& ctx) {
    auto p = std::make_shared<StringPool>();
    const size_t NN = 4 + t.below(t.chance(1, 3) ? 400 : 40);
    std::vector<std::string> names;     // lower case, distinct
    size_t longest = t.chance(1, 6) ? 300 : 12;
    for (size_t i = 0; i < NN; ++i) names.push_back("n" + std::to_string(i) + std::string(t.below(longest), 'x'));
    // Now and then with names whose hash values are equal.
    if (t.chance(1, 3)) { names[t.below(NN / 2)] = "f7db710f2b972382"; names[NN / 2 + t.below(NN - NN / 2)] = "fccecc2c801c1bd5"; }
    auto spell = [&](size_t n, unsigned how) { auto& s = names[n]; return how % 3 == 0 ? s : how % 3 == 1 ? upper(s) : std::string(1, char(s[0] - 32)) + s.substr(1); };
    std::vector<std::atomic<uint32_t>> slot(NN);  // ids as they become known (relaxed: no ordering added)
    size_t known = t.below(NN / 2 + 1);
    size_t sumBytes = 0;
    for (size_t i = 0; i < known; ++i) { auto id = p->emplace(names[i]); slot[i] = id; sumBytes += names[i].size(); }
    std::string snapshot; { std::ostringstream o; p->write(o, 0); snapshot = o.str(); }
    // A foreign part, read by one of the threads: other names at ids far above.
    std::string foreign; std::vector<std::string> fnames;
    if (t.chance(1, 3)) {
        StringPool f; std::ostringstream o;
        for (uint64_t i = 0, n = 1 + t.below(5); i < n; ++i) fnames.push_back("foreign" + std::to_string(i));
        // u16 count, then id and text with a one byte length (see StringPool::write).
        auto u16 = [&](unsigned v) { o.put(char(v & 255)); o.put(char(v >> 8)); };
        u16(unsigned(fnames.size()));
        for (size_t i = 0; i < fnames.size(); ++i) { u16(unsigned(20000 + i)); o.put(char(fnames[i].size())); o << fnames[i]; }
        foreign = o.str();
    }
    unsigned nt = unsigned(2 + t.below(ctx.thorough ? 7 : 4));
    std::vector<std::vector<Op>> prog(nt);
    size_t total = 0, writers = 0;
    bool lockstep = t.flip();   // all threads go through the same names at once
    for (auto& pr : prog) {
        unsigned w[KindCount];
        for (auto& x : w) x = unsigned(t.weighted({2, 3, 1}) * 3);
        w[Copy] = w[Copy] ? 1 : 0; w[Write] = w[Write] ? 1 : 0; w[Read] = w[Read] ? 1 : 0; w[Emplace] += 2;
        unsigned sum = 0; for (auto x : w) sum += x;
        auto n = 10 + t.below(t.chance(1, 4) ? 400 : 90);
        size_t next = 0;
        bool writes = false;
        for (uint64_t i = 0; i < n; ++i) {
            auto v = t.below(sum); unsigned k = 0;
            while (v >= w[k]) v -= w[k++];
            auto a = t.below(NN);
            if (lockstep && (k == Emplace || k == EmplaceRun || k == Get)) a = next++ % NN;
            writes |= k == Emplace || k == EmplaceRun;
            pr.push_back({uint8_t(k), uint16_t(a), uint8_t(t.below(64))});
        }
        total += n; writers += writes;
    }
    ctx.evaluation(unsigned(total));
    ctx.note(std::to_string(nt) + " threads, " + std::to_string(NN) + " names, " + std::to_string(known) + " known, " + (lockstep ? "in lockstep" : "independent") + (foreign.empty() ? "" : ", foreign part of " + std::to_string(fnames.size())) + ", operations:");
    for (auto& pr : prog) { std::string s = "\n "; for (auto& o : pr) s += std::string(" ") + "eEgrRshbWCDcLx"[o.k] + std::to_string(o.a); if (ctx.notes.size() < 3000) ctx.note(s); }
    std::atomic<bool> foreignTaken{foreign.empty()};
    bool foreignRead = false;
    threads::run(nt, [&](unsigned me) {
        size_t lastSize = 0, lastBytes = 0, sizeFloor = 0; StringId lastHigh = 0; uint32_t maxId = 0;
        std::vector<std::pair<std::string_view, std::string>> held;
        auto confirm = [&](size_t n, StringId id, const char* how) {
            if (id < StringPool::FirstDynamicId) fail(std::string(how) + " gives the id " + std::to_string(id) + " for " + names[n]);
            uint32_t old = slot[n].exchange(id, std::memory_order_relaxed);
            if (old && old != id) fail(names[n] + " has the ids " + std::to_string(old) + " and " + std::to_string(id));
            auto s = p->resolve(id);
            if (!s) fail(std::string(how) + ": the id " + std::to_string(id) + " of " + names[n] + " does not resolve");
            if (lower(std::string(*s)) != names[n]) fail("the id " + std::to_string(id) + " of " + names[n] + " resolves to " + quote(std::string(*s)));
            if (held.size() < 64) held.emplace_back(*s, std::string(*s));
            maxId = std::max<uint32_t>(maxId, id);
        };
        auto checkCopy = [&](const StringPool& c, const char* what, bool prefix) {
            auto h = c.highest();
            size_t n = 0;
            for (uint32_t id = StringPool::FirstDynamicId; id <= h; ++id) {
                auto s = c.resolve(StringId(id));
                if (!s) continue;
                ++n;
                StringPool& cc = const_cast<StringPool&>(c);
                if (cc.get(*s) != id) fail(std::string(what) + ": " + quote(std::string(*s)) + " and the id " + std::to_string(id) + " do not belong together");
                auto mine = p->resolve(StringId(id));
                if (!mine || *mine != *s) fail(std::string(what) + " has " + quote(std::string(*s)) + " as " + std::to_string(id) + ", the pool " + (mine ? quote(std::string(*mine)) : "nothing"));
            }
            if (prefix) {
                if (c.size() != n + 4) fail(std::string(what) + ": size " + std::to_string(c.size()) + ", but " + std::to_string(n + 4) + " ids resolve");
                if (h < maxId) fail(std::string(what) + ": highest " + std::to_string(h) + " is below the known id " + std::to_string(maxId));
                if (n < sizeFloor) fail(std::string(what) + " lacks names");
            }
        };
        std::set<size_t> seen;
        for (auto& o : prog[me]) switch (o.k) {
            case Emplace: confirm(o.a, p->emplace(spell(o.a, o.b)), "emplace"); seen.insert(o.a); sizeFloor = seen.size(); break;
            case EmplaceRun: for (size_t i = o.a; i < std::min<size_t>(NN, o.a + o.b % 8); ++i) { confirm(i, p->emplace(spell(i, o.b)), "emplace"); seen.insert(i); } sizeFloor = seen.size(); break;
            case Get: {
                auto before = slot[o.a].load(std::memory_order_relaxed);
                auto id = p->get(spell(o.a, o.b));
                if (id) confirm(o.a, id, "get");
                else if (before) fail("get does not know " + names[o.a] + ", which has the id " + std::to_string(before));
                break;
            }
            case ResolveKnown: {
                auto id = slot[o.a].load(std::memory_order_relaxed);
                if (!id) break;
                auto s = p->resolve(StringId(id));
                if (!s || lower(std::string(*s)) != names[o.a]) fail("the id " + std::to_string(id) + " of " + names[o.a] + " resolves to " + (s ? quote(std::string(*s)) : "nothing"));
                break;
            }
            case ResolveAny: {
                StringId id = StringId(120 + o.a);
                if (auto s = p->resolve(id)) { auto back = p->get(*s); if (back != id) fail(quote(std::string(*s)) + " of id " + std::to_string(id) + " has the id " + std::to_string(back)); }
                break;
            }
            case Size: { auto s = p->size(); if (s < lastSize || s < sizeFloor + 4) fail("size went down to " + std::to_string(s)); lastSize = s; break; }
            case Highest: { auto h = p->highest(); if (h < lastHigh || h < maxId) fail("highest " + std::to_string(h) + " is below " + std::to_string(std::max<uint32_t>(lastHigh, maxId))); lastHigh = h; break; }
            case Bytes: { auto b = p->bytes(); if (b < lastBytes) fail("bytes went down"); lastBytes = b; break; }
            case Write: {
                std::ostringstream os; StringId off = o.b % 2 ? 0 : StringId(128 + o.a % 32);
                p->write(os, off);
                StringPool c; std::istringstream is(os.str());
                c.read(is);
                if (is.peek() != EOF) fail("write() wrote more than read() reads");
                checkCopy(c, "what was written", off == 0);
                break;
            }
            case Copy: { StringPool c(*p); checkCopy(c, "copy", true); break; }
            case Read: {
                if (!foreignTaken.exchange(true, std::memory_order_relaxed)) { std::istringstream is(foreign); p->read(is); foreignRead = true; }
                else { std::istringstream is(snapshot); p->read(is); }
                break;
            }
            case Hits: { volatile size_t x = p->hits() + p->misses(); (void)x; break; }
            case Held: for (auto& [v, s] : held) if (v != s) fail("a resolved name changed from " + quote(s)); break;
            case Pause: threads::pause(o.b); break;
        }
        for (auto& [v, s] : held) if (v != s) fail("a resolved name changed from " + quote(s));
    });
    // Afterwards.
    size_t n = 4, bytes = 0; uint32_t high = StringPool::FirstDynamicId - 1;
    std::map<uint32_t, size_t> byId;
    for (size_t i = 0; i < NN; ++i) {
        auto id = p->get(names[i]);
        uint32_t want = slot[i];
        REQUIRE_P(id == want, names[i] << " has the id " << id << ", but " << want << " was returned");
        if (!id) continue;
        auto [it, fresh] = byId.emplace(id, i);
        REQUIRE_P(fresh, names[i] << " and " << names[it->second] << " share the id " << id);
        auto s = p->resolve(id);
        REQUIRE_P(s && lower(std::string(*s)) == names[i], "the id " << id << " of " << names[i] << " resolves to " << (s ? quote(std::string(*s)) : "nothing"));
        ++n; bytes += names[i].size(); high = std::max<uint32_t>(high, id);
    }
    if (foreignRead) for (size_t i = 0; i < fnames.size(); ++i) {
        REQUIRE_P(p->get(fnames[i]) == 20000 + i && p->resolve(StringId(20000 + i)), "the foreign name " << fnames[i] << " was not read");
        ++n; bytes += fnames[i].size(); high = std::max<uint32_t>(high, unsigned(20000 + i));
    }
    REQUIRE_P(p->size() == n, "size is " << p->size() << " instead of " << n);
    REQUIRE_P(p->highest() == high, "highest is " << p->highest() << " instead of " << high);
    REQUIRE_P(p->bytes() == bytes, "bytes is " << p->bytes() << " instead of " << bytes);
    if (!foreignRead) for (uint32_t id = StringPool::FirstDynamicId; id <= high; ++id) REQUIRE_P(byId.count(id), "the id " << id << " was skipped");
    if (writers >= 2 && n > 4) { ctx.nontrivial(ctx.notes); ctx.label("several threads add names"); }
    if (lockstep) ctx.label("lockstep");
    if (foreignRead) ctx.label("concurrent read()");
}
PROPERTY({"C29", "Random programs for 2-5 (thorough: 2-8) threads over a shared set of names in random letter case: emplace, get, resolve, size, highest, bytes, hits, write, read, copy, run at once on one pool under ThreadSanitizer; every id is resolved at once and compared with what the other threads got. Non-trivial: at least two threads add names.", 2400, 40000, pool, 3, 10});
} // namespace
