// The string pool: interning and transfer.
#include "pbt.h"
#include "simfil/model/string-pool.h"
#include <deque>
#include <memory>
#include <optional>
#include <sstream>

using namespace pbt;
using simfil::StringPool;
using simfil::StringId;
namespace {

std::string lower(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c = char(c + 32); return s; }
std::string respell(Tape& t, std::string s) {
    for (auto& c : s) if (t.flip()) { if (c >= 'a' && c <= 'z') c = char(c - 32); else if (c >= 'A' && c <= 'Z') c = char(c + 32); }
    return s;
}
std::string genName(Tape& t, bool written = true) {   // written names have at most 64 kB
    if (!written && t.chance(1, 4000)) return std::string(t.oneOf<size_t>({65536, 65537, 70000, 131072}), char('a' + t.below(3)));
    static const std::string some[] = {"a", "name", "Name", "id", "ab", "ba", "abc", "abcd", "type", "$sum2", "x y", "geometry", "@", "`", "[", "{", "a[", "a{", "\xc4", "\xe4", "\xc3\x84", "\xc3\xa4",
        std::string("a\0", 2), std::string("a\0b", 3), std::string("\0", 1), "_", "-", "\r", "\x1a", ":", "z", "zz"};
    // Pairs of names whose (64 bit FNV-1a) hash values are equal; so are those of
    // both followed by the same text.
    static const std::string collide[] = {"f7db710f2b972382", "fccecc2c801c1bd5", "b68fa425727d2efd", "db454658f635a619",
        "pppppppppppppppppppppppppppppppppppppppp" "f6659b6aa1944084", "pppppppppppppppppppppppppppppppppppppppp" "b544456bfea558bb"};
    if (t.chance(1, 24)) return respell(t, t.pick(collide)) + (t.flip() ? "" : t.oneOf<const char*>({"x", "_name", "ID"}));
    switch (t.weighted({8, 6, 4, 1})) {
    case 0: return t.pick(some);
    case 1: return "n" + std::to_string(t.below(60));
    case 2: { std::string s; auto n = t.size(8); for (size_t i = 0; i < n; ++i) s += char(t.below(256)); return s; }
    default: if (t.flip()) return std::string(t.oneOf<size_t>({30, 31, 32, 33, 63, 64, 255, 256}), 'P') + std::to_string(t.below(20));
        return std::string(t.oneOf<size_t>({127, 128, 300, 16383, 16384, 65535, 1000}), char('a' + t.below(3))) ;
    }
}
struct Model {
    std::map<std::string, StringId> ids{{"", 0}, {"$sum", 1}, {"$val", 2}, {"$idx", 3}};
    std::map<StringId, std::string> names{{0, ""}, {1, "$sum"}, {2, "$val"}, {3, "$idx"}};
    uint32_t next = 128;
    size_t bytes = 0;
    StringId add(const std::string& n) {
        auto [it, fresh] = ids.try_emplace(lower(n), StringId(next));
        if (fresh) { names[StringId(next)] = n; bytes += n.size(); ++next; }
        return it->second;
    }
};
void verify(StringPool& p, const Model& m, Tape& t, const std::string& what, bool bytes = true) {
    REQUIRE_P(p.size() == m.ids.size(), what << ": size is " << p.size() << " instead of " << m.ids.size());
    REQUIRE_P(p.highest() == m.next - 1, what << ": highest is " << p.highest() << " instead of " << m.next - 1);
    if (bytes) REQUIRE_P(p.bytes() == m.bytes, what << ": bytes is " << p.bytes() << " instead of " << m.bytes);
    for (auto& [low, id] : m.ids) {
        if (m.ids.size() > 400 && !t.chance(1, 50)) continue;
        auto n = p.resolve(id);
        REQUIRE_P(n && *n == m.names.at(id), what << ": id " << id << " resolves to " << (n ? quote(*n) : "nothing") << " instead of " << quote(m.names.at(id)));
        auto q = respell(t, m.names.at(id));
        REQUIRE_P(p.get(q) == id, what << ": get(" << quote(q) << ") is " << p.get(q) << " instead of " << id);
    }
    for (int i = 0; i < 5; ++i) {
        auto id = (StringId)t.oneOf<uint32_t>({m.next, (uint32_t)t.below(65536), 127, 4, 65535, 128});
        if (!m.names.count(id)) REQUIRE_P(!p.resolve(id), what << ": unknown id " << id << " resolves to " << quote(*p.resolve(id)));
        auto n = genName(t);
        if (!m.ids.count(lower(n))) REQUIRE_P(p.get(n) == StringPool::Empty, what << ": unknown name " << quote(n) << " has id " << p.get(n));
    }
}
struct Held { std::string_view view; std::string content; StringId id; };

void interning(Tape& t, Ctx& ctx) {
    struct Inst { std::unique_ptr<StringPool> p; Model m; std::deque<Held> held; };
    std::vector<Inst> pools(1);
    pools[0].p = std::make_unique<StringPool>();
    bool big = t.chance(1, ctx.thorough ? 400 : 700);
    auto steps = 5 + t.below(ctx.thorough ? 150 : 60);
    for (size_t s = 0; s < steps; ++s) {
        auto k = t.below(pools.size());
        auto& [p, m, held] = pools[k];
        if (big && s == steps / 2) {
            ctx.note("pool " + std::to_string(k) + ": filled up\n");
            uint32_t i = 0;
            for (; m.next < 65535; ++i) {
                auto n = "Fill" + std::to_string(i);
                auto want = m.add(n);
                auto got = p->emplace(n);
                if (got != want) fail("emplace(" + n + ") gave " + std::to_string(got) + " instead of " + std::to_string(want));
            }
            ctx.label("filled up");
        }
        switch (t.weighted({10, 4, 3, 1, 1, 1, 1})) {
        case 0: {
            auto n = genName(t, false);
            if (!m.ids.empty() && t.chance(1, 4)) { auto it = m.names.lower_bound((StringId)t.below(m.next)); if (it != m.names.end()) n = respell(t, it->second); }
            ctx.note("pool " + std::to_string(k) + ": emplace(" + quote(n.size() > 60 ? n.substr(0, 60) : n) + " #" + std::to_string(n.size()) + ")\n");
            bool known = m.ids.count(lower(n));
            if (!known && m.next == 65535) {
                bool raised = false;
                try { p->emplace(n); } catch (const std::exception&) { raised = true; }
                REQUIRE_P(raised, "emplace into a full pool must raise");
                ctx.label("full");
                break;
            }
            auto id = p->emplace(n);
            auto want = m.add(n);
            REQUIRE_P(id == want, "emplace(" << quote(n) << ") gave " << id << " instead of " << want);
            held.push_back({*p->resolve(id), m.names[id], id});
            ctx.label(known ? "known name" : "new name");
            break; }
        case 1: {
            auto n = genName(t, false);
            auto it = m.ids.find(lower(n));
            auto got = p->get(n);
            REQUIRE_P(got == (it == m.ids.end() ? 0 : it->second), "get(" << quote(n) << ") gave " << got);
            ctx.label("get");
            break; }
        case 2: verify(*p, m, t, "pool " + std::to_string(k)); ctx.label("verify"); break;
        case 3: {
            auto id = (StringId)t.range(4, 127);
            auto n = genName(t, false);
            if (m.names.count(id) || m.ids.count(lower(n))) break;
            ctx.note("pool " + std::to_string(k) + ": addStaticKey(" + std::to_string(id) + ", " + quote(n) + ")\n");
            p->addStaticKey(id, n);
            m.ids[lower(n)] = id; m.names[id] = n;
            ctx.label("static key");
            break; }
        case 4: case 5: {
            if (pools.size() > 3) break;
            ctx.note("pool " + std::to_string(pools.size()) + " = copy of " + std::to_string(k) + "\n");
            Inst c; c.p = std::make_unique<StringPool>(*p); c.m = m;
            REQUIRE_P(*c.p == *p && *p == *c.p, "a copy is equal");
            pools.push_back(std::move(c));
            ctx.label("copy");
            break; }
        default:
            if (pools.size() < 2) break;
            ctx.note("pool " + std::to_string(k) + " destroyed\n");
            pools.erase(pools.begin() + k);
            ctx.label("destroy");
        }
        ctx.evaluation();
    }
    for (size_t i = 0; i < pools.size(); ++i) {
        auto& [p, m, held] = pools[i];
        verify(*p, m, t, "pool " + std::to_string(i) + " at the end");
        for (auto& h : held) REQUIRE_P(h.view == h.content, "the name of id " << h.id << " has changed");
        for (size_t j = 0; j < pools.size(); ++j)
            REQUIRE_P((*p == *pools[j].p) == (m.ids == pools[j].m.ids && m.names == pools[j].m.names), "comparison of pools " << i << " and " << j);
        if (m.ids.size() > 8) ctx.nontrivial(ctx.notes);
    }
}

std::string bytesOf(const StringPool& p, StringId off) { std::ostringstream o(std::ios::binary); p.write(o, off); return o.str(); }
std::optional<std::string> feed(StringPool& p, const std::string& b) {
    std::istringstream in(b, std::ios::binary);
    try { p.read(in); } catch (const std::exception& e) { return e.what(); }
    return {};
}
void transfer(Tape& t, Ctx& ctx) {
    StringPool src; Model m;
    bool statics = false;
    auto grow = [&](size_t n) {
        for (size_t i = 0; i < n; ++i) {
            auto s = genName(t);
            if (m.next == 65535 && !m.ids.count(lower(s))) continue;
            src.emplace(s); m.add(s);
            ctx.note("emplace(" + quote(s.size() > 60 ? s.substr(0, 60) : s) + " #" + std::to_string(s.size()) + ")\n");
        }
        if (t.chance(1, 6)) {
            auto id = (StringId)t.range(4, 127); auto n = genName(t);
            if (!m.names.count(id) && !m.ids.count(lower(n))) { src.addStaticKey(id, n); m.ids[lower(n)] = id; m.names[id] = n; statics = true; ctx.note("addStaticKey(" + std::to_string(id) + ", " + quote(n) + ")\n"); }
        }
    };
    grow(t.below(40));
    if (t.chance(1, 600)) { for (uint32_t i = 0; m.next < 65535; ++i) { auto n = "f" + std::to_string(i); src.emplace(n); m.add(n); } ctx.label("full pool"); }
    // What goes over for an offset.
    auto part = [&](uint32_t off) {
        Model r;
        for (auto& [id, n] : m.names) if (id >= off) {
            if (r.ids.try_emplace(lower(n), id).second) { r.names.try_emplace(id, n); r.bytes += n.size(); r.next = std::max<uint32_t>(r.next, id + 1u); }
        }
        return r;
    };
    auto merge = [&](Model& dst, uint32_t off) {
        for (auto& [id, n] : m.names) if (id >= off && dst.ids.try_emplace(lower(n), id).second) {
            dst.names.try_emplace(id, n); dst.bytes += n.size(); dst.next = std::max<uint32_t>(dst.next, id + 1u);
        }
    };
    // One follower, fed in increments; from time to time a fresh one, fed at once.
    StringPool follower; Model fm;
    auto rounds = 1 + t.below(4);
    for (size_t r = 0; r < rounds; ++r) {
        ctx.evaluation();
        { // at once
            StringPool once; Model om;
            auto b = bytesOf(src, 0);
            auto err = feed(once, b);
            REQUIRE_P(!err, "reading a whole pool raised: " << *err);
            merge(om, 0);
            REQUIRE_P(om.ids == m.ids && om.next == m.next, "the reference is consistent");
            verify(once, om, t, "pool read at once", !statics);
            REQUIRE_P(once == src, "the pool read at once is not equal to its source");
            REQUIRE_P(bytesOf(once, 0) == b, "the bytes written by the read pool differ");
        }
        // increment, possibly split into several at arbitrary points and with overlap
        auto off = t.weighted({3, 1, 1}) == 0 ? uint32_t(follower.highest()) + 1 : t.flip() ? uint32_t(t.below(follower.highest() + 2)) : 0u;
        ctx.note("write(" + std::to_string(off) + ") to the follower, which has " + std::to_string(fm.ids.size()) + " names\n");
        auto b = bytesOf(src, (StringId)off);
        // Only what is due is sent.
        auto due = part(off);
        { // (seen by a pool that knows nothing else of it)
            StringPool fresh; Model x;
            auto err = feed(fresh, b);
            REQUIRE_P(!err, "reading an increment raised: " << *err);
            merge(x, off);
            verify(fresh, x, t, "increment from " + std::to_string(off), !statics);
        }
        if (t.chance(1, 2) && b.size() > 2) { // cut off: raises, and nothing wrong is left behind
            std::vector<size_t> cuts;
            if (b.size() < 40) for (size_t i = 0; i < b.size(); ++i) cuts.push_back(i); else for (int i = 0; i < 12; ++i) cuts.push_back(i < 3 ? b.size() - 1 - i : t.below(b.size()));
            for (auto n : cuts) {
                bool onto = t.chance(1, 4);
                StringPool copy(follower);
                auto err = feed(copy, b.substr(0, n));
                REQUIRE_P(err, "an input cut off after " << n << " of " << b.size() << " bytes is accepted");
                ctx.evaluation();
                Model all = fm; merge(all, off);
                for (auto& [low, id] : all.ids) {
                    if (all.ids.size() > 400 && !t.chance(1, 50)) continue;
                    auto got = copy.get(all.names.at(id));
                    REQUIRE_P(got == 0 || got == id, "after a cut-off input, " << quote(low) << " has id " << got << " instead of " << id);
                    if (got) REQUIRE_P(copy.resolve(got) && *copy.resolve(got) == all.names.at(id), "after a cut-off input, id " << got << " resolves wrongly");
                    if (fm.ids.count(low)) REQUIRE_P(got == id, "a cut-off input removed " << quote(low));
                }
                REQUIRE_P(copy.size() >= fm.ids.size() && copy.size() <= all.ids.size(), "after a cut-off input there are " << copy.size() << " names");
                if (onto) { // sent again
                    auto e2 = feed(copy, b);
                    REQUIRE_P(!e2, "reading again raised: " << *e2);
                    verify(copy, all, t, "read again after a cut-off input", !statics);
                }
            }
            ctx.label("cut off");
        }
        auto err = feed(follower, b);
        REQUIRE_P(!err, "reading an increment raised: " << *err);
        merge(fm, off);
        verify(follower, fm, t, "follower", !statics);
        if (off <= uint32_t(128) || fm.ids.size() == m.ids.size()) ctx.label("complete"); else ctx.label("partial");
        if (due.ids.size() > 8) ctx.nontrivial(ctx.notes);
        grow(t.below(20));
        ctx.label("round");
    }
    // Finally the rest: the follower is the source.
    auto err = feed(follower, bytesOf(src, 0));
    REQUIRE_P(!err, "reading the rest raised: " << *err);
    merge(fm, 0);
    verify(follower, fm, t, "follower at the end", !statics);
    REQUIRE_P(follower == src, "the follower is not equal to its source");
    // The follower continues where the source stopped.
    if (m.next < 65535u) {
        auto n = std::string("continued");
        auto known = m.ids.count(n) != 0;
        auto want = m.add(n);
        REQUIRE_P(follower.emplace(n) == want && src.emplace(n) == want, "the next id" << (known ? " of a known name" : ""));
    }
}
PROPERTY({"C27", "Random histories of emplace, get, addStaticKey, copy and destroy over up to four pools, names over all bytes and lengths, some pools filled up completely; reference maps; names handed out earlier must stay. Non-trivial: a pool with more than eight names.", 64000, 640000, interning});
PROPERTY({"C28", "Random pools (also full ones and with static keys) transferred at once and in random, overlapping increments to a follower, inputs cut off at all or sampled points and sent again. Non-trivial: a transfer of more than eight names.", 10000, 100000, transfer});
} // namespace
