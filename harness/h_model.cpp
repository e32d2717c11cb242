// Models: JSON, builders, serialization, error checks, string pools, overlays.
#include "mref.h"
#include "simfil/environment.h"
#include "simfil/overlay.h"
#include "simfil/value.h"
#include <bitsery/adapter/stream.h>
#include <sstream>

using namespace pbt;
using namespace simfil;
using namespace mref;
using js = nlohmann::json;
namespace {

void opLabels(Ctx& ctx, const Builder& b) { for (auto& [k, n] : b.ops) ctx.label(k); }
template <class F> std::optional<std::string> raises(F&& f) {
    try { f(); } catch (const std::exception& e) { return e.what(); }
    return {};
}
std::shared_ptr<StringPool> seededPool(Tape& t, std::vector<std::string>& added, std::initializer_list<const char*> pool) {
    auto p = std::make_shared<StringPool>();
    auto n = t.size(12);
    if (t.chance(1, 30)) { auto many = t.range(20, 700); for (int64_t i = 0; i < many; ++i) { auto s = "F" + std::to_string(i); p->emplace(s); added.push_back(s); } }
    std::vector<std::string> names(pool.begin(), pool.end());
    for (size_t i = 0; i < n; ++i) {
        auto s = t.chance(2, 3) ? caseVariant(t, t.pick(names)) : "filler" + std::to_string(t.below(30));
        p->emplace(s);
        added.push_back(s);
    }
    return p;
}
const auto kNames = {"a", "b", "name", "FIELD", "x1", "_", "two words", "id", "\xc3\xa4", "k1", "k2", "k3"};

// ------------------------------------------------------------------ C20
js genJson(Tape& t, int depth, Ctx& ctx) {
    auto kind = t.weighted({4, 3, 2, 1, 1, depth > 0 ? 5u : 0u, depth > 0 ? 4u : 0u});
    switch (kind) {
    case 0: return genInt(t);
    case 1: {
        static const std::string uni[] = {"", "a", "text", "with \"quotes\" and \\", "\xc3\xa4\xc3\xb6", "\xf0\x9f\x98\x80", std::string("a\0b", 3), "\n\t\r\b\f", "1", "null", "\xe2\x80\xa8"};
        if (t.chance(1, 12)) return std::string(t.chance(1, 60) ? 60000 + t.below(20000) : t.below(9000), char('s' + t.below(5)));
        return t.pick(uni); }
    case 2: { auto d = genDouble(t); return std::isfinite(d) ? js(d) : js(0.25); }
    case 3: return t.flip();
    case 4: return nullptr;
    case 5: {
        auto j = js::object();
        auto n = t.size(10);
        if (t.chance(1, 150)) for (size_t i = t.below(t.chance(1, 4) ? 3000 : 400); i > 0; --i) j["f" + std::to_string(i)] = i;
        for (size_t i = 0; i < n; ++i) {
            static const std::string keys[] = {"a", "b", "c", "name", "Name", "NAME", "id", "", "with space", "\xc3\xa4", "$sum", "A", "_multimap", "geometry", "properties", "x.y"};
            std::string k = t.chance(5, 6) ? t.pick(keys) : "k" + std::to_string(t.below(500));
            j[k] = genJson(t, depth - 1, ctx);
        }
        if (t.chance(1, 60)) for (size_t i = 2 + t.below(12); i > 0; --i) j[caseVariant(t, "geometry")] = i; // one name, many spellings
        return j; }
    default: {
        auto j = js::array();
        size_t n = t.chance(1, 40) ? t.below(t.chance(1, 20) ? 20000 : 3000) : t.size(10);
        if (n > 12) { for (size_t i = 0; i < n; ++i) j.push_back(genInt(t)); return j; }
        for (size_t i = 0; i < n; ++i) j.push_back(genJson(t, depth - 1, ctx));
        return j; }
    }
}
RN* fromJson(Ref& r, const js& j) {
    switch (j.type()) {
    case js::value_t::null: return r.mk(T::Null);
    case js::value_t::boolean: { auto* n = r.mk(T::Bool); n->b = j.get<bool>(); return n; }
    case js::value_t::number_float: { auto* n = r.mk(T::Float); n->d = j.get<double>(); return n; }
    case js::value_t::number_integer: { auto* n = r.mk(T::Int); n->i = j.get<int64_t>(); return n; }
    case js::value_t::number_unsigned: {
        auto u = j.get<uint64_t>();
        if (u > (uint64_t)INT64_MAX) { auto* n = r.mk(T::Float); n->d = (double)u; return n; }
        auto* n = r.mk(T::Int); n->i = (int64_t)u; return n; }
    case js::value_t::string: { auto* n = r.mk(T::Str); n->s = j.get<std::string>(); return n; }
    case js::value_t::array: { auto* n = r.mk(T::Arr); for (auto& e : j) n->kids.emplace_back("", fromJson(r, e)); return n; }
    default: break;
    }
    auto* n = r.mk(T::Obj);
    for (auto& [k, v] : j.items()) n->kids.emplace_back(lower(k), fromJson(r, v));
    return n;
}
void collectNames(const js& j, std::map<std::string, std::set<std::string>>& m) {
    if (j.is_object()) for (auto& [k, v] : j.items()) { m[lower(k)].insert(k); collectNames(v, m); }
    else if (j.is_array()) for (auto& v : j) collectNames(v, m);
}
void jsonRoundTrip(Tape& t, Ctx& ctx) {
    auto model = std::make_shared<ModelPool>();
    Ref ref;
    auto nRoots = 1 + (t.chance(1, 4) ? t.below(3) : 0);
    std::map<std::string, std::set<std::string>> spellings{{"", {""}}, {"$sum", {"$sum"}}, {"$val", {"$val"}}, {"$idx", {"$idx"}}};
    bool fresh = nRoots == 1 && t.flip();
    for (size_t i = 0; i < nRoots; ++i) {
        std::string text;
        if (t.chance(1, 8)) { // deep nesting
            auto d = t.range(5, t.chance(1, 10) ? 700 : 150); text = "1";
            for (int k = 0; k < d; ++k) text = t.flip() ? "[" + text + "]" : "{\"k" + std::to_string(k % 7) + "\":" + text + "}";
            ctx.label("deep");
        } else text = genJson(t, 4, ctx).dump(t.flip() ? -1 : 2, ' ', t.flip());
        if (t.chance(1, 6)) { // number spellings that dump() never writes
            static const char* nums[] = {"-0", "0.0", "-0.0", "1e5", "1E+2", "1.50", "18446744073709551615", "18446744073709551616", "9223372036854775808", "9223372036854775807",
                "-9223372036854775808", "-9223372036854775809", "123456789012345678901234567890", "1e-400", "2.2250738585072011e-308", "4.9e-324"};
            text = "[" + text + "," + t.pick(nums) + "]";
            ctx.label("number spelling");
        }
        bool broken = false;
        if (t.chance(1, 4)) { // mutate
            auto k = 1 + t.below(3);
            for (size_t m = 0; m < k && !text.empty(); ++m) {
                auto p = t.below(text.size());
                switch (t.below(6)) {
                case 4: case 5: { // what lenient readers accept, before or after a token
                    for (size_t q = 0; q < text.size() && !strchr("{}[],:", text[p]); ++q) p = (p + 1) % text.size();
                    if (t.flip()) p = std::min(p + 1, text.size());
                    if (t.chance(1, 4)) p = t.flip() ? 0 : text.size();
                    text.insert(p, t.oneOf<const char*>({"/* c */", "// c\n", "#c\n", "NaN", "Infinity", "-Infinity", "'a'", ",", "[],", "0x1F", "01", "+1", ".5", "1.", "True", "None", "undefined", "nul",
                        "\xef\xbb\xbf", "\xef\xbb", "\xc2\xa0", "\f", "\v", "\r\n\t ", "1e", "\"\\u12\"", "\"\\ud800\"", "\"\\x41\"", "\"a\tb\"", "{}", "\"k\":1,", "k:1,", ";", "1_000", "1u"}));
                    break;
                }
                case 0: text.erase(p, 1 + t.below(3)); break;
                case 1: text.insert(p, 1, t.oneOf<char>({'{', '}', '[', ']', ',', ':', '"', '\\', '0', '-', '.', 'e', ' ', '\0', '\xff', '\x01', 't'})); break;
                case 2: text[p] = char(t.below(256)); break;
                default: text.resize(p);
                }
            }
            broken = !js::accept(text);
        }
        ctx.note((broken ? "malformed: " : "document: ") + quote(text.size() > 800 ? text.substr(0, 800) : text) + "\n");
        auto before = model->toJson();
        int how = t.below(2);
        ModelPoolPtr single;
        auto parse = [&] {
            if (fresh) single = simfil::json::parse(text);
            else if (how == 0) simfil::json::parse(text, model);
            else { std::istringstream in(text); simfil::json::parse(in, model); }
        };
        std::optional<js> doc;
        try { doc = js::parse(text); } catch (const std::exception&) {}
        ctx.evaluation();
        auto err = raises(parse);
        if (!doc) {
            REQUIRE_P(err.has_value(), "malformed JSON was accepted: " << quote(text));
            REQUIRE_P(same(before, model->toJson()), "malformed JSON changed the model");
            ctx.label("malformed rejected");
            ctx.nontrivial(text);
            continue;
        }
        REQUIRE_P(!err, "valid JSON raised: " << *err);
        if (fresh) model = single;
        ref.roots.push_back(fromJson(ref, *doc));
        collectNames(*doc, spellings);
        if (doc->size() > 1) ctx.nontrivial(text);
    }
    // The stored spelling is one of those that occurred, the same everywhere.
    for (auto& [low, all] : spellings) {
        auto id = model->strings()->get(low);
        REQUIRE_P(low.empty() || id != StringPool::Empty, "name " << quote(low) << " is unknown to the model");
        auto name = std::string(*model->strings()->resolve(id));
        REQUIRE_P(all.count(name), "name " << quote(low) << " is stored as " << quote(name));
        if (all.size() == 1) ref.names.add(name);
        else ref.names.first[low] = name, ctx.label("spellings merged");
    }
    auto got = model->toJson();
    auto want = rootsJson(ref);
    REQUIRE_P(got.size() == want.size(), got.size() << " roots instead of " << want.size());
    for (size_t i = 0; i < got.size(); ++i)
        REQUIRE_P(same(got[i], want[i]), "document comes back as " << brief(got[i]) << " instead of " << brief(want[i]));
    for (size_t i = 0; i < ref.roots.size(); ++i) {
        auto one = model->root(i)->toJson();
        REQUIRE_P(same(one, want[i]), "root " << i << " is " << brief(one));
        size_t budget = 150;
        check(*model, *model->root(i), *ref.roots[i], ref.names, t, budget, "root " + std::to_string(i));
    }
    // Without multimaps, the text of the converted document gives the same model again.
    bool multi = want.dump(-1, ' ', true, js::error_handler_t::replace).find("_multimap") != std::string::npos;
    if (!multi && got.size() == 1 && t.flip()) {
        auto again = simfil::json::parse(got[0].dump());
        REQUIRE_P(same(again->toJson()[0], got[0]), "second round trip gives " << brief(again->toJson()[0]) << " instead of " << brief(got[0]));
        ctx.label("second round trip");
    }
    if (multi) ctx.label("multimap");
}

// ------------------------------------------------------------------ C21
void builder(Tape& t, Ctx& ctx) {
    auto pool = std::make_shared<ModelPool>();
    Builder b(pool);
    b.ctx = &ctx;
    auto steps = 8 + t.below(ctx.thorough ? 160 : 60);
    if (t.chance(1, 150)) { // across the pages of the columns
        ctx.label("many elements");
        b.bulk(t);
        steps = 5;
    } else if (t.chance(1, 60)) steps = 100 + t.below(400);
    for (size_t i = 0; i < steps; ++i) {
        b.step(t, true);
        ctx.evaluation();
        if (t.chance(1, 3)) { // some node, touched or not
            auto v = b.anyNode(t);
            size_t budget = 30;
            check(*pool, *v.h, *v.r, b.ref.names, t, budget, "node");
        }
    }
    for (auto& o : b.objs) { size_t k = 4; check(*pool, *o.h, *o.r, b.ref.names, t, k, "object"); k = 4; check(*pool, *Ptr(o.h), *o.r, b.ref.names, t, k, "object node"); }
    for (auto& a : b.arrs) {
        size_t k = 4; check(*pool, *a.h, *a.r, b.ref.names, t, k, "array");
        size_t i = 0; auto stop = t.below(a.r->kids.size() + 1);
        bool all = a.h->forEach([&](ModelNode const& n) {
            REQUIRE_P(i < a.r->kids.size(), "forEach beyond the end");
            REQUIRE_P(n.size() == a.r->kids[i].second->kids.size(), "forEach, child " << i);
            return i++ != stop;
        });
        REQUIRE_P(i == std::min(stop + 1, a.r->kids.size()) && all == (stop == a.r->kids.size()), "forEach visited " << i << " of " << a.r->kids.size() << " with stop at " << stop << ", returned " << all);
    }
    for (auto& v : b.vals) { size_t k = 1; check(*pool, *v.h, *v.r, b.ref.names, t, k, "value"); }
    checkAll(*pool, b.ref, t);
    opLabels(ctx, b);
    size_t filled = 0;
    for (auto& o : b.objs) filled += o.r->kids.size() > 1;
    for (auto& a : b.arrs) filled += a.r->kids.size() > 1;
    if (filled >= 2) ctx.nontrivial(hashStr(ctx.notes));
    // The model can be reset and used again.
    if (t.chance(1, 4)) {
        pool->clear();
        REQUIRE_P(pool->numRoots() == 0 && pool->toJson().empty(), "content after clear()");
        Builder c(pool); c.ref.names = b.ref.names;
        c.run(t, 10);
        c.addRoot(c.anyNode(t));
        checkAll(*pool, c.ref, t);
    }
}

// ------------------------------------------------------------------ C22
struct El { int32_t a = 7; int16_t b = 9; El() = default; El(int32_t x, int16_t y) : a(x), b(y) {} bool operator==(const El& o) const { return a == o.a && b == o.b; }
    template <class S> void serialize(S& s) { s.value4b(a); s.value2b(b); } };
template <size_t P, size_t C>
void arenaT(Tape& t, Ctx& ctx) {
    using Arena = ArrayArena<El, P, C>;
    auto arena = std::make_unique<Arena>();
    std::vector<std::vector<El>> ref;
    int32_t serial = 0;
    auto verifyOne = [&](Arena& A, const std::vector<std::vector<El>>& R, ArrayIndex i) {
        const Arena& cA = A;
        auto& r = R[i];
        auto at = [&] { return "array " + std::to_string(i) + " of " + std::to_string(R.size()) + ", "; };
        REQUIRE_P(A.size(i) == r.size(), at() << "size " << A.size(i) << " instead of " << r.size());
        for (size_t k = 0; k < r.size(); ++k) {
            REQUIRE_P(A.at(i, k) == r[k], at() << "element " << k << " is " << A.at(i, k).a << " instead of " << r[k].a);
            REQUIRE_P(cA.at(i, k) == r[k], at() << "const element " << k);
        }
        for (size_t k : {r.size(), r.size() + 1, r.size() + 2, r.size() * 2 + 3, size_t(1) << 33, ~size_t(0)}) {
            bool a = false, b = false;
            try { A.at(i, k); } catch (const std::out_of_range&) { a = true; }
            try { cA.at(i, k); } catch (const std::out_of_range&) { b = true; }
            REQUIRE_P(a && b, at() << "at(" << k << ") of " << r.size() << " elements does not raise out_of_range");
        }
        size_t k = 0;
        auto step = [&](const El& e, const char* what) { REQUIRE_P(k < r.size() && e == r[k], at() << what << ", step " << k << ": " << e.a); ++k; };
        auto done = [&](const char* what) { REQUIRE_P(k == r.size(), at() << what << " visited " << k << " of " << r.size()); k = 0; };
        for (auto it = A.begin(i); it != A.end(i); ++it) step(*it, "begin/end");
        done("begin/end");
        for (auto it = cA.begin(i); it != cA.end(i); ++it) step(*it, "const begin/end");
        done("const begin/end");
        REQUIRE_P(A.begin(i) == A.begin(i) && (A.begin(i) == A.end(i)) == r.empty(), at() << "comparing iterators");
        if (R.size() > 1) { auto o = ArrayIndex(t.below(R.size())); REQUIRE_P((A.begin(i) == A.begin(o)) == (i == o) && (A.end(i) != A.end(o)) == (i != o), at() << "comparing iterators with those of array " << o); }
        auto rg = A.range(i);
        REQUIRE_P(rg.size() == r.size(), at() << "range size");
        for (auto& e : rg) step(e, "range");
        done("range");
        if (!r.empty()) { auto j = t.below(r.size()); REQUIRE_P(rg[j] == r[j], at() << "range[" << j << "]"); }
        A.iterate(i, [&](El& e) { step(e, "iterate"); });
        done("iterate");
        A.iterate(i, [&](El& e, size_t n) { REQUIRE_P(n == k, at() << "iterate index " << n << " instead of " << k); step(e, "iterate with index"); });
        done("iterate with index");
        A.iterate(i, [&](El& e) { step(e, "iterate bool"); return true; });
        done("iterate bool");
        if (!r.empty()) {
            auto stop = t.below(r.size());
            A.iterate(i, [&](El& e) { step(e, "iterate stop"); return k <= stop; });
            REQUIRE_P(k == stop + 1, at() << "iterate told to stop after " << stop + 1 << " visited " << k);
        }
    };
    auto verifyAll = [&](Arena& A, const std::vector<std::vector<El>>& R) {
        REQUIRE_P(A.size() == R.size(), "arena has " << A.size() << " arrays instead of " << R.size());
        for (size_t i = 0; i < R.size(); ++i) verifyOne(A, R, ArrayIndex(i));
        size_t i = 0;
        for (auto it = A.begin(); !(it == A.end()); ++it, ++i) {
            REQUIRE_P(i < R.size(), "iteration over arrays beyond the end");
            auto rg = *it; size_t k = 0;
            REQUIRE_P(rg.size() == R[i].size(), "size of array " << i << " when iterating");
            for (auto& e : rg) { REQUIRE_P(k < R[i].size() && e == R[i][k], "element when iterating over arrays"); ++k; }
            REQUIRE_P(k == R[i].size(), "array " << i << " visited " << k << " of " << R[i].size());
            k = 0;
            for (auto& e : it) { REQUIRE_P(k < R[i].size() && e == R[i][k], "element when iterating over an arena iterator"); ++k; }
            REQUIRE_P(k == R[i].size(), "array " << i << " visited " << k);
        }
        REQUIRE_P(i == R.size(), "iteration visited " << i << " arrays of " << R.size());
    };
    auto steps = 10 + t.below(ctx.thorough ? 300 : 100);
    bool huge = t.chance(1, 12);
    std::ostringstream log;
    for (size_t s = 0; s < steps; ++s) {
        switch (t.weighted({12, 12, 4, 6, 2, 1, 1, 1, 2, 3})) {
        case 0: case 1: {
            if (ref.empty()) break;
            auto i = (ArrayIndex)t.below(ref.size());
            size_t n = t.chance(1, 10) ? 1 + t.below(60) : 1;
            // Past the sizes of pages, chunk tables and narrow integers.
            if (huge && n > 30 && t.chance(1, 3)) {
                huge = false;
                switch (t.weighted({4, 3, 1})) { case 0: n = 300 + t.below(700); break; case 1: n = 1000 + t.below(9000); break; default: n = 10000 + t.below(60000); }
                ctx.label("append thousands");
            }
            for (size_t k = 0; k < n; ++k) {
                El e{++serial, int16_t(serial * 3)};
                El* got;
                if (n > 60 ? k & 1 : t.flip()) got = &arena->push_back(i, e); else got = &arena->emplace_back(i, e.a, e.b);
                REQUIRE_P(*got == e, "returned element");
                ref[i].push_back(e);
                REQUIRE_P(&arena->at(i, ref[i].size() - 1) == got, "the returned reference is the appended element of array " << i);
            }
            log << "append(" << i << ", x" << n << ") ";
            ctx.label(n > 1 ? "append many" : "append");
            break; }
        case 2: case 3: {
            auto cap = t.chance(1, 60) ? 41 + t.below(3000) : t.oneOf<size_t>({2, 0, 1, 3, 4, 5, 8, 17, 40});
            auto i = arena->new_array(cap);
            REQUIRE_P(i == (ArrayIndex)ref.size(), "index of a new array is " << i);
            ref.emplace_back();
            log << "new(" << cap << ") ";
            ctx.label("new");
            break; }
        case 4: { // write through a reference
            if (ref.empty()) break;
            auto i = t.below(ref.size());
            if (ref[i].empty()) break;
            auto k = t.below(ref[i].size());
            El e{++serial, 1};
            arena->at(i, k) = e; ref[i][k] = e;
            log << "set(" << i << "," << k << ") ";
            ctx.label("write");
            break; }
        case 5: if (!t.chance(1, 3)) break;
            arena->clear(); ref.clear(); log << "clear "; ctx.label("clear"); break;
        case 6: arena->shrink_to_fit(); log << "shrink "; ctx.label("shrink"); break;
        case 7: { // copy: both stay usable, independently
            auto copy = std::make_unique<Arena>(*arena);
            auto r2 = ref;
            verifyAll(*copy, r2);
            for (size_t i = 0; i < ref.size(); ++i) { El e{++serial, 2}; arena->push_back(ArrayIndex(i), e); ref[i].push_back(e); }
            verifyAll(*copy, r2);
            for (size_t i = 0; i < r2.size(); ++i) { El e{++serial, 3}; copy->push_back(ArrayIndex(i), e); r2[i].push_back(e); }
            verifyAll(*copy, r2);
            if (t.flip()) { arena = std::move(copy); ref = r2; }
            log << "copy "; ctx.label("copy");
            break; }
        case 8: { // serialize
            std::stringstream st(std::ios::in | std::ios::out | std::ios::binary);
            { bitsery::Serializer<bitsery::OutputStreamAdapter> ser(st); ser.ext(*arena, bitsery::ext::ArrayArenaExt{}); }
            auto fresh = std::make_unique<Arena>();
            bitsery::Deserializer<bitsery::InputStreamAdapter> des(st);
            des.ext(*fresh, bitsery::ext::ArrayArenaExt{});
            REQUIRE_P(des.adapter().error() == bitsery::ReaderError::NoError, "deserialization failed");
            verifyAll(*fresh, ref);
            if (t.flip()) arena = std::move(fresh);
            log << "serialize "; ctx.label("serialize");
            break; }
        default: { // append an element of the arena itself
            if (ref.empty()) break;
            auto i = t.below(ref.size()), j = t.below(ref.size());
            if (ref[j].empty()) break;
            auto k = t.below(ref[j].size());
            auto e = ref[j][k];
            arena->push_back((ArrayIndex)i, arena->at((ArrayIndex)j, k));
            ref[i].push_back(e);
            log << "append(" << i << ", [" << j << "][" << k << "]) ";
            ctx.label("append own element");
            break; }
        }
        ctx.evaluation();
        if (t.chance(1, 6) && !ref.empty()) verifyOne(*arena, ref, (ArrayIndex)t.below(ref.size()));
    }
    ctx.note(log.str());
    verifyAll(*arena, ref);
    size_t grown = 0; for (auto& r : ref) grown += r.size() > 3;
    if (grown >= 2) ctx.nontrivial(log.str());
}
void arena(Tape& t, Ctx& ctx) {
    switch (t.below(4)) {
    case 0: return arenaT<4096, 4096>(t, ctx);
    case 1: return arenaT<4, 2>(t, ctx);
    case 2: return arenaT<2, 4>(t, ctx);
    default: return arenaT<16, 8>(t, ctx);
    }
}

// ------------------------------------------------------------------ C24
std::string bytesOf(ModelPool& p) { std::ostringstream o(std::ios::binary); p.write(o); return o.str(); }
void serialization(Tape& t, Ctx& ctx) {
    auto pool = std::make_shared<ModelPool>();
    Builder b(pool);
    b.ctx = &ctx;
    bool bulk = t.chance(1, 1200);
    if (bulk) { b.bulk(t); b.run(t, 3); ctx.label("many elements"); }
    else b.run(t, 3 + t.below(t.chance(1, 40) ? 400 : 50));
    auto nRoots = t.below(4);
    for (size_t i = 0; i < nRoots; ++i) b.addRoot(b.anyNode(t));
    auto bytes = bytesOf(*pool);
    REQUIRE_P(bytes == bytesOf(*pool), "writing twice gives different bytes");
    ctx.note("serialized: " + std::to_string(bytes.size()) + " bytes\n");
    auto names = pool->strings();
    if (t.flip()) { // the strings make the same way
        std::stringstream s(std::ios::in | std::ios::out | std::ios::binary);
        names->write(s, 0);
        names = std::make_shared<StringPool>();
        names->read(s);
        ctx.label("strings transferred");
    }
    auto round = 1 + t.below(3);
    std::shared_ptr<ModelPool> last = pool;
    for (size_t i = 0; i < round; ++i) {
        auto next = std::make_shared<ModelPool>(names);
        if (t.chance(1, 4)) { next->newArray(3)->append(int64_t(1) << 40).append(0.5); next->addRoot(next->newValue(0.5)); next->newObject(1)->addField("a", int64_t(5)); next->clear(); ctx.label("into a cleared model"); }
        std::istringstream in(bytesOf(*last), std::ios::binary);
        auto err = raises([&] { next->read(in); });
        REQUIRE_P(!err, "reading what was written raised: " << *err);
        last = next;
        ctx.evaluation();
    }
    auto original = pool->toJson();
    pool.reset();
    checkAll(*last, b.ref, t);
    REQUIRE_P(same(original, last->toJson()), "the read model is " << brief(last->toJson()) << " instead of " << brief(original));
    REQUIRE_P(bytes == bytesOf(*last), "the bytes written by the read model differ");
    auto errs = last->checkForErrors();
    REQUIRE_P(errs.empty(), "the read model has errors: " << errs[0]);
    // Every node keeps its address, whether a root leads to it or not.
    auto verify = [&](const RN& r, const std::string& what) {
        size_t budget = 3;
        auto n = Ptr::make(last, [&] { ModelNodeAddress a; a.value_ = *r.addr; return a; }());
        check(*last, *n, r, b.ref.names, t, budget, what);
    };
    for (auto& r : b.ref.nodes) if (r.addr) verify(r, "node at " + std::to_string(*r.addr));
    // The read model can be built upon.
    Builder c(last);
    c.ref.names = b.ref.names;
    c.run(t, 6);
    for (auto& r : b.ref.nodes) if (r.addr && r.kids.size() < 30) verify(r, "node after more building at " + std::to_string(*r.addr));
    for (auto& o : c.objs) { size_t k = 3; check(*last, *o.h, *o.r, c.ref.names, t, k, "new object"); }
    for (auto& a : c.arrs) { size_t k = 3; check(*last, *a.h, *a.r, c.ref.names, t, k, "new array"); }
    // Cut off anywhere.
    std::vector<size_t> cuts;
    if (bytes.size() <= 48) for (size_t i = 0; i < bytes.size(); ++i) cuts.push_back(i);
    else for (int i = 0; i < (bulk ? 5 : 24); ++i) cuts.push_back(i < 4 ? bytes.size() - 1 - i : t.below(bytes.size()));
    for (auto n : cuts) {
        auto p = std::make_shared<ModelPool>(names);
        std::istringstream in(bytes.substr(0, n), std::ios::binary);
        REQUIRE_P(raises([&] { p->read(in); }), "input cut off after " << n << " of " << bytes.size() << " bytes is accepted");
        ctx.evaluation();
    }
    ctx.label("cut off"); 
    // Damaged anywhere: no crash, and what passes the checks can be used.
    auto raw = decode(bytes);
    REQUIRE_P(true, "");
    if (raw.complete && encode(raw) == bytes) {
        for (int k = 0; k < (bulk ? 2 : 12); ++k) {
            auto m = bytes;
            auto flips = 1 + t.below(3);
            for (size_t f = 0; f < flips; ++f) {
                auto p = t.below(m.size());
                switch (t.below(4)) {
                case 0: m[p] = char(t.below(256)); break;
                case 1: m[p] = char(m[p] ^ (1 << t.below(8))); break;
                case 2: m[p] = char(m[p] + (t.flip() ? 1 : -1)); break;
                default: if (t.flip()) m.erase(p, 1); else m.insert(p, 1, char(t.below(256)));
                }
                if (m.empty()) break;
            }
            auto d = decode(m);
            if (d.demand > 200000) continue; // would only exercise the allocator
            auto p = std::make_shared<ModelPool>(names);
            std::istringstream in(m, std::ios::binary);
            ctx.evaluation();
            if (raises([&] { p->read(in); })) { ctx.label("damaged: rejected"); continue; }
            if (!d.complete || !d.acyclic()) { ctx.label("damaged: accepted, not walked"); continue; }
            bool ranges = true;
            for (auto& [o, l] : d.strs) if (uint64_t(o) + l > d.text.size()) ranges = false;
            auto errors = p->checkForErrors();
            ctx.label(errors.empty() ? "damaged: accepted, consistent" : "damaged: accepted, errors reported");
            if (errors.empty() && ranges) (void)p->toJson();
        }
        ctx.label("damaged");
    } else ctx.label("format unknown");
    size_t filled = 0;
    for (auto& r : b.ref.nodes) filled += r.kids.size() > 1;
    if (filled >= 2) ctx.nontrivial(bytes);
}

// ------------------------------------------------------------------ C25
void errorsFound(Tape& t, Ctx& ctx) {
    auto pool = std::make_shared<ModelPool>();
    Builder b(pool);
    b.ctx = &ctx;
    b.cap = 120;
    if (t.chance(1, 1500)) { b.bulk(t); ctx.label("many elements"); }
    b.run(t, 4 + t.below(40));
    if (t.chance(1, 30)) { b.run(t, 50 + t.below(400)); ctx.label("long history"); }
    for (size_t i = t.below(3); i > 0; --i) b.addRoot(b.anyNode(t));
    auto e = pool->checkForErrors();
    REQUIRE_P(e.empty(), "a well-formed model has errors: " << e[0]);
    auto err = raises([&] { pool->validate(); });
    REQUIRE_P(!err, "validate() of a well-formed model: " << *err);
    ctx.evaluation();
    auto raw = decode(bytesOf(*pool));
    if (t.chance(1, 3) && raw.complete && encode(raw) == bytesOf(*pool)) {
        // One reference of the serialized model is bent.
        struct Slot { int kind; size_t i, j; };
        std::vector<Slot> slots;
        for (size_t i = 0; i < raw.roots.size(); ++i) slots.push_back({0, i, 0});
        for (size_t i = 0; i < raw.objs.size(); ++i) for (size_t j = 0; j < raw.objs[i].size(); ++j) { slots.push_back({1, i, j}); slots.push_back({2, i, j}); }
        for (size_t i = 0; i < raw.arrs.size(); ++i) for (size_t j = 0; j < raw.arrs[i].size(); ++j) slots.push_back({3, i, j});
        if (slots.empty()) return;
        auto s = t.pick(slots);
        auto bad = [&]() -> uint32_t {
            auto beyond = [&](size_t n) { return uint32_t(t.flip() ? n : n + t.below(1000)); };
            switch (t.below(6)) {
            case 0: return beyond(raw.objs.size()) << 8 | 5;
            case 1: return beyond(raw.arrs.size()) << 8 | 6;
            case 2: return beyond(raw.i64.size()) << 8 | 7;
            case 3: return beyond(raw.dbl.size()) << 8 | 8;
            case 4: return beyond(raw.strs.size()) << 8 | 9;
            default: return uint32_t(t.below(2) << 8) | uint32_t(t.range(10, 255));
            }
        };
        std::string what;
        if (s.kind == 1) {
            uint16_t id = t.flip() ? uint16_t(pool->strings()->highest() + 1 + t.below(100)) : uint16_t(t.range(4, 127));
            raw.objs[s.i][s.j].first = id;
            what = "name " + std::to_string(id) + " in object " + std::to_string(s.i);
            ctx.label("name");
        } else {
            auto a = bad();
            what = "reference to column " + std::to_string(a & 0xff) + " index " + std::to_string(a >> 8);
            ctx.label("column " + std::to_string((a & 0xff) > 9 ? 10 : a & 0xff));
            (s.kind == 0 ? raw.roots[s.i] : s.kind == 2 ? raw.objs[s.i][s.j].second : raw.arrs[s.i][s.j]) = a;
            what += s.kind == 0 ? " as a root" : s.kind == 2 ? " in object " + std::to_string(s.i) : " in array " + std::to_string(s.i);
            ctx.label(s.kind == 0 ? "at root" : s.kind == 2 ? "in object" : "in array");
        }
        ctx.note("serialized, with " + what + "\n");
        auto p = std::make_shared<ModelPool>(pool->strings());
        std::istringstream in(encode(raw), std::ios::binary);
        p->read(in);
        auto found = p->checkForErrors();
        REQUIRE_P(!found.empty(), "undetected: " << what);
        REQUIRE_P(raises([&] { p->validate(); }), "validate() passes with " << what);
        ctx.nontrivial(what + ctx.notes);
        return;
    }
    // Through the API: a node that does not exist is added somewhere.
    ModelNodeAddress a;
    switch (t.below(6)) {
    case 0: a = {ModelPool::Objects, uint32_t(raw.objs.size() + (t.flip() ? 0 : 5000 + t.below(100)))}; break;
    case 1: a = {ModelPool::Arrays, uint32_t(raw.arrs.size() + (t.flip() ? 0 : 5000 + t.below(100)))}; break;
    case 2: a = {ModelPool::Int64, uint32_t(raw.i64.size() + (t.flip() ? 0 : 5000 + t.below(100)))}; break;
    case 3: a = {ModelPool::Double, uint32_t(raw.dbl.size() + (t.flip() ? 0 : 5000 + t.below(100)))}; break;
    case 4: a = {ModelPool::String, uint32_t(raw.strs.size() + (t.flip() ? 0 : 5000 + t.below(100)))}; break;
    default: a = {uint8_t(t.range(10, 255)), uint32_t(t.below(2))};
    }
    auto bad = Ptr::make(pool, a);
    std::string where;
    auto kind = t.below(3);
    if (kind == 0 && !b.objs.empty()) { auto& o = t.pick(b.objs); o.h->addField(b.key(t), bad); where = "field of object " + std::to_string(o.h->addr().index()); ctx.label("in object"); }
    else if (kind == 1 && !b.arrs.empty()) { auto& x = t.pick(b.arrs); x.h->append(bad); where = "element of array " + std::to_string(x.h->addr().index()); ctx.label("in array"); }
    else { pool->addRoot(bad); where = "root"; ctx.label("at root"); }
    // More proper content behind it does not hide it.
    auto after = t.below(6);
    for (size_t i = 0; i < after; ++i) {
        if (!b.objs.empty()) t.pick(b.objs).h->addField(b.key(t), int64_t(i));
        if (!b.arrs.empty()) t.pick(b.arrs).h->append(int64_t(i));
    }
    // References to what was the next free slot must stay dangling.
    ctx.note("bad node (column " + std::to_string(a.column()) + ", index " + std::to_string(a.index()) + ") as " + where + "\n");
    ctx.label("column " + std::to_string(a.column() > 9 ? 10 : a.column()));
    auto found = pool->checkForErrors();
    REQUIRE_P(!found.empty(), "undetected: bad node (column " << int(a.column()) << ", index " << a.index() << ") as " << where);
    REQUIRE_P(raises([&] { pool->validate(); }), "validate() passes");
    ctx.nontrivial(where + ctx.notes);
}

// ------------------------------------------------------------------ C26
std::vector<std::string> evalAll(const std::shared_ptr<ModelPool>& m, const std::string& q) {
    std::vector<std::string> out;
    Environment env(m->strings());
    auto ast = compile(env, q, false);
    for (auto& v : eval(env, *ast, *m->root(0))) out.push_back(std::string(valueType2String(v.type)) + ":" + v.toString());
    return out;
}
void replaceStrings(Tape& t, Ctx& ctx) {
    std::vector<std::string> pre;
    auto pool = t.flip() ? std::make_shared<ModelPool>() : std::make_shared<ModelPool>(seededPool(t, pre, kNames));
    Builder b(pool);
    for (auto& s : pre) b.ref.names.add(s);
    b.ctx = &ctx;
    b.run(t, 4 + t.below(40));
    if (t.chance(1, 30)) { b.run(t, 50 + t.below(400)); ctx.label("long history"); }
    b.addRoot(b.anyNode(t));
    if (t.chance(1, 1500)) { b.bulk(t); ctx.label("many elements"); }
    for (size_t i = t.below(3); i > 0; --i) b.addRoot(b.anyNode(t));
    // A second model shares the old strings; it must not notice.
    std::shared_ptr<ModelPool> other;
    nlohmann::json otherJson;
    if (t.chance(1, 3)) {
        other = std::make_shared<ModelPool>(pool->strings());
        auto o = other->newObject(2);
        for (auto& [low, name] : b.ref.names.first) o->addField(name, std::string_view(low));
        other->addRoot(o);
        otherJson = other->toJson();
    }
    auto rounds = 1 + t.below(3);
    for (size_t r = 0; r < rounds; ++r) {
        std::vector<std::string> added;
        std::shared_ptr<StringPool> target;
        switch (t.weighted({2, 5, 1, 1})) {
        case 0: target = std::make_shared<StringPool>(); ctx.label("empty pool"); break;
        case 1: target = seededPool(t, added, kNames); ctx.label("other pool"); break;
        case 2: { // a copy, grown
            target = std::make_shared<StringPool>(*pool->strings());
            for (auto& [low, name] : b.ref.names.first) added.push_back(name);
            auto n = t.below(4);
            for (size_t i = 0; i < n; ++i) { auto s = "grown" + std::to_string(t.below(20)); target->emplace(s); added.push_back(s); }
            ctx.label("copy"); break; }
        default: { // the same names in other spelling and the same order of ids
            target = std::make_shared<StringPool>();
            for (uint32_t id = 128; id <= pool->strings()->highest(); ++id)
                if (auto s = pool->strings()->resolve(StringId(id))) { auto v = caseVariant(t, std::string(*s)); target->emplace(v); added.push_back(v); }
            ctx.label("respelled"); }
        }
        std::string list; for (auto& s : added) list += quote(s) + " ";
        ctx.note("setStrings(pool with " + list + ")\n");
        // Expected names: the target's spelling wins.
        Names names;
        for (auto& s : added) names.add(s);
        std::set<std::string> used;
        for (auto& n : b.ref.nodes) for (auto& [k, v] : n.kids) if (n.t == mref::T::Obj) used.insert(k);
        for (auto& k : used) names.first.emplace(k, b.ref.names.of(k));
        pool->setStrings(target);
        ctx.evaluation();
        REQUIRE_P(pool->strings() == target, "strings() is not the pool that was set");
        // Names that are not used by the model need not be known to the new pool.
        b.ref.names = names;
        checkAll(*pool, b.ref, t);
        for (auto& o : b.objs) { size_t k = 3; check(*pool, *o.h, *o.r, b.ref.names, t, k, "object"); }
        auto errs = pool->checkForErrors();
        REQUIRE_P(errs.empty(), "errors after setStrings: " << errs[0]);
        if (other) REQUIRE_P(same(otherJson, other->toJson()), "another model with the old strings changed: " << brief(other->toJson()));
        // Building goes on with the new names.
        b.run(t, 3);
        checkAll(*pool, b.ref, t);
        // Queries by name.
        if (b.ref.roots[0]->t == mref::T::Obj && !b.ref.roots[0]->kids.empty()) {
            auto& k = t.pick(b.ref.roots[0]->kids).first;
            bool word = !k.empty() && k.find_first_not_of("abcdefghijklmnopqrstuvwxyz0123456789") == std::string::npos && k[0] > '9';
            if (word) {
                const RN* first = nullptr;
                for (auto& [kk, v] : b.ref.roots[0]->kids) if (kk == k) { first = v; break; }
                auto got = evalAll(pool, "typeof _." + caseVariant(t, k));
                static const char* tn[] = {"null", "bool", "int", "float", "string", "model", "model"};
                if (k != "typeof") { REQUIRE_P(got.size() == 1 && got[0] == std::string("string:") + tn[(int)first->t], "query for " << k << " gives " << (got.empty() ? "nothing" : got[0])); ctx.label("query"); }
            }
        }
    }
    REQUIRE_P(raises([&] { pool->setStrings(nullptr); }), "setStrings(nullptr)");
    size_t fields = 0;
    for (auto& n : b.ref.nodes) if (n.t == mref::T::Obj) fields += n.kids.size();
    if (fields > 2) ctx.nontrivial(ctx.notes);
    opLabels(ctx, b);
}

// ------------------------------------------------------------------ C32
struct Proc final : ProceduralObject<2, Proc> {
    template <typename> friend struct ::simfil::model_ptr;
    void add(StringId id, std::function<ModelNode::Ptr(Proc const&)> f) { fields_.emplace_back(id, std::move(f)); }
    static model_ptr<Proc> with(ModelConstPtr p, ModelNodeAddress a) { return model_ptr<Proc>::make((ArrayIndex)a.index(), std::move(p), a); }
    static model_ptr<Proc> without(ModelConstPtr p, ModelNodeAddress a) { return model_ptr<Proc>::make(std::move(p), a); }
    using ProceduralObject::ProceduralObject;
    Proc() = default;
};
void procedural(Tape& t, Ctx& ctx) {
    auto pool = std::make_shared<ModelPool>();
    Builder b(pool);
    b.ctx = &ctx;
    b.run(t, 3 + t.below(25));
    if (b.objs.empty()) { b.objs.push_back({pool->newObject(2), b.ref.mk(mref::T::Obj)}); }
    auto* chosen = &t.pick(b.objs);
    if (chosen->r->kids.empty()) for (auto& o : b.objs) if (!o.r->kids.empty()) { chosen = &o; break; }
    auto base = *chosen;
    bool stored = t.chance(3, 4);
    auto p = stored ? Proc::with(pool, base.h->addr()) : Proc::without(pool, {ModelPool::Objects, base.h->addr().index()});
    auto n = t.size(6);
    RN view; view.t = mref::T::Obj;
    std::vector<int> calls(n, 0);
    bool wrongThis = false;
    const Proc* self = &*p;
    for (size_t i = 0; i < n; ++i) {
        auto k = b.key(t);
        auto v = b.anyNode(t);
        auto id = pool->strings()->emplace(k);
        b.ref.names.add(k);
        p->add(id, [&calls, &wrongThis, self, i, h = v.h](Proc const& me) { ++calls[i]; if (&me != self) wrongThis = true; return h; });
        view.kids.emplace_back(lower(k), v.r);
        ctx.note("procedural field " + quote(k) + " = " + describe(*v.r, b.ref.names) + "\n");
    }
    if (stored) for (auto& f : base.r->kids) view.kids.push_back(f);
    ctx.note(std::string("stored fields: ") + (stored ? describe(*base.r, b.ref.names) : "none") + "\n");
    if (!stored) ctx.label("no stored fields");
    // The address may be that of a stored object, so no second look through the pool: nodes reached
    // through check() below the first level are ordinary ones.
    auto& names = b.ref.names;
    const ModelNode& node = *p;
    auto sz = (int64_t)view.kids.size();
    REQUIRE_P(node.type() == ValueType::Object, "type");
    REQUIRE_P(node.size() == view.kids.size(), "size is " << node.size() << " instead of " << view.kids.size());
    auto nodeIs = [&](const Ptr& c, const RN& r, const std::string& what) {
        REQUIRE_P(bool(c), what << " is missing");
        size_t k = 3; check(*pool, *c, r, names, t, k, what);
    };
    for (int64_t i = 0; i < sz; ++i) {
        nodeIs(node.at(i), *view.kids[i].second, "at(" + std::to_string(i) + ")");
        auto name = pool->lookupStringId(node.keyAt(i));
        REQUIRE_P(name && lower(std::string(*name)) == view.kids[i].first, "keyAt(" << i << ")");
    }
    for (int64_t i : {int64_t(-1), sz, sz + 1, -sz - 1, INT64_MAX, INT64_MIN}) {
        REQUIRE_P(!node.at(i), "at(" << i << ") of " << sz << " fields");
        REQUIRE_P(node.keyAt(i) == 0, "keyAt(" << i << ") of " << sz << " fields");
    }
    for (auto& [low, name] : names.first) {
        const RN* first = nullptr;
        for (auto& [k, v] : view.kids) if (k == low) { first = v; break; }
        auto id = pool->strings()->get(name);
        if (first) nodeIs(node.get(id), *first, "get(" + quote(name) + ")");
        else REQUIRE_P(!node.get(id), "get(" << quote(name) << ") of a name that is no field");
        auto byName = p->get(pool->strings()->get(caseVariant(t, name)));
        REQUIRE_P(bool(byName) == (first != nullptr), "get by name " << quote(name));
    }
    size_t i = 0;
    bool all = node.iterate(ModelNode::IterLambda([&](auto&& c) {
        REQUIRE_P(i < view.kids.size(), "iterate beyond the end");
        size_t k = 2; check(*pool, c, *view.kids[i].second, names, t, k, "iterate " + std::to_string(i));
        ++i; return true;
    }));
    REQUIRE_P(all && i == view.kids.size(), "iterate visited " << i << " of " << sz);
    if (sz) {
        size_t stop = t.below(sz); i = 0;
        all = node.iterate(ModelNode::IterLambda([&](auto&&) { return i++ < stop; }));
        REQUIRE_P(!all && i == stop + 1, "iterate told to stop after " << stop + 1 << " visited " << i);
    }
    i = 0;
    for (auto [f, c] : node.fields()) {
        REQUIRE_P(i < view.kids.size(), "fields beyond the end");
        auto name = pool->lookupStringId(f);
        REQUIRE_P(name && lower(std::string(*name)) == view.kids[i].first, "fields, name " << i);
        nodeIs(c, *view.kids[i].second, "fields, value " + std::to_string(i));
        ++i;
    }
    REQUIRE_P(i == view.kids.size(), "fields visited " << i);
    i = 0;
    for (auto c : node) { nodeIs(c, *view.kids[i].second, "range-for " + std::to_string(i)); ++i; }
    REQUIRE_P(i == view.kids.size(), "range-for visited " << i);
    auto want = toJson(view, names), got = node.toJson();
    if (expanded(view, 3000) < 3000) REQUIRE_P(same(want, got), "JSON is " << brief(got) << " instead of " << brief(want));
    for (size_t k = 0; k < n; ++k) REQUIRE_P(calls[k] > 0, "field " << k << " was never computed");
    REQUIRE_P(!wrongThis, "the computed fields are given another object");
    ctx.label("procedural");
    if (n && stored && !base.r->kids.empty()) ctx.nontrivial(ctx.notes);
}
std::string scalarText(const ScalarValueType& v) {
    std::ostringstream o;
    std::visit([&](auto&& x) {
        using X = std::decay_t<decltype(x)>;
        if constexpr (std::is_same_v<X, std::monostate>) o << "null";
        else if constexpr (std::is_same_v<X, double>) { uint64_t u; std::memcpy(&u, &x, 8); o << "f" << (std::isnan(x) ? 1 : u); }
        else if constexpr (std::is_same_v<X, bool>) o << (x ? "true" : "false");
        else if constexpr (std::is_same_v<X, int64_t>) o << "i" << x;
        else o << "s" << x;
    }, v);
    return o.str();
}
void overlay(Tape& t, Ctx& ctx) {
    if (t.chance(1, 3)) return procedural(t, ctx);
    auto pool = std::make_shared<ModelPool>();
    Builder b(pool);
    b.ctx = &ctx;
    b.run(t, 3 + t.below(25));
    struct Spec { int kind; Builder::V v; Value val; RN* scalar; };
    std::deque<RN> scalars;
    auto genValue = [&](bool needNode) -> Spec {
        if (needNode || t.flip()) { auto v = b.anyNode(t); return {0, v, Value::field(*v.h), nullptr}; }
        auto& r = scalars.emplace_back();
        switch (t.below(5)) {
        case 0: r.t = mref::T::Int; r.i = genInt(t); return {1, {}, Value::make(int64_t(r.i)), &r};
        case 1: r.t = mref::T::Float; r.d = genDouble(t); return {1, {}, Value::make(double(r.d)), &r};
        case 2: r.t = mref::T::Bool; r.b = t.flip(); return {1, {}, Value::make(bool(r.b)), &r};
        case 3: r.t = mref::T::Str; r.s = genBytes(t); return {1, {}, Value::make(std::string(r.s)), &r};
        default: r.t = mref::T::Null; return {1, {}, Value::null(), &r};
        }
    };
    // Up to three overlays on top of each other; every layer answers for its own names.
    std::vector<Builder::V> full;
    for (auto& o : b.objs) if (!o.r->kids.empty()) full.push_back({Ptr(o.h), o.r});
    auto spec = genValue(t.chance(3, 4));
    if (!full.empty() && t.chance(3, 5)) { auto v = t.pick(full); spec = Spec{0, v, Value::field(*v.h), nullptr}; }
    RN empty;
    const RN* under = spec.kind == 0 ? spec.v.r : &empty;
    auto layers = 1 + t.below(3);
    std::vector<model_ptr<OverlayNode>> ov;
    std::vector<std::map<StringId, Spec>> sets(layers);
    ctx.note("overlay on " + (spec.kind == 0 ? describe(*spec.v.r, b.ref.names) : describe(*spec.scalar, b.ref.names)) + "\n");
    std::vector<std::string> keys;
    for (int i = 0; i < 6; ++i) keys.push_back(b.key(t));
    for (auto& [k, v] : under->kids) if (keys.size() < 12) keys.push_back(k);
    size_t many = t.chance(1, 25) ? 10 + t.below(60) : 0;
    for (size_t i = 0; i < many; ++i) keys.push_back("over" + std::to_string(i));
    for (size_t l = 0; l < layers; ++l) {
        ov.push_back(l == 0 ? model_ptr<OverlayNode>::make(spec.val) : model_ptr<OverlayNode>::make(Value::field(ov.back())));
    }
    for (auto& k : keys) { pool->strings()->emplace(k); b.ref.names.add(k); }
    auto checkOne = [&](const Ptr& c, const Spec& s, const std::string& what) {
        REQUIRE_P(bool(c), what << " is missing");
        if (s.kind == 0) { size_t k = 3; check(*pool, *c, *s.v.r, b.ref.names, t, k, what); return; }
        auto& r = *s.scalar;
        static const ValueType vts[] = {ValueType::Null, ValueType::Bool, ValueType::Int, ValueType::Float, ValueType::String};
        REQUIRE_P(c->type() == vts[(int)r.t], what << ": type " << (int)c->type());
        ScalarValueType want;
        switch (r.t) { case mref::T::Int: want = r.i; break; case mref::T::Float: want = r.d; break; case mref::T::Bool: want = r.b; break; case mref::T::Str: want = r.s; break; default: break; }
        REQUIRE_P(scalarText(want) == scalarText(c->value()), what << ": value " << quote(scalarText(c->value())) << " instead of " << quote(scalarText(want)));
    };
    auto verifyAll = [&](const std::string& what) {
        for (size_t l = 0; l < layers; ++l) {
            // The typed node, and the same node looked up through its address.
            Ptr generic = ov[l];
            for (const ModelNode* n : {(const ModelNode*)&*ov[l], (const ModelNode*)&*generic}) {
                auto at = what + ", layer " + std::to_string(l);
                REQUIRE_P(n->type() == ValueType::Object, at << ": type");
                if (spec.kind == 0) {
                    REQUIRE_P(scalarText(n->value()) == scalarText(spec.v.h->value()) || layers > 1, at << ": value " << quote(scalarText(n->value())));
                } else if (l == 0)
                    REQUIRE_P(scalarText(n->value()) == scalarText(spec.val.getScalar()), at << ": value " << quote(scalarText(n->value())));
                auto sz = (int64_t)under->kids.size();
                REQUIRE_P(n->size() == under->kids.size(), at << ": size is " << n->size() << " instead of " << sz);
                auto lim = std::min<int64_t>(sz, 12);
                for (int64_t i = 0; i < lim; ++i) {
                    auto c = n->at(i);
                    REQUIRE_P(bool(c), at << ": at(" << i << ")");
                    size_t k = 2; check(*pool, *c, *under->kids[i].second, b.ref.names, t, k, at + ": at " + std::to_string(i));
                    if (under->t == mref::T::Obj) REQUIRE_P(lower(std::string(*pool->lookupStringId(n->keyAt(i)))) == under->kids[i].first, at << ": keyAt(" << i << ")");
                }
                for (int64_t i : {int64_t(-1), sz, INT64_MAX}) { REQUIRE_P(!n->at(i), at << ": at(" << i << ")"); REQUIRE_P(n->keyAt(i) == 0, at << ": keyAt(" << i << ")"); }
                for (auto& k : keys) {
                    auto id = pool->strings()->get(k);
                    const Spec* s = nullptr;
                    for (int m = (int)l; m >= 0 && !s; --m) if (auto it = sets[m].find(id); it != sets[m].end()) s = &it->second;
                    auto c = n->get(id);
                    if (s) { checkOne(c, *s, at + ": get(" + quote(k) + ")"); continue; }
                    const RN* f = nullptr;
                    if (under->t == mref::T::Obj) for (auto& [kk, v] : under->kids) if (kk == lower(k)) { f = v; break; }
                    REQUIRE_P(bool(c) == (f != nullptr), at << ": get(" << quote(k) << ") " << (c ? "found" : "did not find") << " something");
                    if (f) { size_t kk = 2; check(*pool, *c, *f, b.ref.names, t, kk, at + ": get " + quote(k)); }
                }
                size_t i = 0;
                bool all = n->iterate(ModelNode::IterLambda([&](auto&& c) {
                    REQUIRE_P(i < under->kids.size(), at << ": iterate beyond the end");
                    size_t k = 1; check(*pool, c, *under->kids[i].second, b.ref.names, t, k, at + ": iterate " + std::to_string(i));
                    ++i; return true; }));
                REQUIRE_P(all && i == under->kids.size(), at << ": iterate visited " << i << " of " << sz);
                if (sz) {
                    size_t stop = t.below(sz); i = 0;
                    all = n->iterate(ModelNode::IterLambda([&](auto&&) { return i++ < stop; }));
                    REQUIRE_P(!all && i == stop + 1, at << ": iterate told to stop visited " << i);
                }
            }
        }
        ctx.evaluation();
    };
    verifyAll("nothing set");
    auto nSets = t.size(8) + 2 * many;
    for (size_t i = 0; i < nSets; ++i) {
        auto l = t.below(layers);
        auto& k = t.pick(keys);
        auto s = genValue(false);
        auto id = pool->strings()->get(k);
        ctx.note("layer " + std::to_string(l) + ": set(" + quote(k) + ", " + (s.kind == 0 ? describe(*s.v.r, b.ref.names) : describe(*s.scalar, b.ref.names)) + ")\n");
        if (sets[l].count(id)) ctx.label("overwrite");
        for (auto& [kk, v] : under->kids) if (kk == lower(k)) { ctx.label("hides a field"); break; }
        ov[l]->set(id, s.val);
        sets[l].insert_or_assign(id, s);
        if (t.chance(1, many ? 20 : 3)) verifyAll("after set " + std::to_string(i));
    }
    verifyAll("finally");
    ctx.label("overlay");
    if (layers > 1) ctx.label("layers");
    if (nSets && !under->kids.empty()) ctx.nontrivial(ctx.notes);
}

PROPERTY({"C20", "Random JSON documents (all number forms, strings over Unicode, repeated and differently spelled keys, deep nesting, several roots) parsed through all entry points; toJson and every accessor must agree with the document as read by nlohmann::json; mutated texts are rejected exactly if they are malformed. Non-trivial: a document with several parts, or a malformed one.", 32000, 320000, jsonRoundTrip});
PROPERTY({"C21", "Random histories of builder calls against a reference graph; after some steps a random node, and at the end every handle and root, is compared through all accessors. Non-trivial: two containers with two or more children.", 24000, 240000, builder});
PROPERTY({"C22", "Random histories on ArrayArena instances of different page sizes against vector<vector<>>, including copies, serialization and self-appends. Non-trivial: two arrays of four or more elements.", 6000, 60000, arena});
PROPERTY({"C24", "Random models (also unreachable nodes) written and read one to three times; content of every node, the bytes and further building compared; all or sampled truncations must raise; damaged bytes must not crash. Non-trivial: two containers with two or more children.", 11000, 160000, serialization});
PROPERTY({"C25", "Random well-formed models must be free of errors; then one reference (root, member, field value, field name) is bent - through the API or in the serialized form - and must be reported. Non-trivial: cases with a bent reference.", 64000, 640000, errorsFound});
PROPERTY({"C26", "Random models with empty, overlapping, respelled or copied target pools, replaced up to three times with more building in between. Non-trivial: the model has more than two fields.", 24000, 240000, replaceStrings});
PROPERTY({"C32", "Overlays (up to three layers) over random nodes and scalars with random set() histories, and procedural objects with and without stored fields, all accessors compared with a reference view. Non-trivial: fields were added to a node that has children.", 64000, 640000, overlay});
} // namespace
