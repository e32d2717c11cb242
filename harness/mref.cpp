#include "mref.h"

namespace mref {
using namespace simfil;

std::string lower(std::string s) {
    for (auto& c : s) if (c >= 'A' && c <= 'Z') c = char(c + 32);
    return s;
}
Names::Names() { for (auto n : {"", "$sum", "$val", "$idx"}) add(n); }

size_t expanded(const RN& n, size_t cap) {
    size_t c = 1;
    for (auto& [k, v] : n.kids) { if (c >= cap) return cap; c += expanded(*v, cap - c); }
    return c;
}
bool reaches(const RN& from, const RN& to) {
    if (&from == &to) return true;
    std::set<const RN*> seen;
    std::vector<const RN*> todo{&from};
    while (!todo.empty()) {
        auto* n = todo.back(); todo.pop_back();
        if (n == &to) return true;
        if (!seen.insert(n).second) continue;
        for (auto& [k, v] : n->kids) todo.push_back(v);
    }
    return false;
}
json toJson(const RN& n, const Names& names) {
    switch (n.t) {
    case T::Null: return nullptr;
    case T::Bool: return n.b;
    case T::Int: return n.i;
    case T::Float: return n.d;
    case T::Str: return n.s;
    case T::Arr: { auto j = json::array(); for (auto& [k, v] : n.kids) j.push_back(toJson(*v, names)); return j; }
    case T::Obj: break;
    }
    std::map<std::string, json> m;
    bool multi = false;
    for (auto& [k, v] : n.kids) {
        auto it = m.try_emplace(names.of(k), json::array()).first;
        if (!it->second.empty()) multi = true;
        it->second.push_back(toJson(*v, names));
    }
    auto j = json::object();
    for (auto& [k, v] : m) j[k] = multi ? v : v[0];
    if (multi) j["_multimap"] = true;
    return j;
}
json rootsJson(const Ref& r) {
    auto j = json::array();
    for (auto* n : r.roots) j.push_back(toJson(*n, r.names));
    return j;
}
bool same(const json& a, const json& b) {
    auto isInt = [](const json& j) { return j.is_number_integer(); };
    if (isInt(a) && isInt(b)) {
        if (a.is_number_unsigned() != b.is_number_unsigned()) {
            auto& u = a.is_number_unsigned() ? a : b; auto& s = a.is_number_unsigned() ? b : a;
            return s.get<int64_t>() >= 0 && u.get<uint64_t>() == (uint64_t)s.get<int64_t>();
        }
        return a == b;
    }
    if (a.type() != b.type()) return false;
    if (a.is_number_float()) {
        auto x = a.get<double>(), y = b.get<double>();
        if (std::isnan(x) || std::isnan(y)) return std::isnan(x) && std::isnan(y);
        return std::memcmp(&x, &y, 8) == 0;
    }
    if (a.size() != b.size()) return false;
    if (a.is_array()) {
        for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false;
        return true;
    }
    if (a.is_object()) {
        for (auto& [k, v] : a.items()) { auto it = b.find(k); if (it == b.end() || !same(v, *it)) return false; }
        return true;
    }
    return a == b;
}
std::string brief(const json& j) {
    auto s = j.dump(-1, ' ', true, json::error_handler_t::replace);
    return s.size() > 600 ? s.substr(0, 600) + "..." : s;
}
std::string describe(const RN& n, const Names& names, int) { return brief(toJson(n, names)); }

static void same(const ScalarValueType& v, const RN& r, const std::string& where) {
    switch (r.t) {
    case T::Bool: REQUIRE_P(std::holds_alternative<bool>(v) && std::get<bool>(v) == r.b, where << ": a bool " << r.b); break;
    case T::Int: REQUIRE_P(std::holds_alternative<int64_t>(v) && std::get<int64_t>(v) == r.i, where << ": the int " << r.i); break;
    case T::Float: {
        REQUIRE_P(std::holds_alternative<double>(v), where << ": the float " << r.d);
        auto d = std::get<double>(v);
        REQUIRE_P((std::isnan(d) && std::isnan(r.d)) || std::memcmp(&d, &r.d, 8) == 0, where << ": the float " << r.d << " is " << d);
        break; }
    case T::Str: {
        std::string s;
        if (auto p = std::get_if<std::string_view>(&v)) s = *p;
        else if (auto p = std::get_if<std::string>(&v)) s = *p;
        else pbt::fail(where + ": no string value, expected " + pbt::quote(r.s));
        REQUIRE_P(s == r.s, where << ": string " << pbt::quote(r.s) << " is " << pbt::quote(s));
        break; }
    default: REQUIRE_P(std::holds_alternative<std::monostate>(v), where << ": no scalar value");
    }
}
static ValueType vt(T t) {
    switch (t) {
    case T::Null: return ValueType::Null; case T::Bool: return ValueType::Bool; case T::Int: return ValueType::Int;
    case T::Float: return ValueType::Float; case T::Str: return ValueType::String;
    case T::Obj: return ValueType::Object; case T::Arr: return ValueType::Array;
    }
    return ValueType::Undef;
}

void check(const ModelPool& pool, const ModelNode& n, const RN& r, const Names& names, pbt::Tape& t, size_t& budget,
           const std::string& where) {
    if (budget == 0) return;
    --budget;
    REQUIRE_P(n.type() == vt(r.t), where << ": type of " << describe(r, names) << " is " << (int)n.type());
    same(n.value(), r, where);
    const bool isObj = r.t == T::Obj;
    REQUIRE_P(n.size() == r.kids.size(), where << ": size of " << describe(r, names) << " is " << n.size());
    auto nameOf = [&](StringId id) -> std::string {
        auto s = pool.lookupStringId(id);
        REQUIRE_P(s.has_value(), where << ": field id " << id << " has no name");
        return std::string(*s);
    };
    auto strings = pool.strings();
    auto sz = int64_t(r.kids.size());
    // Out of range: nothing there.
    for (int64_t i : {int64_t(-1), sz, sz + 1, -sz, int64_t(1) << 32, std::numeric_limits<int64_t>::max(), std::numeric_limits<int64_t>::min()})
        if (i < 0 || i >= sz) {
            REQUIRE_P(!n.at(i), where << ": at(" << i << ") of " << sz << " children");
            REQUIRE_P(n.keyAt(i) == 0, where << ": keyAt(" << i << ") of " << sz << " children");
        }
    // Child by child. Wide nodes are sampled.
    std::vector<size_t> idx;
    if (r.kids.size() <= 24) for (size_t i = 0; i < r.kids.size(); ++i) idx.push_back(i);
    else { idx = {0, r.kids.size() - 1}; for (int i = 0; i < 20; ++i) idx.push_back(t.below(r.kids.size())); }
    for (auto i : idx) {
        auto at = where + "[" + std::to_string(i) + "]";
        auto c = n.at(i);
        REQUIRE_P(bool(c), at << ": no child of " << describe(r, names));
        if (isObj) {
            auto id = n.keyAt(i);
            REQUIRE_P(nameOf(id) == names.of(r.kids[i].first), at << ": key is " << pbt::quote(nameOf(id)) << " in " << describe(r, names));
        } else REQUIRE_P(n.keyAt(i) == 0, at << ": key in an array");
        check(pool, *c, *r.kids[i].second, names, t, budget, at);
    }
    // Each name finds its first field, in any letter case.
    if (isObj) {
        std::set<std::string> done;
        for (auto i : idx) {
            auto& k = r.kids[i].first;
            if (!done.insert(k).second) continue;
            const RN* first = nullptr;
            for (auto& [kk, v] : r.kids) if (kk == k) { first = v; break; }
            auto id = strings->get(caseVariant(t, k));
            REQUIRE_P(k.empty() || id != StringPool::Empty, where << ": name " << pbt::quote(k) << " is not known");
            auto c = n.get(id);
            REQUIRE_P(bool(c), where << ": get(" << pbt::quote(k) << ") of " << describe(r, names));
            size_t one = 1;
            check(pool, *c, *first, names, t, one, where + "." + k);
            if (n.addr().column() == ModelPool::Objects) {
                auto o = pool.resolveObject(Ptr::make(pool.shared_from_this(), n.addr()));
                auto cc = o->get(std::string_view(caseVariant(t, k)));
                REQUIRE_P(cc && cc->addr().value_ == c->addr().value_, where << ": get by name " << pbt::quote(k));
            }
        }
        for (auto& [low, name] : names.first) {
            if (done.count(low) || r.kids.size() > 24) continue;
            REQUIRE_P(!n.get(strings->get(name)), where << ": has no field " << pbt::quote(name) << ": " << describe(r, names));
        }
    } else
        for (auto& [low, name] : names.first) {
            if (names.first.size() > 64 && !t.chance(1, 500)) continue;
            REQUIRE_P(!n.get(strings->get(name)), where << ": not an object, but get(" << pbt::quote(name) << ") found something");
        }
    REQUIRE_P(!n.get(65535), where << ": get of an unknown id");
    // All iterations visit each child once, in order.
    size_t i = 0;
    std::vector<Ptr> kids;
    for (auto c : n) {
        REQUIRE_P(i < r.kids.size(), where << ": range-for beyond " << sz << " children");
        REQUIRE_P(c->type() == vt(r.kids[i].second->t), where << ": range-for, child " << i);
        kids.push_back(c);
        ++i;
    }
    REQUIRE_P(i == r.kids.size(), where << ": range-for visited " << i << " of " << sz);
    i = 0;
    if (isObj) {
        for (auto f : n.fieldNames()) { REQUIRE_P(i < r.kids.size() && nameOf(f) == names.of(r.kids[i].first), where << ": fieldNames, " << i); ++i; }
        REQUIRE_P(i == r.kids.size(), where << ": fieldNames visited " << i << " of " << sz);
        i = 0;
        for (auto [f, c] : n.fields()) {
            REQUIRE_P(i < r.kids.size() && nameOf(f) == names.of(r.kids[i].first), where << ": fields, name " << i);
            REQUIRE_P(c && c->addr().value_ == kids[i]->addr().value_, where << ": fields, value " << i);
            ++i;
        }
        REQUIRE_P(i == r.kids.size(), where << ": fields visited " << i << " of " << sz);
    }
    i = 0;
    bool all = n.iterate(ModelNode::IterLambda([&](auto&& c) {
        REQUIRE_P(i < r.kids.size(), where << ": iterate beyond " << sz << " children");
        REQUIRE_P(c.type() == vt(r.kids[i].second->t), where << ": iterate, child " << i);
        same(c.value(), *r.kids[i].second, where + " iterate " + std::to_string(i));
        REQUIRE_P(c.size() == r.kids[i].second->kids.size(), where << ": iterate, size of child " << i);
        ++i;
        return true;
    }));
    REQUIRE_P(all && i == r.kids.size(), where << ": iterate visited " << i << " of " << sz);
    if (sz > 0) {
        size_t stop = t.below(sz); i = 0;
        all = n.iterate(ModelNode::IterLambda([&](auto&&) { return i++ < stop; }));
        REQUIRE_P(!all && i == stop + 1, where << ": iterate told to stop after " << stop + 1 << " visited " << i << ", returned " << all);
    }
}

void checkAll(const ModelPool& pool, Ref& r, pbt::Tape& t) {
    REQUIRE_P(pool.numRoots() == r.roots.size(), "number of roots is " << pool.numRoots() << " instead of " << r.roots.size());
    for (size_t i = 0; i < r.roots.size(); ++i) {
        if (r.roots.size() > 500 && i + 3 < r.roots.size() && !t.chance(1, 200)) continue;
        size_t budget = 600;
        auto n = pool.root(i);
        check(pool, *n, *r.roots[i], r.names, t, budget, "root " + std::to_string(i));
    }
    bool raised = false;
    try { (void)pool.root(r.roots.size()); } catch (const std::exception&) { raised = true; }
    REQUIRE_P(raised, "root(" << r.roots.size() << ") does not exist");
    size_t total = 0;
    for (auto* x : r.roots) total += expanded(*x, 100000);
    if (total > 4000) return;
    auto want = rootsJson(r), got = pool.toJson();
    REQUIRE_P(same(want, got), "model is " << brief(got) << " instead of " << brief(want));
}

int64_t genInt(pbt::Tape& t) {
    static const int64_t edge[] = {0, 1, -1, 127, 255, 256, -128, 32767, 32768, -32768, -32769, 65535, 65536, -65535, -65536,
        16777215, 16777216, 2147483647, 2147483648LL, -2147483648LL, -2147483649LL, 4294967295LL, 4294967296LL,
        INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, 9007199254740993LL};
    switch (t.weighted({3, 4, 2, 1})) {
    case 0: return t.range(-3, 100);
    case 1: return t.pick(edge);
    case 2: return t.range(-70000, 70000);
    default: return (int64_t)t.u64();
    }
}
double genDouble(pbt::Tape& t) {
    static const double edge[] = {0.0, -0.0, 0.5, 1.0, -1.0, 1e300, -1e-300, 5e-324, 1.7976931348623157e308, 3.0, 9007199254740992.0,
        0.1, 1e21, INFINITY, -INFINITY, NAN};
    switch (t.weighted({3, 3, 1})) {
    case 0: return t.pick(edge);
    case 1: return double(t.range(-100000, 100000)) / 64;
    default: { auto u = t.u64(); double d; std::memcpy(&d, &u, 8); return d; }
    }
}
std::string genBytes(pbt::Tape& t) {
    static const std::string some[] = {"", "a", "abc", "Hello World", "true", "null", "0", std::string("nul\0in", 6), "\xff\xfe", "\xc3\xa4\xe2\x82\xac",
        "line\nbreak\t\"quoted\" \\"};
    switch (t.weighted({5, 3, 1})) {
    case 0: return t.pick(some);
    case 1: { std::string s; auto n = t.size(40); for (size_t i = 0; i < n; ++i) s += char(t.below(256)); return s; }
    default: return std::string(t.below(3000), char('a' + t.below(26)));
    }
}
std::string caseVariant(pbt::Tape& t, const std::string& s) {
    std::string r = s;
    switch (t.below(4)) {
    case 0: break;
    case 1: for (auto& c : r) if (c >= 'a' && c <= 'z') c = char(c - 32); break;
    case 2: r = lower(r); break;
    default:
        for (auto& c : r) if (t.flip()) { if (c >= 'a' && c <= 'z') c = char(c - 32); else if (c >= 'A' && c <= 'Z') c = char(c + 32); }
    }
    return r;
}

std::string Builder::key(pbt::Tape& t) {
    static const std::string some[] = {"a", "b", "name", "Name", "FIELD", "x1", "_", "$sum", "$val", "", "two words", "id", "\xc3\xa4", "B", "ID"};
    switch (t.weighted({12, 3, 1})) {
    case 0: return t.pick(some);
    case 1: return "k" + std::to_string(t.below(40));
    default: {
        if (t.chance(1, 4)) return std::string(t.oneOf<int>({60, 31, 32, 33, 300, 5000}), 'L') + "ong" + std::to_string(t.below(4));
        std::string s; auto n = t.size(20); for (size_t i = 0; i < n; ++i) s += char(t.below(256)); return s; }
    }
}
bool Builder::mayAdd(const RN& parent, const RN& child) const {
    if (child.kids.empty()) return &parent != &child && parent.kids.size() < 400;
    return !reaches(child, parent) && expanded(child, cap) < cap / 4 && expanded(parent, cap) < cap;
}
Builder::V Builder::newVal(pbt::Tape& t) {
    RN* r = nullptr;
    Ptr h;
    switch (t.weighted({3, 2, 2, 2, 1, 1, 1})) {
    case 0: { r = ref.mk(T::Int); r->i = genInt(t); h = pool->newValue(r->i); ++ops["newValue(int)"]; break; }
    case 1: { r = ref.mk(T::Str); r->s = genBytes(t); h = pool->newValue(std::string_view(r->s)); ++ops["newValue(string)"]; break; }
    case 2: { r = ref.mk(T::Float); r->d = genDouble(t); h = pool->newValue(r->d); ++ops["newValue(float)"]; break; }
    case 3: { r = ref.mk(T::Bool); r->b = t.flip(); h = pool->newSmallValue(r->b); ++ops["newSmallValue(bool)"]; break; }
    case 4: { r = ref.mk(T::Int); auto v = (uint16_t)t.oneOf<int>({0, 1, 255, 256, 32767, 32768, 65535, (int)t.below(65536)}); r->i = v; h = pool->newSmallValue(v); ++ops["newSmallValue(uint16)"]; break; }
    case 5: { r = ref.mk(T::Int); auto v = (int16_t)t.oneOf<int>({0, 1, -1, 255, -256, 32767, -32768, (int)t.range(-32768, 32767)}); r->i = v; h = pool->newSmallValue(v); ++ops["newSmallValue(int16)"]; break; }
    default: { r = ref.mk(T::Null); h = Ptr::make(pool, ModelNodeAddress{Model::Null, 1}); ++ops["null"]; break; }
    }
    r->addr = h->addr().value_;
    return {h, r};
}
Builder::V Builder::anyNode(pbt::Tape& t) {
    switch (t.weighted({4, 3, 3})) {
    case 1: if (!objs.empty()) { auto& o = t.pick(objs); return {Ptr(o.h), o.r}; } break;
    case 2: if (!arrs.empty()) { auto& a = t.pick(arrs); return {Ptr(a.h), a.r}; } break;
    default: if (!vals.empty() && t.flip()) return t.pick(vals);
    }
    vals.push_back(newVal(t));
    return vals.back();
}
void Builder::addRoot(const V& v) { pool->addRoot(v.h); ref.roots.push_back(v.r); ++ops["addRoot"]; }

void Builder::bulk(pbt::Tape& t) {
    const auto what = 1 + t.below(31);
    auto value = [&](size_t i, auto&& add) {
        auto* c = ref.mk(i % 3 == 0 ? T::Int : i % 3 == 1 ? T::Float : T::Str);
        if (c->t == T::Int) { c->i = int64_t(i) << 20; add(c->i); }
        else if (c->t == T::Float) { c->d = double(i) / 8; add(c->d); }
        else { c->s = std::to_string(i); add(std::string_view(c->s)); }
        return c;
    };
    if (what & 1) { // a long array
        A x{pool->newArray(t.below(3)), ref.mk(T::Arr)};
        auto n = t.chance(1, 8) ? 66000 + t.below(3000) : 4000 + t.below(16000);
        for (size_t i = 0; i < n; ++i) x.r->kids.emplace_back("", value(i, [&](auto v) { x.h->append(v); }));
        arrs.push_back(x);
        addRoot({Ptr(x.h), x.r});
        log("array of " + std::to_string(n) + " values; "); ++ops["many elements"];
    }
    if (what & 2) { // an object with many fields
        O x{pool->newObject(t.below(3)), ref.mk(T::Obj)};
        auto n = 500 + t.below(4500);
        for (size_t i = 0; i < n; ++i) {
            auto k = "n" + std::to_string(i);
            ref.names.first.emplace(k, k);
            x.r->kids.emplace_back(k, value(i, [&](auto v) { x.h->addField(k, v); }));
        }
        objs.push_back(x);
        addRoot({Ptr(x.h), x.r});
        log("object of " + std::to_string(n) + " fields; "); ++ops["many fields"];
    }
    if (what & 4) { // many small containers
        A x{pool->newArray(t.below(3)), ref.mk(T::Arr)};
        auto n = 3900 + t.below(1500);
        bool more = t.flip();
        for (size_t i = 0; i < n; ++i) {
            if (i % 2) {
                A y{pool->newArray(more ? 0 : 1), ref.mk(T::Arr)};
                for (size_t k = i % 5; k > 0; --k) y.r->kids.emplace_back("", value(i + k, [&](auto v) { y.h->append(v); }));
                x.h->append(Ptr(y.h)); x.r->kids.emplace_back("", y.r);
            } else {
                O y{pool->newObject(more ? 0 : 1), ref.mk(T::Obj)};
                ref.names.first.emplace("a", "a");
                for (size_t k = i % 5; k > 0; --k) y.r->kids.emplace_back("a", value(i + k, [&](auto v) { y.h->addField("a", v); }));
                x.h->append(Ptr(y.h)); x.r->kids.emplace_back("", y.r);
            }
        }
        arrs.push_back(x);
        addRoot({Ptr(x.h), x.r});
        log(std::to_string(n) + " small containers; "); ++ops["many containers"];
    }
    if (what & 8) { // many roots
        auto n = 7900 + t.below(1000);
        for (size_t i = 0; i < n; ++i) {
            auto* c = ref.mk(T::Float);
            c->d = double(i) / 4;
            auto h = pool->newValue(c->d);
            pool->addRoot(h); ref.roots.push_back(c);
        }
        log(std::to_string(n) + " roots; "); ++ops["many roots"];
    }
    if (what & 16) { // long strings, also past 64 kB together and alone
        A x{pool->newArray(t.below(3)), ref.mk(T::Arr)};
        auto n = 2 + t.below(12);
        for (size_t i = 0; i < n; ++i) {
            auto* c = ref.mk(T::Str);
            c->s = std::string(t.chance(1, 4) ? 65530 + t.below(12) : t.below(40000), char('a' + i)) + std::to_string(i);
            x.h->append(std::string_view(c->s)); x.r->kids.emplace_back("", c);
        }
        arrs.push_back(x);
        addRoot({Ptr(x.h), x.r});
        log(std::to_string(n) + " long strings; "); ++ops["long strings"];
    }
    cap = 200000;
}

void Builder::step(pbt::Tape& t, bool allowClear) {
    auto capHint = [&] { return (size_t)t.oneOf<int>({2, 0, 1, 3, 4, 7, 16, 64}); };
    size_t op = t.weighted({10, 10, 6, 3, 3, 2, 2, 2, 1, 1, allowClear ? 1u : 0u});
    if (objs.empty() && (op == 0 || op == 4)) op = 2;
    if (arrs.empty() && (op == 1 || op == 5)) op = 3;
    switch (op) {
    case 0: { // add a field
        auto& o = t.pick(objs);
        auto k = key(t);
        auto low = lower(k);
        RN* c = nullptr;
        switch (t.weighted({3, 1, 1, 1, 2, 2, 2})) {
        case 0: {
            auto v = anyNode(t);
            if (!mayAdd(*o.r, *v.r)) return;
            log("o" + std::to_string(&o - objs.data()) + ".addField(" + pbt::quote(k) + ", node)\n");
            o.h->addField(k, v.h); c = v.r; ++ops["addField(node)"]; break; }
        case 1: { c = ref.mk(T::Bool); c->b = t.flip(); o.h->addBool(k, c->b); ++ops["addBool"]; break; }
        case 2: { c = ref.mk(T::Int); auto v = (uint16_t)t.oneOf<int>({0, 1, 256, 32768, 65535}); c->i = v; o.h->addField(k, v); ++ops["addField(uint16)"]; break; }
        case 3: { c = ref.mk(T::Int); auto v = (int16_t)t.oneOf<int>({0, 1, -1, 256, -32768, 32767}); c->i = v; o.h->addField(k, v); ++ops["addField(int16)"]; break; }
        case 4: { c = ref.mk(T::Int); c->i = genInt(t); o.h->addField(k, c->i); ++ops["addField(int64)"]; break; }
        case 5: { c = ref.mk(T::Float); c->d = genDouble(t); o.h->addField(k, c->d); ++ops["addField(float)"]; break; }
        default: { c = ref.mk(T::Str); c->s = genBytes(t); o.h->addField(k, std::string_view(c->s)); ++ops["addField(string)"]; break; }
        }
        log("o" + std::to_string(&o - objs.data()) + ".addField(" + pbt::quote(k) + ", " + describe(*c, ref.names) + ")\n");
        ref.names.add(k);
        o.r->kids.emplace_back(low, c);
        break; }
    case 1: { // append
        auto& a = t.pick(arrs);
        RN* c = nullptr;
        switch (t.weighted({3, 1, 1, 1, 2, 2, 2})) {
        case 0: {
            auto v = anyNode(t);
            if (!mayAdd(*a.r, *v.r)) return;
            a.h->append(v.h); c = v.r; ++ops["append(node)"]; break; }
        case 1: { c = ref.mk(T::Bool); c->b = t.flip(); a.h->append(c->b); ++ops["append(bool)"]; break; }
        case 2: { c = ref.mk(T::Int); auto v = (uint16_t)t.oneOf<int>({0, 1, 256, 32768, 65535}); c->i = v; a.h->append(v); ++ops["append(uint16)"]; break; }
        case 3: { c = ref.mk(T::Int); auto v = (int16_t)t.oneOf<int>({0, 1, -1, 256, -32768, 32767}); c->i = v; a.h->append(v); ++ops["append(int16)"]; break; }
        case 4: { c = ref.mk(T::Int); c->i = genInt(t); a.h->append(c->i); ++ops["append(int64)"]; break; }
        case 5: { c = ref.mk(T::Float); c->d = genDouble(t); a.h->append(c->d); ++ops["append(float)"]; break; }
        default: { c = ref.mk(T::Str); c->s = genBytes(t); a.h->append(std::string_view(c->s)); ++ops["append(string)"]; break; }
        }
        log("a" + std::to_string(&a - arrs.data()) + ".append(" + (c->t == T::Obj || c->t == T::Arr ? "node" : describe(*c, ref.names)) + ")\n");
        a.r->kids.emplace_back("", c);
        break; }
    case 2: { auto n = capHint(); objs.push_back({pool->newObject(n), ref.mk(T::Obj)}); objs.back().r->addr = objs.back().h->addr().value_;
        log("o" + std::to_string(objs.size() - 1) + " = newObject(" + std::to_string(n) + ")\n"); ++ops["newObject"]; break; }
    case 3: { auto n = capHint(); arrs.push_back({pool->newArray(n), ref.mk(T::Arr)}); arrs.back().r->addr = arrs.back().h->addr().value_;
        log("a" + std::to_string(arrs.size() - 1) + " = newArray(" + std::to_string(n) + ")\n"); ++ops["newArray"]; break; }
    case 4: { // extend
        auto& o = t.pick(objs); auto& p = t.pick(objs);
        for (auto& [k, v] : p.r->kids) if (!mayAdd(*o.r, *v)) return;
        if (o.r->kids.size() + p.r->kids.size() > 300 || expanded(*p.r, cap) >= cap / 4) return;
        log("o" + std::to_string(&o - objs.data()) + ".extend(o" + std::to_string(&p - objs.data()) + ")\n");
        o.h->extend(p.h);
        auto copy = p.r->kids;
        o.r->kids.insert(o.r->kids.end(), copy.begin(), copy.end());
        ++ops[&o == &p ? "extend(self)" : "extend(object)"];
        break; }
    case 5: {
        auto& o = t.pick(arrs); auto& p = t.pick(arrs);
        for (auto& [k, v] : p.r->kids) if (!mayAdd(*o.r, *v)) return;
        if (o.r->kids.size() + p.r->kids.size() > 300 || expanded(*p.r, cap) >= cap / 4) return;
        log("a" + std::to_string(&o - arrs.data()) + ".extend(a" + std::to_string(&p - arrs.data()) + ")\n");
        o.h->extend(p.h);
        auto copy = p.r->kids;
        o.r->kids.insert(o.r->kids.end(), copy.begin(), copy.end());
        ++ops[&o == &p ? "extend(self)" : "extend(array)"];
        break; }
    case 6: { // look at a handle again, under another type
        auto v = anyNode(t);
        bool o = v.r->t == T::Obj, a = v.r->t == T::Arr;
        log("resolve " + describe(*v.r, ref.names) + "\n");
        try { auto r = pool->resolveObject(v.h); REQUIRE_P(o, "resolveObject of " << describe(*v.r, ref.names) << " must raise"); objs.push_back({r, v.r}); }
        catch (const std::exception& e) { REQUIRE_P(!o, "resolveObject of an object raised " << e.what()); }
        try { auto r = pool->resolveArray(v.h); REQUIRE_P(a, "resolveArray of " << describe(*v.r, ref.names) << " must raise"); arrs.push_back({r, v.r}); }
        catch (const std::exception& e) { REQUIRE_P(!a, "resolveArray of an array raised " << e.what()); }
        ++ops["resolve"];
        break; }
    case 7: { auto v = anyNode(t); log("addRoot(" + describe(*v.r, ref.names) + ")\n"); addRoot(v); break; }
    case 8: { // wide containers
        if (arrs.empty() && objs.empty()) return;
        auto n = t.oneOf<size_t>({9, 17, 40, 100});
        if (!arrs.empty() && (objs.empty() || t.flip())) {
            auto& a = t.pick(arrs); log("a" + std::to_string(&a - arrs.data()) + ".append 0.." + std::to_string(n) + "\n");
            if (a.r->kids.size() > 300) return;
            for (size_t i = 0; i < n; ++i) { auto* c = ref.mk(T::Int); c->i = int64_t(i) * 1001 - 50; a.h->append(c->i); a.r->kids.emplace_back("", c); }
        } else {
            auto& o = t.pick(objs); log("o" + std::to_string(&o - objs.data()) + ".addField k0.." + std::to_string(n) + "\n");
            if (o.r->kids.size() > 300) return;
            for (size_t i = 0; i < n; ++i) { auto* c = ref.mk(T::Int); c->i = int64_t(i); auto k = "k" + std::to_string(i); o.h->addField(k, c->i); ref.names.add(k); o.r->kids.emplace_back(k, c); }
        }
        ++ops["wide"];
        break; }
    case 9: { // look something up by a name that is known, or by one that is not
        if (objs.empty()) return;
        auto& o = t.pick(objs);
        auto c = o.h->get(std::string_view("no such name"));
        REQUIRE_P(!c, "get of a name that no one used");
        ref.names.add("no such name");
        ++ops["get(unknown)"];
        break; }
    default:
        log("clear()\n");
        pool->clear();
        objs.clear(); arrs.clear(); vals.clear();
        ref.roots.clear();
        ref.nodes.clear();
        REQUIRE_P(pool->numRoots() == 0, "roots after clear()");
        ++ops["clear"];
    }
}

// ------------------------------------------------------------ serialized form
namespace {
struct In {
    const std::string& b; size_t p = 0; bool ok = true;
    uint64_t le(int n) {
        if (p + n > b.size()) { ok = false; p = b.size(); return 0; }
        uint64_t v = 0; for (int i = 0; i < n; ++i) v |= uint64_t((unsigned char)b[p + i]) << (8 * i);
        p += n; return v;
    }
    uint64_t size() {
        auto hb = le(1);
        if (hb < 0x80) return hb;
        auto lb = le(1);
        if (hb & 0x40) { auto lw = le(2); return (((hb & 0x3f) << 8 | lb) << 16) | lw; }
        return (hb & 0x7f) << 8 | lb;
    }
};
void put(std::string& o, uint64_t v, int n) { for (int i = 0; i < n; ++i) o += char(v >> (8 * i)); }
void putSize(std::string& o, uint64_t n) {
    if (n < 0x80) put(o, n, 1);
    else if (n < 0x4000) { put(o, (n >> 8) | 0x80, 1); put(o, n & 0xff, 1); }
    else { put(o, (n >> 24) | 0xc0, 1); put(o, (n >> 16) & 0xff, 1); put(o, n & 0xffff, 2); }
}
}
Raw decode(const std::string& bytes) {
    Raw r; In in{bytes};
    auto many = [&](uint64_t n, auto f) {
        r.demand += n;
        if (n > 1000000) in.ok = false;
        for (uint64_t i = 0; i < n && in.ok; ++i) f();
    };
    many(in.size(), [&] { r.roots.push_back(in.le(4)); });
    if (in.ok) many(in.size(), [&] { r.i64.push_back(in.le(8)); });
    if (in.ok) many(in.size(), [&] { r.dbl.push_back(in.le(8)); });
    if (in.ok) many(in.size(), [&] { r.text += char(in.le(1)); });
    if (in.ok) many(in.size(), [&] { auto a = in.le(4); r.strs.emplace_back(a, in.le(4)); });
    auto list = [&](auto f) {
        auto n = (int64_t)(int32_t)in.le(4);
        for (int64_t i = 0; i < n && in.ok; ++i) { ++r.demand; f(); }
    };
    if (in.ok) list([&] { r.objs.emplace_back(); many(in.le(4), [&] { auto a = in.le(2); r.objs.back().emplace_back(a, in.le(4)); }); });
    if (in.ok) list([&] { r.arrs.emplace_back(); many(in.le(4), [&] { r.arrs.back().push_back(in.le(4)); }); });
    r.complete = in.ok && in.p == bytes.size();
    return r;
}
std::string encode(const Raw& r) {
    std::string o;
    putSize(o, r.roots.size()); for (auto v : r.roots) put(o, v, 4);
    putSize(o, r.i64.size()); for (auto v : r.i64) put(o, (uint64_t)v, 8);
    putSize(o, r.dbl.size()); for (auto v : r.dbl) put(o, v, 8);
    putSize(o, r.text.size()); o += r.text;
    putSize(o, r.strs.size()); for (auto& [a, b] : r.strs) { put(o, a, 4); put(o, b, 4); }
    put(o, r.objs.size(), 4);
    for (auto& f : r.objs) { put(o, f.size(), 4); for (auto& [n, a] : f) { put(o, n, 2); put(o, a, 4); } }
    put(o, r.arrs.size(), 4);
    for (auto& f : r.arrs) { put(o, f.size(), 4); for (auto a : f) put(o, a, 4); }
    return o;
}
bool Raw::acyclic() const {
    // Also bounds the expanded size, so that walking the whole model ends soon.
    std::map<uint32_t, uint64_t> size;
    std::set<uint32_t> active;
    std::function<uint64_t(uint32_t)> visit = [&](uint32_t a) -> uint64_t {
        auto col = a & 0xff, idx = a >> 8;
        if (col != 5 && col != 6) return 1;
        if (col == 5 ? idx >= objs.size() : idx >= arrs.size()) return 1;
        if (auto it = size.find(a); it != size.end()) return it->second;
        if (!active.insert(a).second) return 1000000;
        uint64_t s = 1;
        if (col == 5) for (auto& [n, c] : objs[idx]) { s += visit(c); if (s > 1000000) break; }
        else for (auto c : arrs[idx]) { s += visit(c); if (s > 1000000) break; }
        active.erase(a);
        return size[a] = std::min<uint64_t>(s, 1000000);
    };
    uint64_t total = 0;
    for (auto r : roots) total += visit(r);
    for (size_t i = 0; i < objs.size(); ++i) total += visit(uint32_t(i) << 8 | 5);
    for (size_t i = 0; i < arrs.size(); ++i) total += visit(uint32_t(i) << 8 | 6);
    return total < 100000;
}
} // namespace mref
