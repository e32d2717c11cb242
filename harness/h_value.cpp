// Values, transient objects and the throw handler.
#include "mref.h"
#include "simfil/environment.h"
#include "simfil/value.h"
#include "simfil/typed-meta-type.h"
#include "ref.h"
#include <sstream>
#include <thread>
#include <typeinfo>

using namespace pbt;
using namespace simfil;
namespace {

// ------------------------------------------------------------------ C30
struct Live { const void* owner; int content; };
std::map<void*, Live> live;      // payloads in existence
std::string damage;              // first misuse seen
uintptr_t nextHandle = 16;
struct HandleMeta final : MetaType {
    using MetaType::MetaType;
    void* put(int c) const { auto h = (void*)(nextHandle += 16); live[h] = {this, c}; return h; }
    auto init() const -> void* override { return put(0); }
    auto copy(void* p) const -> void* override {
        auto it = live.find(p);
        if (it == live.end() || it->second.owner != this) { damage = "a payload is copied that does not exist"; return put(-1); }
        return put(it->second.content);
    }
    auto deinit(void* p) const -> void override {
        auto it = live.find(p);
        if (it == live.end()) { damage = "a payload is released twice"; return; }
        if (it->second.owner != this) damage = "a payload is released by another type";
        live.erase(it);
    }
    auto unaryOp(std::string_view op, const TransientObject& o) const -> Value override {
        if (op == "string" && ident == "A") return Value::make("<" + ident + " " + std::to_string(live.at(o.data).content) + ">");
        return Value::null();   // B has no text of its own
    }
    auto binaryOp(std::string_view, const TransientObject&, const Value&) const -> Value override { return Value::null(); }
    auto binaryOp(std::string_view, const Value&, const TransientObject&) const -> Value override { return Value::null(); }
    auto unpack(const TransientObject&, std::function<bool(Value)>) const -> void override {}
};
struct Counted {
    static inline int alive = 0;
    int content = 0;
    std::string text = "a payload that has to be released, longer than the small buffer";
    Counted() { ++alive; }
    Counted(const Counted& o) : content(o.content), text(o.text) { ++alive; }
    ~Counted() { --alive; }
};
struct CountedMeta final : TypedMetaType<Counted> {
    using TypedMetaType::TypedMetaType;
    using TypedMetaType::unaryOp; using TypedMetaType::binaryOp; using TypedMetaType::unpack;
    auto unaryOp(std::string_view op, const Counted& c) const -> Value override {
        if (op == "string") return Value::make("<" + ident + " " + std::to_string(c.content) + ">");
        return Value::null();
    }
    auto binaryOp(std::string_view, const Counted&, const Value&) const -> Value override { return Value::null(); }
    auto binaryOp(std::string_view, const Value&, const Counted&) const -> Value override { return Value::null(); }
};
const HandleMeta metaA("A"), metaB("B");
const CountedMeta metaC("C"), metaD("C"); // of the same name

// Content of a Value, as far as it is specified.
struct VR {
    ValueType type = ValueType::Null;
    bool b = false; int64_t i = 0; double d = 0; std::string s; bool view = false;
    const MetaType* meta = nullptr; int content = 0;
    ModelNode::Ptr node;                // for Object, Array (and scalars that come from a field)
    bool known = true;                  // false: moved from
    std::string str() const {
        if (!known) return "(moved from)";
        switch (type) {
        case ValueType::Undef: return "undef"; case ValueType::Null: return "null"; case ValueType::Bool: return b ? "true" : "false";
        case ValueType::Int: return std::to_string(i); case ValueType::Float: return "float " + std::to_string(d);
        case ValueType::String: return (view ? "view " : "string ") + quote(s); case ValueType::TransientObject: return meta->ident + std::to_string(content);
        case ValueType::Object: return "object"; case ValueType::Array: return "array";
        }
        return "?";
    }
};
int contentOf(const TransientObject& o) {
    if (o.meta == &metaA || o.meta == &metaB) { auto it = live.find(o.data); return it == live.end() ? -99 : it->second.content; }
    auto& m = *static_cast<const CountedMeta*>(o.meta);
    return m.get(o)->content;
}
void setContent(TransientObject& o, int c) {
    if (o.meta == &metaA || o.meta == &metaB) { live.at(o.data).content = c; return; }
    static_cast<const CountedMeta*>(o.meta)->get(o)->content = c;
}
bool sameD(double a, double b) { return std::memcmp(&a, &b, 8) == 0 || (a != a && b != b); }

struct Kind {
    std::string operator()(UndefinedType) const { return "undef"; }
    std::string operator()(NullType) const { return "null"; }
    std::string operator()(bool v) const { return v ? "bool true" : "bool false"; }
    std::string operator()(int64_t v) const { return "int " + std::to_string(v); }
    std::string operator()(double v) const { char b[64]; snprintf(b, sizeof b, "float %a", v); return v != v ? "float nan" : b; }
    std::string operator()(const std::string& s) const { return "string " + s; }
    std::string operator()(const TransientObject& o) const { return o.meta ? o.meta->ident + std::to_string(contentOf(o)) : "empty"; }
    std::string operator()(const ModelNode& n) const { return "node " + std::to_string(n.addr().value_); }
};
void verify(Value& v, const VR& r, const std::string& what) {
    if (!r.known) return;
    const Value& c = v;
    REQUIRE_P(v.type == r.type, what << " (" << r.str() << "): type is " << valueType2String(v.type));
    for (auto t : {ValueType::Undef, ValueType::Null, ValueType::Bool, ValueType::Int, ValueType::Float, ValueType::String, ValueType::TransientObject, ValueType::Object, ValueType::Array})
        REQUIRE_P(c.isa(t) == (t == r.type), what << ": isa(" << valueType2String(t) << ")");
    auto sc = v.getScalar();
    std::string wantKind, wantStr;
    ScalarValueType want;
    switch (r.type) {
    case ValueType::Undef: wantKind = "undef"; wantStr = "undef"; break;
    case ValueType::Null: wantKind = "null"; wantStr = "null"; break;
    case ValueType::Bool: REQUIRE_P(c.as<ValueType::Bool>() == r.b, what << ": as bool"); wantKind = Kind()(r.b); wantStr = r.b ? "true" : "false"; want = r.b; break;
    case ValueType::Int: REQUIRE_P(c.as<ValueType::Int>() == r.i, what << ": as int"); wantKind = Kind()(r.i); wantStr = std::to_string(r.i); want = r.i; break;
    case ValueType::Float: REQUIRE_P(sameD(c.as<ValueType::Float>(), r.d), what << ": as float"); wantKind = Kind()(r.d); wantStr = std::to_string(r.d); want = r.d; break;
    case ValueType::String: REQUIRE_P(c.as<ValueType::String>() == r.s, what << ": as string"); wantKind = Kind()(r.s); wantStr = r.s; want = r.s; break;
    case ValueType::TransientObject: {
        auto& o = std::get<TransientObject>(c.value);
        REQUIRE_P(o.meta == r.meta, what << " (" << r.str() << "): another meta type");
        REQUIRE_P(contentOf(o) == r.content, what << " (" << r.str() << "): content is " << contentOf(o));
        wantKind = Kind()(o); wantStr = "<" + r.meta->ident + (r.meta == &metaB ? "" : " " + std::to_string(r.content)) + ">";
        REQUIRE_P(getObject<Counted>(c, &metaC) == (r.meta == &metaC ? o.data : nullptr), what << ": getObject");
        REQUIRE_P((metaD.get(o) != nullptr) == (r.meta == &metaD), what << ": get of another meta type");
        break; }
    case ValueType::Object: case ValueType::Array:
        wantKind = r.node ? Kind()(*r.node) : "null"; wantStr = r.node ? nlohmann::to_string(r.node->toJson()) : "null"; break;
    }
    REQUIRE_P(c.isBool(true) == (r.type == ValueType::Bool && r.b) && c.isBool(false) == (r.type == ValueType::Bool && !r.b), what << ": isBool");
    REQUIRE_P(c.visit(Kind{}) == wantKind, what << " (" << r.str() << "): visit gives " << quote(c.visit(Kind{})));
    REQUIRE_P(c.toString() == wantStr, what << " (" << r.str() << "): toString gives " << quote(c.toString()));
    // Scalars.
    bool ok = std::visit([&](auto&& x) {
        using X = std::decay_t<decltype(x)>;
        if constexpr (std::is_same_v<X, std::monostate>) return std::holds_alternative<std::monostate>(want);
        else if constexpr (std::is_same_v<X, std::string_view> || std::is_same_v<X, std::string>) return r.type == ValueType::String && x == r.s;
        else if constexpr (std::is_same_v<X, double>) return std::holds_alternative<double>(want) && sameD(x, std::get<double>(want));
        else return std::holds_alternative<X>(want) && std::get<X>(want) == x;
    }, sc);
    REQUIRE_P(ok, what << " (" << r.str() << "): getScalar");
    auto* sv = v.stringViewValue();
    REQUIRE_P((sv != nullptr) == (r.type == ValueType::String && r.view), what << " (" << r.str() << "): stringViewValue");
    if (sv) REQUIRE_P(*sv == r.s, what << ": stringViewValue content");
    auto [isI, asI] = getNumeric<int64_t>(c);
    auto [isD, asD] = getNumeric<double>(c);
    bool num = r.type == ValueType::Int || r.type == ValueType::Float;
    REQUIRE_P(isD == num && isI == num, what << ": getNumeric");
    if (num) REQUIRE_P(sameD(asD, r.type == ValueType::Int ? double(r.i) : r.d), what << ": getNumeric gives " << asD);
    if (r.type == ValueType::Int) REQUIRE_P(asI == r.i, what << ": getNumeric gives " << asI);
    REQUIRE_P(bool(v.node) == bool(r.node), what << " (" << r.str() << "): node");
    if (r.node) REQUIRE_P(v.node->addr().value_ == r.node->addr().value_ && v.node->toJson() == r.node->toJson(), what << ": another node");
}

void values(Tape& t, Ctx& ctx) {
    live.clear(); damage.clear(); nextHandle = 16;
    REQUIRE_P(Counted::alive == 0, "left over from another case");
    auto pool = std::make_shared<ModelPool>();
    std::deque<std::string> text; // what views point to
    std::vector<ModelNode::Ptr> nodes;
    {
        auto o = pool->newObject(2); o->addField("a", int64_t(70000)); o->addField("s", std::string_view("stored"));
        auto a = pool->newArray(2); a->append(0.5); a->append(t.flip()); a->append(ModelNode::Ptr(o));
        nodes = {ModelNode::Ptr(o), ModelNode::Ptr(a), o->at(0), o->at(1), a->at(0), a->at(1), ModelNode::Ptr::make(pool, ModelNodeAddress{Model::Null, 1})};
    }
    auto make = [&]() -> std::pair<Value, VR> {
        VR r;
        switch (t.weighted({2, 1, 1, 2, 2, 3, 3, 8, 4, 1, 3})) {
        case 0: return {Value::null(), r};
        case 1: r.type = ValueType::Undef; return {Value::undef(), r};
        case 2: r.type = ValueType::Bool; r.b = t.flip(); return {t.flip() ? (r.b ? Value::t() : Value::f()) : Value::make(bool(r.b)), r};
        case 3: r.type = ValueType::Int; r.i = mref::genInt(t); return {Value::make(int64_t(r.i)), r};
        case 4: r.type = ValueType::Float; r.d = mref::genDouble(t); return {Value::make(double(r.d)), r};
        case 5: r.type = ValueType::String; r.s = mref::genBytes(t); return {Value::make(std::string(r.s)), r};
        case 6: r.type = ValueType::String; r.s = mref::genBytes(t); r.view = true; text.push_back(r.s);
            return {t.flip() ? Value::strref(text.back()) : Value::make(std::string_view(text.back())), r};
        case 7: {
            r.type = ValueType::TransientObject;
            r.meta = t.oneOf<const MetaType*>({&metaA, &metaB, &metaC, &metaD}); r.content = (int)t.below(1000);
            TransientObject o(r.meta);
            setContent(o, r.content);
            if (t.flip()) return {Value::make(std::move(o)), r};
            return {Value(ValueType::TransientObject, o), r}; }
        case 8: {
            auto n = t.pick(nodes); r.type = n->type(); r.node = n;
            auto sv = n->value();
            if (auto p = std::get_if<int64_t>(&sv)) r.i = *p;
            if (auto p = std::get_if<double>(&sv)) r.d = *p;
            if (auto p = std::get_if<bool>(&sv)) r.b = *p;
            if (auto p = std::get_if<std::string_view>(&sv)) r.s = *p, r.view = true;
            if (t.flip()) return {Value::field(*n), r};
            return {Value::field(n), r}; }
        case 9: r.type = ValueType::Object; return {Value::model(), r};
        default: { // from a scalar
            ScalarValueType s;
            switch (t.below(6)) {
            case 0: break;
            case 1: r.type = ValueType::Bool; r.b = t.flip(); s = r.b; break;
            case 2: r.type = ValueType::Int; r.i = mref::genInt(t); s = r.i; break;
            case 3: r.type = ValueType::Float; r.d = mref::genDouble(t); s = r.d; break;
            case 4: r.type = ValueType::String; r.s = mref::genBytes(t); s = r.s; break;
            default: r.type = ValueType::String; r.s = mref::genBytes(t); r.view = true; text.push_back(r.s); s = std::string_view(text.back());
            }
            if (t.flip()) return {Value(std::move(s)), r};
            return {Value(r.type, std::move(s), {}), r}; }
        }
    };
    bool transients = false;
    {
        std::vector<Value> vals;
        std::vector<VR> ref;
        auto balance = [&](const std::string& what) {
            if (!damage.empty()) fail(what + ": " + damage);
            size_t h = 0; int cnt = 0; bool exact = true;
            for (auto& r : ref) {
                if (!r.known) { if (r.type == ValueType::TransientObject) exact = exact && r.meta == nullptr; continue; }
                if (r.type != ValueType::TransientObject) continue;
                if (r.meta == &metaA || r.meta == &metaB) ++h; else ++cnt;
            }
            if (exact) REQUIRE_P(live.size() == h && Counted::alive == cnt, what << ": " << live.size() << " and " << Counted::alive << " payloads exist for " << h << " and " << cnt << " values");
        };
        auto steps = 6 + t.below(50);
        for (size_t s = 0; s < steps; ++s) {
            ctx.evaluation();
            auto op = t.weighted({5, 5, 4, 3, 2, 2, 3, 2, 1, 2});
            if (vals.empty()) op = 0;
            auto i = vals.empty() ? 0 : t.below(vals.size()), j = vals.empty() ? 0 : t.below(vals.size());
            std::string what;
            switch (op) {
            case 0: { auto [v, r] = make(); what = "new " + r.str(); vals.push_back(std::move(v)); ref.push_back(r); break; }
            case 1: what = "v" + std::to_string(i) + " = v" + std::to_string(j); if (!ref[j].known) continue; vals[i] = vals[j]; { auto x = ref[j]; ref[i] = x; } if (i == j) ctx.label("self copy"); break;
            case 2: what = "v" + std::to_string(i) + " = move(v" + std::to_string(j) + ")"; if (!ref[j].known) continue;
                if (i == j) { auto& a = vals[i]; a = std::move(vals[j]); ctx.label("self move"); if (ref[i].type == ValueType::String || ref[i].node) ref[i].known = false; break; }
                vals[i] = std::move(vals[j]); ref[i] = ref[j]; ref[j].known = false; ref[j].meta = nullptr; break;
            case 3: { what = "copy of v" + std::to_string(i); if (!ref[i].known) continue; Value c(vals[i]); auto x = ref[i]; verify(c, x, what); vals.push_back(c); ref.push_back(x); break; }
            case 4: { what = "move construction from v" + std::to_string(i); if (!ref[i].known) continue; Value c(std::move(vals[i])); auto x = ref[i]; ref[i].known = false; ref[i].meta = nullptr; verify(c, x, what); vals.push_back(std::move(c)); ref.push_back(x); break; }
            case 5: what = "erase v" + std::to_string(i); vals.erase(vals.begin() + i); ref.erase(ref.begin() + i);
                // Erasing assigns all later elements to their predecessors.
                break;
            case 6: { // change one payload, no other one follows
                if (!ref[i].known || ref[i].type != ValueType::TransientObject) continue;
                what = "change the payload of v" + std::to_string(i);
                ref[i].content = (int)t.below(1000);
                setContent(std::get<TransientObject>(vals[i].value), ref[i].content);
                ctx.label("changed");
                break; }
            case 7: what = "swap v" + std::to_string(i) + ", v" + std::to_string(j); if (i == j) continue; std::swap(vals[i], vals[j]); std::swap(ref[i], ref[j]); break;
            case 8: what = "copy of all"; { auto c = vals; for (size_t k = 0; k < c.size(); ++k) verify(c[k], ref[k], what); } break;
            default: { // transient objects by themselves
                what = "transient objects on their own";
                TransientObject a(t.oneOf<const MetaType*>({&metaA, &metaC})), b(t.oneOf<const MetaType*>({&metaB, &metaD}));
                setContent(a, 1); setContent(b, 2);
                a = b; REQUIRE_P(a.meta == b.meta && a.data != b.data && contentOf(a) == 2, what << ": copy assignment");
                setContent(a, 3); REQUIRE_P(contentOf(b) == 2, what << ": a copy is not independent");
                auto& self = a; self = a; REQUIRE_P(contentOf(a) == 3, what << ": self assignment");
                TransientObject c(std::move(a)); REQUIRE_P(contentOf(c) == 3 && !a.meta && !a.data, what << ": move construction");
                TransientObject e(a); REQUIRE_P(!e.meta && !e.data, what << ": copy of an empty one");
                b = std::move(c); REQUIRE_P(contentOf(b) == 3 && !c.meta, what << ": move assignment");
                c = b; REQUIRE_P(contentOf(c) == 3 && c.data != b.data, what << ": assignment to an empty one");
                auto& bs = b; bs = std::move(b); REQUIRE_P(contentOf(b) == 3, what << ": self move");
                b = a; REQUIRE_P(!b.meta && !b.data, what << ": assignment of an empty one");
                TransientObject f(std::move(b)); c = std::move(f); REQUIRE_P(!c.meta && !c.data, what << ": move of an empty one");
                ctx.label("transient only"); }
            }
            ctx.note(what + "\n");
            if (!ref.empty() && t.chance(1, 3)) { auto k = t.below(vals.size()); verify(vals[k], ref[k], what + ": v" + std::to_string(k)); }
            balance(what);
            for (auto& r : ref) if (r.known && r.type == ValueType::TransientObject) transients = true;
        }
        for (size_t k = 0; k < vals.size(); ++k) verify(vals[k], ref[k], "finally, v" + std::to_string(k));
        balance("finally");
        // Nodes keep their model alive.
        nodes.clear(); pool.reset();
        for (size_t k = 0; k < vals.size(); ++k) if (ref[k].known && ref[k].node) verify(vals[k], ref[k], "after the model handle is gone, v" + std::to_string(k));
    }
    if (!damage.empty()) fail("at the end: " + damage);
    REQUIRE_P(live.empty() && Counted::alive == 0, live.size() << " and " << Counted::alive << " payloads were never released");
    if (transients) { ctx.nontrivial(ctx.notes); ctx.label("transient"); }
}

// ------------------------------------------------------------------ C31
struct Call { std::string type, what; std::thread::id tid; };
std::vector<Call> calls, otherCalls;
struct Done { std::string outcome; std::string type, what; bool raised = false, claimed = false; };

Done attempt(const std::function<std::string()>& f) {
    Done d;
    try { d.outcome = f(); }
    catch (const std::exception& e) {
        d.raised = true; d.type = typeid(e).name(); d.what = e.what(); d.outcome = "raised " + d.what;
        // What the standard library or the JSON parser throw is not simfil's.
        d.claimed = typeid(e) == typeid(std::runtime_error) || typeid(e) == typeid(InvalidOperandsError) || typeid(e) == typeid(std::overflow_error);
    }
    return d;
}
std::string renderAll(const std::vector<Value>& v) { std::string s; for (auto& x : v) s += std::string(valueType2String(x.type)) + ":" + (x.isa(ValueType::Object) || x.isa(ValueType::Array) ? "node" : x.toString()) + ", "; return s; }

void handler(Tape& t, Ctx& ctx) {
    struct Reset { ~Reset() { ThrowHandler::instance().set(nullptr); } } reset;
    auto pool = simfil::json::parse(R"({"a":1,"b":"text","c":[1,2,{"d":3}],"e":{"f":1.5,"g":null},"h":true})");
    auto root = pool->root(0);
    auto n = 1 + t.below(5);
    int installed = 0; // 0 none, 1, 2
    for (size_t k = 0; k < n; ++k) {
        std::function<std::string()> f;
        std::string what;
        bool arenaRange = false;
        switch (t.weighted({100, 40, 20, 20, 20, 20, 20, 20, 10, 10, 10, 20, 1, 2})) {
        case 0: { // a random query
            ref::Gen g{t, {}};
            g.c.noise = 40; g.c.range = 0;
            std::string q;
            switch (t.below(4)) {
            case 0: { static const char* ops[] = {"+", "-", "*", "/", "%", "<", ">", "==", "&", "|", "^", "<<", "and", "or", "/", "near"};
                static const char* vals[] = {"0.0", "range(1,3)", "re('x')", "a", "b", "c", "e", "h", "1", "0", "2.5", "'x'", "null", "true", "range(1,3)", "/x/", "e.g", "re('a')"};
                static const char* un[] = {"", "", "", "-", "~", "not ", "#", "typeof ", ""};
                q = std::string(t.pick(un)) + t.pick(vals) + " " + t.pick(ops) + " " + t.pick(un) + t.pick(vals);
                if (t.chance(1, 3)) q = std::string("(") + q + ") " + t.pick(ops) + " " + t.pick(vals);
                if (t.chance(1, 8)) q = std::string("(") + q + ")" + t.oneOf<const char*>({" near", "...", "?"});
                if (t.chance(1, 6)) q += t.oneOf<const char*>({" as int", " as string", " as bogus", " as bool"});
                break; }
            case 1: q = ref::print(*g.anyv(3), {}); break;
            case 2: { static const char* fns[] = {"range", "arr", "split", "select", "sum", "keys", "count", "any", "each", "trace", "re", "nosuch"};
                static const char* args[] = {"", "1", "'a'", "a", "b", "1,2", "'a,b',','", "c.*,1", "c.*,0,2", "1,2,3,4,5", "null", "a.b", "/x/", "a,0,c.*", "a,c.*", "a,0,arr(1,2)"};
                q = t.pick(fns);
                if (t.flip()) { q += std::string("(") + t.pick(args) + ")"; break; }
                static const char* arg[] = {"null", "a", "b", "c", "e", "e.g", "c.*", "nope", "1", "-1", "0.5", "true", "','", "''", "range(1,3)", "/x/", "h", "_", "a/0", "1 as string"};
                auto m = t.below(5); for (size_t i = 0; i < m; ++i) q += std::string(i ? "," : "(") + t.pick(arg);
                q += m ? ")" : "()"; break; }
            default: { static const char* frag[] = {"a", "b", "1", "'x'", "(", ")", "[", "]", "{", "}", ".", "*", "**", "+", "==", "and", "not", ",", "as", "\"", "'", "\\", "#", "99999999999999999999", "0x", "1.5", "?", "...", "$", "/"};
                auto m = 1 + t.below(7); for (size_t i = 0; i < m; ++i) q += std::string(t.pick(frag)) + (t.flip() ? " " : ""); }
            }
            if (t.chance(1, 30)) { // long names, long messages
                std::string name(size_t(t.range(20, 2000)), t.oneOf({'n', 'A', '_'}));
                switch (t.below(5)) {
                case 0: q = name + "(1)"; break; case 1: q = "1 as " + name; break; case 2: q = "a " + name; break;
                case 3: q = "'" + name; break; default: q = "/" + name + "/ + c";
                }
            }
            bool any = t.chance(1, 4), wild = t.chance(1, 6);
            what = "query " + quote(q);
            f = [=] { Environment env(pool->strings()); auto ast = compile(env, q, any, wild); return ast->toString() + " -> " + renderAll(eval(env, *ast, *root)); };
            ctx.label("query");
            break; }
        case 1: { auto i = t.below(4); what = "root " + std::to_string(i); f = [=] { return std::to_string((int)pool->root(i)->type()); }; ctx.label("root"); break; }
        case 2: { auto i = t.range(-1, 3); what = "child"; f = [=] { return std::to_string((int)root->at(2)->at(i)->type()); }; ctx.label("null pointer"); break; }
        case 3: { auto i = t.below(5); bool arr = t.flip(); what = "resolve";
            f = [=]() -> std::string { if (arr) return std::to_string(pool->resolveArray(root->at(i))->size()); return std::to_string(pool->resolveObject(root->at(i))->size()); }; ctx.label("resolve"); break; }
        case 4: { bool null = t.flip(); what = "setStrings"; f = [=]() -> std::string { auto p = simfil::json::parse("{\"a\":1}"); p->setStrings(null ? nullptr : std::make_shared<StringPool>()); return "ok"; }; ctx.label("setStrings"); break; }
        case 5: { bool bad = t.flip(); uint8_t col = (uint8_t)t.oneOf<int>({5, 6, 7, 8, 9, 77}); what = "validate";
            f = [=]() -> std::string { auto p = std::make_shared<ModelPool>(); auto a = p->newArray(); a->append(bad ? ModelNode::Ptr::make(p, ModelNodeAddress{col, 3}) : p->newValue(0.5)); p->addRoot(a); p->validate(); return "ok"; }; ctx.label("validate"); break; }
        case 6: { auto cut = t.below(8); what = "cut-off model"; f = [=]() -> std::string {
            std::ostringstream o; pool->write(o); std::istringstream in(o.str().substr(0, o.str().size() - cut)); auto p = std::make_shared<ModelPool>(pool->strings()); p->read(in); return p->toJson().dump(); }; ctx.label("read model"); break; }
        case 7: { auto cut = t.below(6); what = "cut-off string pool"; f = [=]() -> std::string {
            std::ostringstream o; pool->strings()->write(o); std::istringstream in(o.str().substr(0, o.str().size() - cut)); StringPool p; p.read(in); return std::to_string(p.size()); }; ctx.label("read strings"); break; }
        case 8: { bool null = t.flip(); what = "environment"; f = [=]() -> std::string { Environment env(null ? nullptr : pool->strings()); return "ok"; }; ctx.label("environment"); break; }
        case 9: { auto i = t.below(4); what = "arena"; arenaRange = true; f = [=]() -> std::string { ArrayArena<int> a; auto x = a.new_array(1); a.push_back(x, 5); a.push_back(x, 6); return std::to_string(a.at(x, i)); }; ctx.label("arena"); break; }
        case 11: { // addresses which no model hands out, and nodes which outlive the content of their model
            uint8_t col = (uint8_t)t.oneOf<int>({0, 1, 2, 3, 7, 8, 9, 10, 33, 127}); bool stale = t.chance(1, 3), base = t.flip(); what = "bad address in column " + std::to_string(col);
            f = [=]() -> std::string {
                std::string r;
                auto type = Model::Lambda([&](ModelNode const& n) { r += std::to_string((int)n.type()); });
                auto p = simfil::json::parse("[70000, 0.5, \"x\"]");
                auto node = ModelNode::Ptr::make(p, ModelNodeAddress{col, 3});
                if (stale) { std::vector<ModelNode::Ptr> old; for (int i = 0; i < 3; ++i) old.push_back(ModelNode::Ptr::make(p, p->root(0)->at(i)->addr())); p->clear(); for (auto& o : old) p->resolve(*o, type); }
                else if (base) std::make_shared<Model>()->resolve(*node, type);
                else p->resolve(*node, type);
                return r; };
            ctx.label("bad address"); break; }
        case 13: { // a node on its own, and queries nested too deeply
            bool deep = t.flip(), bare = t.flip(); what = deep ? "deep query" : "node without model";
            f = [=]() -> std::string {
                Environment env(pool->strings());
                auto ast = compile(env, deep ? std::string(1500, '(') + "a" + std::string(1500, ')') : "_ + 1", false);
                struct Bare : simfil::ModelNode { Bare() = default; };
                return renderAll(bare ? eval(env, *ast, Bare()) : eval(env, *ast, simfil::ValueNode(int64_t(3)))); };
            ctx.label(what); break; }
        case 12: { // the identifiers of a string pool are limited
            bool known = t.flip(); what = "full string pool";
            f = [=]() -> std::string {
                static std::shared_ptr<StringPool> full = [] { auto p = std::make_shared<StringPool>(); try { for (int i = 0; i < 70000; ++i) p->emplace("k" + std::to_string(i)); } catch (const std::exception&) {} return p; }();
                return std::to_string(full->emplace(known ? "k7" : "another")); };
            ctx.label("full string pool"); break; }
        default: { auto q = mref::genBytes(t); if (q.size() > 60) q.resize(60); what = "tokens of " + quote(q); f = [=]() -> std::string { return std::to_string(tokenize(q).size()); }; ctx.label("tokenize"); }
        }
        ctx.note(what + "\n");
        // Without handler: the reference.
        ThrowHandler::instance().set(nullptr);
        calls.clear(); otherCalls.clear();
        auto want = attempt(f);
        ctx.evaluation();
        REQUIRE_P(calls.empty() && otherCalls.empty(), what << ": a handler that was removed is called");
        // With handler, possibly replacing another one.
        if (t.flip()) { ThrowHandler::instance().set([](auto& a, auto& b) { otherCalls.push_back({a, b, std::this_thread::get_id()}); }); ctx.label("replaced"); }
        ThrowHandler::instance().set([](auto& a, auto& b) { calls.push_back({a, b, std::this_thread::get_id()}); });
        auto got = attempt(f);
        REQUIRE_P(otherCalls.empty(), what << ": a handler that was replaced is called");
        REQUIRE_P(got.outcome == want.outcome && got.type == want.type && got.raised == want.raised, what << ": outcome with a handler is " << quote(got.outcome) << ", without " << quote(want.outcome));
        if (!got.raised) {
            REQUIRE_P(calls.empty(), what << ": succeeds, but the handler is called with " << quote(calls[0].what));
            ctx.label("succeeds");
        } else if (got.claimed || (arenaRange && got.type == typeid(std::out_of_range).name())) {
            REQUIRE_P(!calls.empty(), what << ": raises " << quote(got.what) << ", but the handler is not called");
            REQUIRE_P(calls.back().type == got.type && calls.back().what == got.what, what << ": raises " << got.type << " " << quote(got.what) << ", the handler is told " << calls.back().type << " " << quote(calls.back().what));
            for (auto& c : calls) REQUIRE_P(c.tid == std::this_thread::get_id() && !c.type.empty(), what << ": handler call");
            size_t same = 0; for (auto& c : calls) same += c.type == got.type && c.what == got.what;
            REQUIRE_P(same == 1, what << ": the handler is told " << same << " times of " << quote(got.what));
            ctx.label("reported"); ctx.nontrivial(what + got.what);
        } else ctx.label("foreign exception");
        // The handler sees the state before the exception leaves: it may even replace it.
        if (got.raised && !calls.empty() && t.chance(1, 4)) {
            struct Own { int x; };
            bool own = false;
            ThrowHandler::instance().set([](auto&, auto&) { throw Own{1}; });
            try { f(); } catch (const Own&) { own = true; } catch (const std::exception&) {}
            if (calls.size() == 1) REQUIRE_P(own, what << ": the handler runs after the exception");
            ctx.label("throwing handler");
        }
        (void)installed;
    }
    ctx.note("");
}
PROPERTY({"C30", "Random histories of making, copying, moving, self-assigning, swapping and destroying Values of all types; transient payloads of four meta types are counted and must exist exactly once per value; all accessors compared. Non-trivial: transient objects took part.", 320000, 3200000, values});
PROPERTY({"C31", "Random failing and succeeding operations (queries, model access, deserialization, validation) run without and with an installed, replaced or removed handler. Non-trivial: an error of simfil was reported.", 96000, 960000, handler});
} // namespace
