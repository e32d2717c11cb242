// Extensions made by users of the library: their own types, functions and
// constants (C33), their own data models (C34).
#include "sut.h"
#include "simfil/environment.h"
#include "simfil/function.h"
#include "simfil/typed-meta-type.h"
#include "simfil/model/nodes.h"
#include <algorithm>

using namespace pbt;
using simfil::Value; using simfil::ValueType; using simfil::ModelNode; using simfil::ModelNodeAddress;
using simfil::StringId; using simfil::StringPool; using simfil::ScalarValueType; using simfil::ModelConstPtr;

namespace {

// ------------------------------------------------------------------ C33
// The user's types are term algebras: a value is the text of the operations that made
// it. So the text of a result tells which operator was called, of which type, with which
// operands in which order. The functions below say what the types do; the types and the
// reference evaluator both use them.
long live = 0;
struct Term {
    std::string s;
    Term() { ++live; }
    Term(const Term& o) : s(o.s) { ++live; }
    ~Term() { --live; }
};
enum Kind { Undef, Null, Bool, Int, Str, Node, A, B };
struct V { Kind k = Null; std::string s; bool b = false; int64_t i = 0; };
V vNull() { return {}; }
V vBool(bool b) { V v; v.k = Bool; v.b = b; return v; }
V vInt(int64_t i) { V v; v.k = Int; v.i = i; return v; }
V vStr(std::string s) { V v; v.k = Str; v.s = std::move(s); return v; }
V vTerm(Kind k, std::string s) { V v; v.k = k; if (s.size() > 400) s = "#" + std::to_string(hashStr(s)); v.s = std::move(s); return v; }
const char* nameOf(Kind k) { return k == A ? "apple" : "Birne"; }
struct Denied {};

// How an operand looks to the type.
std::string look(const V& v) {
    switch (v.k) {
    case Undef: return "undef"; case Null: return "null"; case Bool: return v.b ? "true" : "false";
    case Int: return std::to_string(v.i); case Str: return "'" + v.s + "'"; case Node: return v.s;
    case A: return "A<" + v.s + ">"; default: return "B<" + v.s + ">";
    }
}
V unary(Kind k, const std::string& op, const std::string& s) {
    if (op == "typeof") return vStr(nameOf(k));
    if (op == "string") return k == A ? vStr("apple of " + s) : vInt(int64_t(hashStr(s) % 90)); // B does not become a string
    if (op == "?") return vBool(hashStr("?" + s) & 1);
    if (op == "int") return vInt(int64_t(hashStr(s) % 100));
    if (op == "~" && k == B) throw Denied{};
    if (op == "gone") return vNull();
    return vTerm(op == "#" ? (k == A ? B : A) : k, "(" + op + " " + s + ")");
}
V binary(Kind k, const std::string& op, const std::string& s, const V& other, bool mineIsLeft) {
    auto text = mineIsLeft ? "(" + s + " " + op + " " + look(other) + ")" : "(" + look(other) + " " + op + " " + s + ")";
    if (op == "==" || op == "!=" || op == "<") return vBool(hashStr(text) & 1);
    if (op == "%") throw Denied{};
    if (op == ">>" || op == "gone") return vNull();
    if (op == "|") return vInt(int64_t(hashStr(text) % 50));
    return vTerm(op == "/" ? (k == A ? B : A) : k, text);
}
std::vector<V> unpacked(const std::string& s) {
    std::vector<V> r;
    auto h = hashStr("..." + s);
    for (uint64_t i = 0; i < h % 4; ++i) r.push_back((h >> (8 + i)) & 1 ? vInt(int64_t(i)) : vTerm(A, s + "." + std::to_string(i)));
    return r;
}

struct AppleType; struct BirneType;
const simfil::MetaType* metaOf(Kind k);
Value make(const V& v);
V read(const Value& v);
bool sawFloat = false;
std::string broken;  // what an extension was given wrongly

template <Kind K> struct TermType final : simfil::TypedMetaType<Term> {
    using Base = simfil::TypedMetaType<Term>;
    using Base::unaryOp; using Base::binaryOp; using Base::unpack;
    TermType() : Base(nameOf(K)) {}
    Value unaryOp(std::string_view op, const Term& x) const override {
        try { return make(::unary(K, std::string(op), x.s)); } catch (Denied) { simfil::raise<simfil::InvalidOperandsError>(op); }
    }
    Value binaryOp(std::string_view op, const Term& x, const Value& v) const override {
        if (v.isa(ValueType::Undef)) broken = "binaryOp " + std::string(op) + " with undef";
        try { return make(::binary(K, std::string(op), x.s, read(v), true)); } catch (Denied) { simfil::raise<simfil::InvalidOperandsError>(op); }
    }
    Value binaryOp(std::string_view op, const Value& v, const Term& x) const override {
        if (v.isa(ValueType::Undef)) broken = "binaryOp " + std::string(op) + " with undef";
        try { return make(::binary(K, std::string(op), x.s, read(v), false)); } catch (Denied) { simfil::raise<simfil::InvalidOperandsError>(op); }
    }
    void unpack(const Term& x, std::function<bool(Value)> fn) const override {
        if (K == B) return Base::unpack(x, fn);
        bool stopped = false;
        for (auto& v : unpacked(x.s)) { if (stopped) { broken = "unpack went on"; return; } if (!fn(make(v))) return; }
    }
};
TermType<A> apple;
TermType<B> birne;
const simfil::MetaType* metaOf(Kind k) { return k == A ? static_cast<const simfil::MetaType*>(&apple) : &birne; }
Value make(const V& v) {
    switch (v.k) {
    case Null: return Value::null();
    case Bool: return Value::make(v.b);
    case Int: return Value::make(v.i);
    case Str: return Value::make(v.s);
    case A: case B: {
        simfil::TransientObject o(metaOf(v.k));
        static_cast<Term*>(o.data)->s = v.s;
        return Value(ValueType::TransientObject, std::move(o));
    }
    default: return Value::undef();
    }
}
V read(const Value& v) {
    switch (v.type) {
    case ValueType::Undef: { V r; r.k = Undef; return r; }
    case ValueType::Null: return vNull();
    case ValueType::Bool: return vBool(v.as<ValueType::Bool>());
    case ValueType::Int: return vInt(v.as<ValueType::Int>());
    case ValueType::String: return vStr(v.as<ValueType::String>());
    case ValueType::TransientObject: {
        auto& o = std::get<simfil::TransientObject>(v.value);
        if (auto p = apple.get(o)) return vTerm(A, p->s);
        if (auto p = simfil::getObject<Term>(v, &birne)) return vTerm(B, p->s);
        broken = "a transient object of no known type"; return vNull();
    }
    case ValueType::Object: { V r; r.k = Node; r.s = "object"; return r; }
    case ValueType::Array: { V r; r.k = Node; r.s = "array"; return r; }
    case ValueType::Float: sawFloat = true; return vNull();  // a plain value was cast
    default: broken = "a value of no expected type"; return vNull();
    }
}

// The user's functions.
simfil::Environment* theEnv = nullptr;
bool evaluating = false;
std::vector<std::string> journal;
struct Fn : simfil::Function {
    enum What { Wrap, List, Tick, Fail, Where, Nothing } what; Kind k; std::string name;
    mutable simfil::FnInfo info;
    Fn(What w, Kind k, std::string n) : what(w), k(k), name(std::move(n)), info{name, "", ""} {}
    const simfil::FnInfo& ident() const override { return info; }
    simfil::Result eval(simfil::Context ctx, Value val, const std::vector<simfil::ExprPtr>& args, const simfil::ResultFn& res) const override {
        using simfil::Result;
        if (ctx.env != theEnv) broken = name + " is called with another environment";
        if ((ctx.phase == simfil::Context::Phase::Evaluation) != evaluating) broken = name + " is told a wrong phase";
        for (auto& a : args) if (!a) broken = name + " is given a null argument";
        bool compiling = ctx.phase == simfil::Context::Phase::Compilation;
        switch (what) {
        case Wrap: { // every value of every argument becomes a term
            if (args.empty()) return res(ctx, make(vTerm(k, "-")));
            for (auto& a : args) {
                bool stopped = false;
                auto r = a->eval(ctx, val, simfil::LambdaResultFn([&](simfil::Context c, Value v) {
                    if (stopped) broken = name + " is sent values after it stopped";
                    auto r = v.isa(ValueType::Undef) ? res(c, std::move(v)) : res(c, make(vTerm(k, look(read(v)))));
                    stopped = r == Result::Stop;
                    return r;
                }));
                if (stopped && r != Result::Stop) broken = "an argument of " + name + " forgets that it was stopped";
                if (r == Result::Stop) return Result::Stop;
            }
            return Result::Continue; }
        case List:
            for (auto& a : args) if (a->eval(ctx, val, res) == Result::Stop) return Result::Stop;
            return Result::Continue;
        case Tick: case Fail: {
            if (compiling) return res(ctx, Value::undef());
            std::string s = name;
            for (auto& a : args) {
                auto [single, v] = simfil::util::evalArg1Any(ctx, val, a);
                s += single ? " " + look(read(v)) : std::string(" many");
            }
            journal.push_back(s);
            if (what == Fail) throw std::logic_error(s);
            return res(ctx, Value::make(int64_t(journal.size()))); }
        case Where: // the current value
            return res(ctx, val.isa(ValueType::Undef) ? Value::undef() : Value::make(look(read(val))));
        default:
            return Result::Continue;
        }
    }
};

// Expressions over them.
struct E; using EP = std::shared_ptr<E>;
enum class X { Lit, Field, Items, Const, Self, Call, Un, Post, Cast, Bin, And, Or, Word1, Word2, Idx, Sub, Unpack, Quant };
struct E { X x; V v; std::string s; std::vector<EP> a; };
EP mk(X x, std::string s, std::vector<EP> a = {}, V v = {}) { return std::make_shared<E>(E{x, std::move(v), std::move(s), std::move(a)}); }

struct User {
    std::vector<Fn> fns;
    std::vector<std::pair<std::string, V>> constants;
};
std::string casing(Tape& t, std::string s) {
    switch (t.below(4)) {
    case 0: case 1: return s;
    case 2: s[0] = char(toupper((unsigned char)s[0])); return s;
    default: for (auto& c : s) if (t.flip()) c = isupper((unsigned char)c) ? char(tolower((unsigned char)c)) : char(toupper((unsigned char)c)); return s;
    }
}
std::string print(const E& e, Tape& t) {
    auto p = [&](const EP& x) {
        auto s = print(*x, t);
        bool atom = x->x == X::Lit || x->x == X::Field || x->x == X::Const || x->x == X::Self || x->x == X::Call || x->x == X::Quant;
        return atom && !(x->x == X::Lit && t.chance(1, 8)) ? s : "(" + s + ")";
    };
    auto args = [&] { std::string s; for (size_t i = 0; i < e.a.size(); ++i) s += (i ? ", " : "") + print(*e.a[i], t); return s; };
    switch (e.x) {
    case X::Lit: return look(e.v);
    case X::Field: return e.s;
    case X::Items: return "l.*";
    case X::Const: { auto s = casing(t, e.s); for (auto& c : s) if (islower((unsigned char)c)) return s; return e.s; }
    case X::Self: return "_";
    case X::Call: case X::Quant: return casing(t, e.s) + "(" + args() + ")";
    case X::Un: return e.s + " " + p(e.a[0]);
    case X::Post: return p(e.a[0]) + "?";
    case X::Cast: return p(e.a[0]) + " as " + casing(t, e.s);
    case X::Bin: return p(e.a[0]) + " " + e.s + " " + p(e.a[1]);
    case X::And: return p(e.a[0]) + " and " + p(e.a[1]);
    case X::Or: return p(e.a[0]) + " or " + p(e.a[1]);
    case X::Word1: return p(e.a[0]) + " " + e.s;
    case X::Word2: return p(e.a[0]) + " " + e.s + " " + p(e.a[1]);
    case X::Idx: return p(e.a[0]) + "[" + print(*e.a[1], t) + "]";
    case X::Sub: return p(e.a[0]) + "{" + print(*e.a[1], t) + "}";
    case X::Unpack: return p(e.a[0]) + "...";
    }
    return "";
}

struct Fails { std::string what; bool own; };  // own: raised by a user's function, arrives as it is
using K = std::function<bool(const V&)>;
struct Ref {
    const User& u;
    std::vector<std::string> log;
    size_t steps = 0;
    bool truthy(const V& v) { return v.k == A || v.k == B ? unary(v.k, "?", v.s).b : !(v.k == Null || (v.k == Bool && !v.b)); }
    V un(const std::string& op, const V& v) {
        if (v.k == A || v.k == B) { try { return unary(v.k, op, v.s); } catch (Denied) { throw Fails{"denied " + op, false}; } }
        if (op == "?") return vBool(truthy(v));
        throw Fails{"plain", false};
    }
    V bin(const std::string& op, const V& l, const V& r) {
        try {
            if (l.k == A || l.k == B) return binary(l.k, op, l.s, r, true);
            if (r.k == A || r.k == B) return binary(r.k, op, r.s, l, false);
        } catch (Denied) { throw Fails{"denied " + op, false}; }
        throw Fails{"plain", false};
    }
    // Calls k with every value until it returns false; returns false then.
    bool go(const E& e, const V& cur, const K& k) {
        if (++steps > 20000) throw Fails{"too many steps", false};
        switch (e.x) {
        case X::Lit: return k(e.v);
        case X::Const: for (auto& [n, v] : u.constants) if (n == e.s) return k(v); return true;
        case X::Self: return k(cur);
        case X::Field:
            if (e.s == "a") return k(vInt(1));
            if (e.s == "s") return k(vStr("x"));
            if (e.s == "t") return k(vBool(true));
            if (e.s == "o") { V v; v.k = Node; v.s = "object"; return k(v); }
            return k(vNull());
        case X::Items: for (int i = 1; i <= 3; ++i) if (!k(vInt(i))) return false; return true;
        case X::Un: return go(*e.a[0], cur, [&](const V& v) { return k(un(e.s, v)); });
        case X::Post: return go(*e.a[0], cur, [&](const V& v) { return k(un("?", v)); });
        case X::Cast: return go(*e.a[0], cur, [&](const V& v) { return k(un(e.s == "bool" ? "?" : e.s, v)); });
        case X::Word1: return go(*e.a[0], cur, [&](const V& v) { return k(un(e.s, v)); });
        case X::Bin: case X::Word2: return go(*e.a[0], cur, [&](const V& l) { return go(*e.a[1], cur, [&](const V& r) { return k(bin(e.s, l, r)); }); });
        case X::Idx: { return go(*e.a[0], cur, [&](const V& l) { if (l.k != A && l.k != B && e.a[0]->x != X::Lit) throw Fails{"plain", false}; return go(*e.a[1], cur, [&](const V& r) { return k(bin("[]", l, r)); }); }); }
        case X::And: return go(*e.a[0], cur, [&](const V& l) { return truthy(l) ? go(*e.a[1], cur, k) : k(l); });
        case X::Or: return go(*e.a[0], cur, [&](const V& l) { return truthy(l) ? k(l) : go(*e.a[1], cur, k); });
        case X::Sub: {
            bool any = false;
            bool r = go(*e.a[0], cur, [&](const V& l) { return go(*e.a[1], l, [&](const V& c) { if (!truthy(c)) return true; any = true; return k(l); }); });
            return any ? r : k(vNull()); }
        case X::Unpack: {
            bool any = false;
            bool r = go(*e.a[0], cur, [&](const V& v) {
                if (v.k == B) throw Fails{"cannot be unpacked", false};
                if (v.k == A) { for (auto& x : unpacked(v.s)) { any = true; if (!k(x)) return false; } return true; }
                any = true; return k(v); });
            return any ? r : k(vNull()); }
        case X::Quant: {
            bool isCount = e.s == "count", isAny = e.s == "any", res = !isAny;
            int64_t n = 0;
            for (auto& a : e.a) {
                go(*a, cur, [&](const V& v) { if (isCount) { n += truthy(v); return true; } if (truthy(v) == isAny) { res = isAny; return false; } return true; });
                if (!isCount && res == isAny) break;
            }
            return k(isCount ? vInt(n) : vBool(res)); }
        case X::Call: {
            const Fn* f = nullptr;
            for (auto& x : u.fns) if (x.name == e.s) f = &x;
            if (!f) throw Fails{"unknown function", false};
            bool any = false;
            K kk = [&](const V& v) { any = true; return k(v); };
            bool r = true;
            switch (f->what) {
            case Fn::Wrap:
                if (e.a.empty()) r = kk(vTerm(f->k, "-"));
                for (auto& a : e.a) if (!(r = go(*a, cur, [&](const V& v) { return kk(vTerm(f->k, look(v))); }))) break;
                break;
            case Fn::List: for (auto& a : e.a) if (!(r = go(*a, cur, kk))) break; break;
            case Fn::Tick: case Fn::Fail: {
                std::string s = f->name;
                for (auto& a : e.a) { size_t n = 0; V last; go(*a, cur, [&](const V& v) { ++n; last = v; return true; }); s += n == 1 ? " " + look(last) : std::string(" many"); }
                log.push_back(s);
                if (f->what == Fn::Fail) throw Fails{s, true};
                r = kk(vInt(int64_t(log.size())));
                break; }
            case Fn::Where: r = kk(vStr(look(cur))); break;
            case Fn::Nothing: break;
            }
            return any ? r : k(vNull()); }
        }
        return true;
    }
};

struct G {
    Tape& t; User& u; bool inSub = false, plainSelf = false, risky = false;
    std::string fn(Fn::What w, Kind k = A) { for (auto& f : u.fns) if (f.what == w && (w != Fn::Wrap || f.k == k)) return f.name; return "nosuch"; }
    EP lit() {
        switch (t.below(4)) {
        case 0: return mk(X::Lit, "", {}, vInt(int64_t(t.below(12))));
        case 1: return mk(X::Lit, "", {}, vStr(t.oneOf<const char*>({"", "q", "two words"})));
        case 2: return mk(X::Lit, "", {}, vBool(t.flip()));
        default: return mk(X::Lit, "", {}, vNull());
        }
    }
    EP plain(int d) { // a value of a built-in type
        switch (t.weighted({4, 4, 1, 1, unsigned(d > 0) * 2, unsigned(d > 0) * 2, unsigned(d > 0), unsigned(d > 0)})) {
        case 0: return lit();
        case 1: return inSub ? lit() : mk(X::Field, t.oneOf<const char*>({"a", "s", "t", "n", "o", "missing"}));
        case 2: return inSub ? lit() : mk(X::Items, "");
        case 3: return mk(X::Call, fn(t.flip() ? Fn::Tick : Fn::Where), {});
        case 4: return mk(X::Bin, t.oneOf<const char*>({"==", "!=", "<", "|"}), {term(d - 1), t.flip() ? term(d - 1) : plain(d - 1)});
        case 5: return mk(X::Cast, t.oneOf<const char*>({"bool", "string", "int"}), {term(d - 1)});
        case 6: return mk(X::Un, "typeof", {term(d - 1)});
        default: return quant(d - 1);
        }
    }
    EP term(int d) { // a value of the user's types
        switch (t.weighted({5, 2, unsigned(inSub) * 5, unsigned(d > 0) * 5, unsigned(d > 0) * 10, unsigned(d > 0) * 3, unsigned(d > 0) * 2, unsigned(d > 0) * 2})) {
        case 0: { std::vector<EP> a; auto n = t.below(3); for (size_t i = 0; i < n; ++i) a.push_back(d > 0 ? any(d - 1) : lit()); return mk(X::Call, fn(Fn::Wrap, t.flip() ? A : B), a); }
        case 1: return mk(X::Const, t.pick(u.constants).first);
        case 2: if (plainSelf) risky = true; return mk(X::Self, "");
        case 3: { auto op = t.oneOf<std::string>({"-", "not", "#", "~"}); if (op == "~") risky = true; return mk(X::Un, op, {term(d - 1)}); }
        case 4: {
            static const char* ops[] = {"+", "-", "*", "/", "%", "<=", ">", ">=", "&", "^", "<<"};
            std::string op = t.pick(ops);
            if (op == "%") { if (t.chance(2, 3)) op = "+"; else risky = true; }
            bool tl = t.chance(2, 3);
            return mk(X::Bin, op, {tl ? term(d - 1) : plain(d - 1), !tl || t.flip() ? term(d - 1) : plain(d - 1)}); }
        case 5: { bool tl = t.chance(2, 3); auto w = t.oneOf<std::string>({"near", "overLaps", "x", "touches_2"});
            if (t.flip()) return mk(X::Word1, w, {term(d - 1)});
            return mk(X::Word2, w, {tl ? term(d - 1) : plain(d - 1), !tl || t.flip() ? term(d - 1) : plain(d - 1)}); }
        case 6: return mk(X::Idx, "", {t.flip() ? term(d - 1) : t.flip() ? mk(X::Lit, "", {}, vInt(3)) : mk(X::Lit, "", {}, vStr("z")), term(d - 1)});
        default: return t.flip() ? mk(X::Cast, "float", {term(d - 1)}) : mk(X::Call, fn(Fn::List), {term(d - 1), term(d - 1)});
        }
    }
    EP quant(int d) { std::vector<EP> a; auto n = 1 + t.below(2); for (size_t i = 0; i < n; ++i) a.push_back(any(d)); return mk(X::Quant, t.oneOf<const char*>({"any", "each", "count"}), a); }
    EP any(int d) {
        switch (t.weighted({4, 3, unsigned(d > 0) * 2, unsigned(d > 0) * 2, unsigned(d > 0) * 2, unsigned(d > 0), 1, unsigned(d > 0), unsigned(d > 0)})) {
        case 0: return term(d);
        case 1: if (d > 0 && t.chance(1, 8)) return t.flip() ? mk(X::Word1, "gone", {term(d - 1)}) : mk(X::Word2, "gone", {term(d - 1), any(0)}); return plain(d);
        case 2: return mk(t.flip() ? X::And : X::Or, "", {t.chance(3, 4) ? term(d - 1) : plain(d - 1), any(d - 1)});
        case 3: { bool pure = t.flip(); auto l = pure ? term(d - 1) : mk(X::Call, fn(Fn::List), {any(d - 1), term(d - 1)}); bool s = inSub, ps = plainSelf; inSub = true; plainSelf = !pure;
            auto c = t.flip() ? mk(X::Bin, t.oneOf<const char*>({"==", "!=", "<", "+"}), {term(0), mk(X::Self, "")}) : any(d - 1); inSub = s; plainSelf = ps; return mk(X::Sub, "", {l, c}); }
        case 4: risky = true; return mk(X::Unpack, "", {t.flip() ? term(d - 1) : mk(X::Call, fn(Fn::Wrap, A), {any(d - 1)})});
        case 5: return mk(X::Post, "", {any(d - 1)});
        case 6: { if (t.chance(1, 4)) { risky = true; return mk(X::Call, "nosuch", {}); } std::vector<EP> a; auto n = t.below(3); for (size_t i = 0; i < n; ++i) a.push_back(any(d > 0 ? d - 1 : 0)); return mk(X::Call, fn(t.chance(2, 3) ? Fn::Tick : Fn::Fail), a); }
        case 7: { std::vector<EP> a; auto n = t.below(4); for (size_t i = 0; i < n; ++i) a.push_back(any(d - 1)); return mk(X::Call, fn(Fn::List), a); }
        default: return t.flip() ? mk(X::Call, fn(Fn::Nothing), {lit()}) : quant(d - 1);
        }
    }
};
bool uses(const E& e, X x) { if (e.x == x) return true; for (auto& c : e.a) if (uses(*c, x)) return true; return false; }
size_t nodes(const E& e) { size_t n = 1; for (auto& c : e.a) n += nodes(*c); return n; }

void userTypes(Tape& t, Ctx& ctx) {
    live = 0; broken.clear(); journal.clear(); sawFloat = false;
    {
        User u;
        // Some of the user's functions take the place of built-in ones.
        auto name = [&](const char* own, const char* builtin) { return std::string(builtin && t.chance(1, 4) ? builtin : own); };
        u.fns.emplace_back(Fn::Wrap, A, name("apple", "sum"));
        u.fns.emplace_back(Fn::Wrap, B, name("birne", "re"));
        u.fns.emplace_back(Fn::List, A, name("list", "arr"));
        u.fns.emplace_back(Fn::Tick, A, name("tick_1", "range"));
        u.fns.emplace_back(Fn::Fail, A, "broken");
        u.fns.emplace_back(Fn::Where, A, name("where", "keys"));
        u.fns.emplace_back(Fn::Nothing, A, name("nothing", "select"));
        u.constants = {{"kiwi", vTerm(A, "k")}, {"melone", vTerm(B, "m")}};
        // The document: see Ref for what its fields are.
        auto pool = simfil::json::parse(R"({"a":1,"s":"x","t":true,"n":null,"l":[1,2,3],"o":{"a":2}})");
        auto root = pool->root(0);
        bool own = t.flip();
        auto env = std::make_unique<simfil::Environment>(pool->strings());
        theEnv = env.get();
        for (auto& f : u.fns) env->functions[own ? f.name : casing(t, f.name)] = &f;
        for (auto& [n, v] : u.constants) env->constants.insert_or_assign(casing(t, n), make(v));
        for (auto& f : u.fns) REQUIRE_P(env->findFunction(casing(t, f.name)) == &f, "findFunction " << f.name);
        struct Kept { Value got; V want; }; std::vector<Kept> kept;
        auto n = 1 + t.below(3);
        for (size_t k = 0; k < n; ++k) {
            G g{t, u};
            auto e = g.any(int(t.range(1, 4)));
            auto q = print(*e, t);
            if (q.size() > 1500) continue;
            ctx.note("query " + q);
            Ref r{u};
            V root_; root_.k = Node; root_.s = "object";
            std::vector<V> want; std::string failure; bool ownFailure = false;
            try { r.go(*e, root_, [&](const V& v) { want.push_back(v); if (want.size() > 3000) throw Fails{"too many steps", false}; return true; }); }
            catch (const Fails& f) { if (f.what == "too many steps" || f.what == "plain") { ctx.label(f.what); continue; } failure = f.what; ownFailure = f.own; }
            ctx.evaluation();
            // Evaluating twice: what the extensions do is all there is to see.
            simfil::ExprPtr ast;
            std::vector<Value> got; std::string error; bool ownError = false, raised = false;
            for (int round = 0; round < 2 && !raised; ++round) {
                got.clear(); journal.clear(); sawFloat = false;
                try {
                    if (!ast) { evaluating = false; ast = simfil::compile(*env, q, false); }
                    evaluating = true;
                    got = simfil::eval(*env, *ast, *root);
                } catch (const std::exception& x) { raised = true; error = x.what(); ownError = typeid(x) == typeid(std::logic_error); }
                evaluating = false;
                REQUIRE_P(broken.empty(), quote(q) << ": " << broken);
                // Only a part which is never reached, and was computed in advance, may see one.
                REQUIRE_P(!sawFloat || g.risky, quote(q) << ": a float appears");
                if (raised && failure.empty()) {
                    // A part that is never reached may have been computed in advance.
                    REQUIRE_P(g.risky && !ownError, quote(q) << " raises " << quote(error));
                    ctx.label("constant part raises"); break;
                }
                REQUIRE_P(raised == !failure.empty(), quote(q) << " does not raise, expected " << failure);
                if (raised) {
                    if (ownFailure && !g.risky) REQUIRE_P(ownError && error == failure, quote(q) << " raises " << quote(error) << ", the user's function " << quote(failure));
                    ctx.label(ownFailure ? "user's error" : "denied");
                    break;
                }
                REQUIRE_P(journal == r.log, quote(q) << ": the functions are called as\n  " << sut::join(journal) << ", expected\n  " << sut::join(r.log));
                REQUIRE_P(got.size() == want.size(), quote(q) << " gives " << got.size() << " values instead of " << want.size());
                for (size_t i = 0; i < got.size(); ++i) {
                    auto v = read(got[i]);
                    REQUIRE_P(broken.empty() && v.k == want[i].k && look(v) == look(want[i]), quote(q) << " gives " << look(v) << " instead of " << look(want[i]) << " at " << i << ", compiled to " << ast->toString());
                    if (v.k == A) REQUIRE_P(got[i].toString() == "apple of " + v.s, "toString of " << look(v) << " is " << quote(got[i].toString()));
                    if (v.k == B) REQUIRE_P(got[i].toString() == "<Birne>", "toString of " << look(v) << " is " << quote(got[i].toString()));
                }
            }
            if (raised) { ctx.nontrivial(q); continue; }
            ast.reset();
            for (size_t i = 0; i < got.size() && i < 20; ++i) kept.push_back({std::move(got[i]), want[i]});
            if (!r.log.empty()) ctx.label("calls observed");
            for (auto [x, l] : {std::pair{X::Word1, "word operator"}, {X::Word2, "binary word operator"}, {X::Sub, "filter"}, {X::Unpack, "unpack"}, {X::Quant, "quantifier"}, {X::Idx, "subscript"}, {X::And, "and"}, {X::Or, "or"}, {X::Cast, "cast"}, {X::Const, "constant"}})
                if (uses(*e, x)) ctx.label(l);
            if (nodes(*e) > 3) ctx.nontrivial(q);
        }
        // Results are values of their own.
        env.reset();
        for (auto& [got, want] : kept) REQUIRE_P(look(read(got)) == look(want), "kept result is " << look(read(got)) << ", was " << look(want));
    }
    REQUIRE_P(live == 0, live << " payloads of the user's types are left");
}

// ------------------------------------------------------------------ C34
// The document as a model of the user's own: nodes compute their answers from a ref::Node.
struct Content {
    ref::NodeP doc;
    std::shared_ptr<StringPool> strings;
    std::vector<const ref::Node*> nodes;
    std::vector<ModelNodeAddress> addr;
    std::vector<std::vector<uint32_t>> kids;
    std::vector<std::vector<StringId>> keys;
    std::vector<uint8_t> style;
    uint32_t add(const ref::Node& n, Tape& t) {
        uint32_t i = uint32_t(nodes.size());
        nodes.push_back(&n); kids.emplace_back(); keys.emplace_back();
        addr.push_back({uint8_t(t.oneOf<int>({128, 129, 200, 255})), i});
        style.push_back(uint8_t(t.below(4)));
        for (auto& [k, c] : n.kids) {
            if (n.t == ref::T::Obj) keys[i].push_back(strings->emplace(k));
            auto j = add(*c, t); kids[i].push_back(j);
        }
        return i;
    }
};
ScalarValueType scalarOf(const ref::Node& n, bool view) {
    switch (n.t) {
    case ref::T::Bool: return n.b; case ref::T::Int: return n.i; case ref::T::Float: return n.d;
    case ref::T::Str: if (view) return std::string_view(n.s); return n.s;
    default: return std::monostate{};
    }
}
ValueType typeOf(const ref::Node& n) {
    switch (n.t) {
    case ref::T::Bool: return ValueType::Bool; case ref::T::Int: return ValueType::Int; case ref::T::Float: return ValueType::Float;
    case ref::T::Str: return ValueType::String; case ref::T::Obj: return ValueType::Object; case ref::T::Arr: return ValueType::Array;
    default: return ValueType::Null;
    }
}
template <class M> struct UserNode final : simfil::MandatoryDerivedModelNodeBase<M> {
    using Base = simfil::MandatoryDerivedModelNodeBase<M>;
    UserNode(ModelConstPtr p, ModelNodeAddress a) : Base(std::move(p), a) {}
    explicit UserNode(ModelNode const& n) : Base(n) {}
    const Content& c() const { return this->model().content; }
    uint32_t i() const { return this->addr().index(); }
    const ref::Node& n() const { return *c().nodes.at(i()); }
    ScalarValueType value() const override { return scalarOf(n(), c().style[i()] & 1); }
    ValueType type() const override { return typeOf(n()); }
    uint32_t size() const override { return uint32_t(n().kids.size()); }
    ModelNode::Ptr at(int64_t k) const override {
        if (k < 0 || k >= int64_t(n().kids.size())) return {};
        auto j = c().kids[i()][size_t(k)];
        auto& x = *c().nodes[j];
        auto a = c().addr[j];
        if (a.column() < 128) return ModelNode::Ptr::make(this->model_, a);           // a built-in node of the pool
        bool leaf = x.t != ref::T::Obj && x.t != ref::T::Arr;
        switch (c().style[j]) {
        case 0: return simfil::model_ptr<UserNode>::make(this->model_, a);              // as it is
        case 1:                                                                        // only its address, or with something that is not its value
            if (k & 1) return ModelNode::Ptr::make(this->model_, a, simfil::ScalarValueType(int64_t(7700 + k)));
            return ModelNode::Ptr::make(this->model_, a);
        case 2: if (leaf && x.t != ref::T::Null) return simfil::model_ptr<simfil::ValueNode>::make(scalarOf(x, true), this->model_); break;
        default:
            if (x.t == ref::T::Bool) return this->model().newSmallValue(x.b);
            if (x.t == ref::T::Int && x.i >= -32768 && x.i < 32768) return this->model().newSmallValue(int16_t(x.i));
            if (x.t == ref::T::Int && x.i >= 0 && x.i < 65536) return this->model().newSmallValue(uint16_t(x.i));
        }
        return simfil::model_ptr<UserNode>::make(this->model_, a);
    }
    StringId keyAt(int64_t k) const override { return n().t == ref::T::Obj && k >= 0 && k < int64_t(n().kids.size()) ? c().keys[i()][size_t(k)] : StringId(0); }
    ModelNode::Ptr get(StringId const& f) const override {
        if (n().t == ref::T::Obj) for (size_t k = 0; k < n().kids.size(); ++k) if (c().keys[i()][k] == f) return at(int64_t(k));
        return {};
    }
    bool iterate(ModelNode::IterCallback const& cb) const override {
        for (int64_t k = 0; k < int64_t(n().kids.size()); ++k) if (!cb(*at(k))) return false;
        return true;
    }
};
struct OwnModel final : simfil::Model {
    Content content;
    void resolve(ModelNode const& n, ResolveFn const& cb) const override {
        if (n.addr().column() >= 128) cb(UserNode<OwnModel>(n)); else Model::resolve(n, cb);
    }
    std::optional<std::string_view> lookupStringId(StringId id) const override { return content.strings->resolve(id); }
};
struct OwnPool final : simfil::ModelPool {
    using ModelPool::ModelPool;
    Content content;
    void resolve(ModelNode const& n, ResolveFn const& cb) const override {
        if (n.addr().column() >= FirstCustomColumnId) cb(UserNode<OwnPool>(n)); else ModelPool::resolve(n, cb);
    }
};
// Some containers and values are kept by the pool, others are the user's; they contain each other.
void settle(const std::shared_ptr<OwnPool>& p, uint32_t i, Tape& t, unsigned share) {
    auto& c = p->content;
    auto& n = *c.nodes[i];
    for (auto j : c.kids[i]) settle(p, j, t, share);
    if (t.below(4) >= share || n.t == ref::T::Null) return;
    auto ptr = [&](uint32_t j) { return ModelNode::Ptr::make(p, c.addr[j]); };
    if (n.t == ref::T::Obj) { auto o = p->newObject(t.below(4)); for (size_t k = 0; k < n.kids.size(); ++k) o->addField(n.kids[k].first, ptr(c.kids[i][k])); c.addr[i] = o->addr(); }
    else if (n.t == ref::T::Arr) { auto a = p->newArray(t.below(4)); for (auto j : c.kids[i]) a->append(ptr(j)); c.addr[i] = a->addr(); }
    else if (n.t == ref::T::Float) c.addr[i] = p->newValue(n.d)->addr();
    else if (n.t == ref::T::Int) c.addr[i] = p->newValue(n.i)->addr();
    else if (n.t == ref::T::Str) c.addr[i] = p->newValue(std::string_view(n.s))->addr();
    else if (n.t == ref::T::Bool) c.addr[i] = p->newSmallValue(n.b)->addr();
}
std::string scalarText(const ScalarValueType& v) {
    return std::visit([](auto& x) -> std::string {
        using T = std::decay_t<decltype(x)>;
        if constexpr (std::is_same_v<T, std::monostate>) return "null";
        else if constexpr (std::is_same_v<T, bool>) return x ? "true" : "false";
        else if constexpr (std::is_same_v<T, int64_t>) return std::to_string(x);
        else if constexpr (std::is_same_v<T, double>) { char b[64]; snprintf(b, sizeof b, "%a", x); return b; }
        else return quote(std::string(x));
    }, v);
}
// What a node answers, reached in any way.
void walk(const ModelNode& node, const ref::Node& n, const Content& c, Tape& t, size_t& budget, const std::string& path) {
    if (!budget) return;
    --budget;
    REQUIRE_P(node.type() == typeOf(n), path << ": type " << int(node.type()));
    REQUIRE_P(node.size() == n.kids.size(), path << ": size " << node.size());
    bool box = n.t == ref::T::Obj || n.t == ref::T::Arr;
    if (!box) REQUIRE_P(scalarText(node.value()) == scalarText(scalarOf(n, true)), path << ": value " << scalarText(node.value()));
    auto sz = int64_t(n.kids.size());
    for (int64_t i : {int64_t(-1), sz, sz + 5}) REQUIRE_P(!node.at(i), path << ": at(" << i << ") of " << sz);
    size_t count = 0;
    REQUIRE_P(node.iterate(ModelNode::IterLambda([&](auto const& child) { if (count < n.kids.size() && child.type() != typeOf(*n.kids[count].second)) return false; ++count; return true; })) && count == n.kids.size(), path << ": iterate visits " << count << " of " << sz);
    if (sz) {
        count = 0;
        auto stop = t.below(size_t(sz));
        REQUIRE_P(!node.iterate(ModelNode::IterLambda([&](auto const&) { return count++ < stop; })) && count == stop + 1, path << ": iterate, stopped at " << stop << ", visits " << count);
    }
    count = 0;
    for (auto child : node) { REQUIRE_P(child && count < n.kids.size() && child->type() == typeOf(*n.kids[count].second), path << ": child " << count); ++count; }
    REQUIRE_P(count == n.kids.size(), path << ": " << count << " children");
    if (n.t == ref::T::Obj) {
        count = 0;
        for (auto id : node.fieldNames()) { auto s = c.strings->resolve(id); REQUIRE_P(s && ref::lower(std::string(*s)) == ref::lower(n.kids.at(count).first), path << ": field name " << count); ++count; }
        REQUIRE_P(count == n.kids.size(), path << ": " << count << " field names");
        count = 0;
        for (auto [id, child] : node.fields()) { REQUIRE_P(id == node.keyAt(int64_t(count)) && child && child->type() == typeOf(*n.kids.at(count).second), path << ": field " << count); ++count; }
        REQUIRE_P(count == n.kids.size(), path << ": " << count << " fields");
        REQUIRE_P(!node.get(c.strings->emplace("no such field")), path << ": get of no field");
        for (auto& [k, x] : n.kids) {
            const ref::Node* first = nullptr;
            for (auto& [k2, y] : n.kids) if (ref::lower(k2) == ref::lower(k)) { first = y.get(); break; }
            auto p = node.get(c.strings->get(k));
            REQUIRE_P(p && p->type() == typeOf(*first), path << ": get " << quote(k));
            if (t.flip()) walk(*p, *first, c, t, budget, path + "." + k);
        }
    }
    for (int64_t i = 0; i < sz; ++i) {
        auto p = node.at(i);
        REQUIRE_P(bool(p), path << ": at(" << i << ")");
        walk(*p, *n.kids[size_t(i)].second, c, t, budget, path + "[" + std::to_string(i) + "]");
    }
}
ref::ExP anyQuery(ref::Gen& g, Tape& t, int d) {
    switch (t.weighted({3, 2, 3, 2, 4, 4})) {
    case 0: return g.num(d); case 1: return g.str(d); case 2: return g.boolean(d); case 3: return g.model(d); case 4: return g.multi(d);
    default: return g.path(t.oneOf({'i', 's', 'o', 'a', 'm', 'f', 'b', 'n', 'u'}), d);
    }
}
template <class M> void modelCase(Tape& t, Ctx& ctx, std::shared_ptr<M> m, std::shared_ptr<StringPool> strings) {
    auto& c = m->content;
    auto& doc = *c.doc;
    auto dump = [](auto&& j) { return j.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace); };
    auto root = ModelNode::Ptr::make(m, c.addr[0]);
    if (c.addr[0].column() >= 128 && t.flip()) root = simfil::model_ptr<UserNode<M>>::make(m, c.addr[0]);
    size_t budget = 150;
    walk(*root, doc, c, t, budget, "root");
    REQUIRE_P(dump(root->toJson()) == dump(doc.json()), "toJson gives " << dump(root->toJson()) << " instead of " << dump(doc.json()));
    auto env = std::make_unique<simfil::Environment>(strings);
    std::vector<std::pair<std::vector<Value>, std::vector<std::string>>> kept;
    auto n = 1 + t.below(4);
    for (size_t k = 0; k < n; ++k) {
        ref::Cfg cfg; cfg.wild = 5; cfg.sub = 5; cfg.idx = 5; cfg.keys = 2; cfg.sum = 2; cfg.noise = 5;
        ref::Gen g{t, cfg};
        auto e = anyQuery(g, t, int(t.range(1, 3)));
        ref::PrintOpt po; po.minimal = t.flip(); po.noise = &t;
        auto q = ref::print(*e, po);
        ctx.note("query " + q);
        // Queries start at any node.
        const ref::Node* start = &doc; ModelNode::Ptr from = root;
        while (!start->kids.empty() && t.chance(1, 4)) { auto i = t.below(start->kids.size()); start = start->kids[i].second.get(); from = from->at(int64_t(i)); }
        if (start != &doc) { ctx.note("from " + start->text()); ctx.label("inner node"); }
        auto x = sut::expect(*e, *start);
        ctx.evaluation();
        if (x.kind == sut::Expected::NoClaim) { ctx.label("no claim"); continue; }
        sut::Outcome o; std::vector<Value> vals;
        try {
            auto ast = simfil::compile(*env, q, false); o.ast = ast->toString();
            try { vals = simfil::eval(*env, *ast, *from); for (auto& v : vals) o.vals.push_back(sut::render(v)); }
            catch (const std::exception& er) { o.kind = sut::Outcome::EvalError; o.msg = er.what(); o.vals.clear(); }
        } catch (const std::exception& er) { o.kind = sut::Outcome::CompileError; o.msg = er.what(); }
        if (!sut::agree(ctx, x, o, "query " + quote(q))) continue;
        if (x.kind == sut::Expected::Values) {
            if (sut::hasNonNull(x) && (x.seen.count("field") || x.seen.count("path") || x.seen.count("*") || x.seen.count("**") || x.seen.count("index"))) ctx.nontrivial(q + "\x01" + start->text());
            kept.emplace_back(std::move(vals), x.vals);
        }
    }
    // Results keep the model they belong to.
    root = {}; env.reset(); m.reset();
    for (auto& [vals, want] : kept) { std::vector<std::string> r; for (auto& v : vals) r.push_back(sut::render(v)); REQUIRE_P(r == want, "results kept: " << sut::join(r) << ", were " << sut::join(want)); }
}
void userModels(Tape& t, Ctx& ctx) {
    auto strings = std::make_shared<StringPool>();
    auto doc = ref::genDoc(t, int(t.range(1, 4)), t.chance(1, 5));
    ctx.note("document " + doc->text());
    auto fill = [&](Content& c) { c.doc = std::move(doc); c.strings = strings; c.add(*c.doc, t); };
    if (t.flip()) {
        auto m = std::make_shared<OwnModel>();
        fill(m->content);
        ctx.label("own model");
        modelCase(t, ctx, std::move(m), strings);
    } else {
        auto m = std::make_shared<OwnPool>(strings);
        fill(m->content);
        auto share = unsigned(t.below(4));
        settle(m, 0, t, share);
        m->addRoot(ModelNode::Ptr::make(m, m->content.addr[0]));
        auto errors = m->checkForErrors();
        REQUIRE_P(errors.empty(), "checkForErrors: " << errors[0]);
        ctx.label(share ? "own and built-in nodes" : "own nodes in a pool");
        modelCase(t, ctx, std::move(m), strings);
    }
}
} // namespace
PROPERTY({"C33", "Random expressions over two types, seven functions and two constants of the user's own (the types record which operator was called with what), all operators, word operators, casts, filters, quantifiers, unpacking; compared with a reference evaluator in values, calls and their order. Non-trivial: more than three parts, or an error of the user's.", 100000, 1000000, userTypes});
PROPERTY({"C34", "Random documents served by a model class of the user's own, or by a pool subclass whose own nodes and built-in nodes contain each other; navigation and random queries from any node against the reference. Non-trivial: a path, wildcard or subscript gave a non-null value.", 100000, 1000000, userModels});
