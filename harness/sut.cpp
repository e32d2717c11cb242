#include "sut.h"
#include <algorithm>
#include <cmath>

namespace sut {
using namespace simfil;
using pbt::Tape;

ModelNode::Ptr buildNode(const std::shared_ptr<ModelPool>& pool, const ref::Node& n, Tape* t) {
    switch (n.t) {
    case ref::T::Bool: return pool->newSmallValue(n.b);
    case ref::T::Int:
        if (t && n.i >= 0 && n.i <= 65535 && t->flip()) return pool->newSmallValue(uint16_t(n.i));
        if (t && n.i >= -32768 && n.i <= 32767 && t->flip()) return pool->newSmallValue(int16_t(n.i));
        return pool->newValue(n.i);
    case ref::T::Float: return pool->newValue(n.d);
    case ref::T::Str: return pool->newValue(std::string_view(n.s));
    case ref::T::Obj: case ref::T::Arr: {
        bool late = t && t->chance(1, 4);   // children exist before their parent
        std::vector<ModelNode::Ptr> pre;
        if (late) for (auto& [k, c] : n.kids) pre.push_back(buildNode(pool, *c, t));
        size_t cap = t ? size_t(t->below(4)) : 2, i = 0;
        if (n.t == ref::T::Obj) {
            auto o = pool->newObject(cap);
            for (auto& [k, c] : n.kids) o->addField(k, late ? pre[i++] : buildNode(pool, *c, t));
            return o;
        }
        auto a = pool->newArray(cap);
        for (auto& [k, c] : n.kids) a->append(late ? pre[i++] : buildNode(pool, *c, t));
        return a;
    }
    default: return ModelNode::Ptr::make(std::static_pointer_cast<simfil::Model>(pool), ModelNodeAddress{simfil::Model::Null, 1});
    }
}
Model build(const ref::Node& n, std::shared_ptr<StringPool> strings, Tape* t) {
    Model m;
    m.pool = std::make_shared<ModelPool>(std::move(strings));
    auto r = buildNode(m.pool, n, t);
    m.pool->addRoot(r);
    m.root = m.pool->root(0);
    return m;
}
Model build(const ref::Node& n, Tape* t) { return build(n, std::make_shared<StringPool>(), t); }
void sortKeys(ref::Node& n) {
    if (n.t == ref::T::Obj) std::stable_sort(n.kids.begin(), n.kids.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& [k, c] : n.kids) sortKeys(*c);
}

std::string join(const std::vector<std::string>& v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i) { if (i) s += ", "; if (s.size() > 1500) { s += "..."; break; } s += v[i]; }
    return s + "] (" + std::to_string(v.size()) + ")";
}
std::string render(const Value& v) {
    switch (v.type) {
    case ValueType::Undef: return "undef:";
    case ValueType::Null: return "null:null";
    case ValueType::Bool: return v.as<ValueType::Bool>() ? "bool:true" : "bool:false";
    case ValueType::Int: return "int:" + std::to_string(v.as<ValueType::Int>());
    case ValueType::Float: { double d = v.as<ValueType::Float>(); if (std::isnan(d)) return "float:nan"; char b[64]; snprintf(b, sizeof b, "float:%a", d); return b; }
    case ValueType::String: return "string:" + v.as<ValueType::String>();
    case ValueType::TransientObject: {
        auto o = v.as<ValueType::TransientObject>();
        if (!o.meta) return "transient:none";
        auto s = o.meta->unaryOp("string", o);
        return o.meta->ident + ":" + (s.isa(ValueType::String) ? s.as<ValueType::String>() : render(s));
    }
    case ValueType::Object: case ValueType::Array:
        return std::string(v.type == ValueType::Object ? "object:" : "array:") +
            (v.node ? v.node->toJson().dump(-1, ' ', false, nlohmann::json::error_handler_t::replace) : "nonode");
    }
    return "?";
}
std::string Outcome::str() const {
    if (kind == Ok) return join(vals);
    return std::string(kind == CompileError ? "compile error: " : "evaluation error: ") + msg;
}
std::string Expected::str() const {
    return kind == Raises ? "an error (" + why + ")" : kind == NoClaim ? "anything (" + why + ")" : join(vals);
}
Outcome query(Environment& env, const std::string& q, const ModelNode& root, Opt op) {
    Outcome o;
    ExprPtr ast;
    try { ast = compile(env, q, op.any, op.autoWild); o.ast = ast->toString(); }
    catch (const std::exception& e) { o.kind = Outcome::CompileError; o.msg = e.what(); return o; }
    try { for (auto& v : eval(env, *ast, root)) o.vals.push_back(render(v)); }
    catch (const std::exception& e) { o.kind = Outcome::EvalError; o.msg = e.what(); o.vals.clear(); }
    return o;
}

static bool constantOnly(const ref::Ex& e) {
    using ref::K;
    switch (e.k) {
    case K::Field: return e.b;
    case K::Self: case K::Any: case K::Wild: case K::SubPre: case K::IdxPre: return false;
    case K::Call: if (e.s == "trace") return false; break;
    case K::Cast: if (ref::lower(e.s) == "null") return true; break;
    default: break;
    }
    for (auto& c : e.a) if (!constantOnly(*c)) return false;
    return true;
}
Expected expect(const ref::Ex& e, const ref::Node& doc, const ref::Env& base) {
    Expected x;
    // Constant parts may be evaluated at compile time whether or not evaluation reaches them.
    std::function<void(const ref::Ex&)> scan = [&](const ref::Ex& s) {
        if (s.k != ref::K::Lit && constantOnly(s)) {
            ref::Env env = base; env.traces.clear();
            try { ref::evalOn(s, ref::Val{}, env); }
            catch (const ref::Error&) { x.mayRaise = true; }
            catch (const ref::OutOfDomain& o) { x.kind = Expected::NoClaim; x.why = o.why; }
        } else if (s.k == ref::K::Lit && s.t == ref::T::Re) {
            ref::Env env;
            try { ref::evalOn(s, ref::Val{}, env); } catch (const ref::Error&) { x.mayRaise = true; } catch (const ref::OutOfDomain&) {}
        } else if (!s.a.empty() && s.k != ref::K::And && s.k != ref::K::Or && !x.mayRaiseCompile) {
            // A call that is wrong for every input may be rejected wherever it stands.
            int n = 0;
            for (int i = 0; i < 2; ++i) {
                ref::Env env = base; env.traces.clear(); env.budget = 3000;
                try { if (i) ref::eval(s, doc, env); else ref::evalOn(s, ref::Val{}, env); } catch (const ref::Error&) { ++n; } catch (const ref::OutOfDomain&) {}
            }
            if (n == 2) x.mayRaiseCompile = true;
        }
        for (auto& c : s.a) scan(*c);
    };
    scan(e);
    if (x.kind == Expected::NoClaim) return x;
    ref::Env env = base;
    try { for (auto& v : ref::eval(e, doc, env)) x.vals.push_back(ref::render(v)); }
    catch (const ref::Error& er) { x.kind = Expected::Raises; x.why = er.msg; }
    catch (const ref::OutOfDomain& o) { x.kind = Expected::NoClaim; x.why = o.why; }
    x.seen = std::move(env.visited);
    x.traces = std::move(env.traces);
    return x;
}
bool hasNonNull(const Expected& e) {
    for (auto& v : e.vals) if (v != "null:null") return true;
    return false;
}
bool agree(pbt::Ctx& ctx, const Expected& x, const Outcome& o, const std::string& what) {
    if (x.kind == Expected::NoClaim) { ctx.label("no claim: " + x.why); return false; }
    if (x.kind == Expected::Raises) {
        if (!o.raised()) pbt::fail(what + ": expected an error (" + x.why + "), got " + o.str() + "\n  compiled to " + o.ast);
        ctx.label("raises");
        return true;
    }
    if (o.raised()) {
        if (x.mayRaise || (x.mayRaiseCompile && o.kind == Outcome::CompileError)) { ctx.label("constant part raises"); return false; }
        pbt::fail(what + ": expected " + x.str() + ", got " + o.str());
    }
    if (o.vals != x.vals) pbt::fail(what + ":\n  expected " + x.str() + "\n  got      " + o.str() + "\n  compiled to " + o.ast);
    ctx.label("agrees");
    return true;
}
} // namespace sut
