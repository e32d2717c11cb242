#include "ref.h"
#include <algorithm>
#include <cmath>
#include <limits>
#include <regex>

namespace ref {
using pbt::Tape;

std::string lower(std::string s) {
    for (auto& c : s) if (c >= 'A' && c <= 'Z') c = char(c - 'A' + 'a');
    return s;
}
const char* typeName(T t) {
    switch (t) {
    case T::Null: return "null"; case T::Bool: return "bool"; case T::Int: return "int";
    case T::Float: return "float"; case T::Str: return "string"; case T::Obj: return "object";
    case T::Arr: return "array"; case T::Range: return "irange"; case T::Re: return "re";
    }
    return "?";
}

// ---------------------------------------------------------------- documents
static NodeP mkn(T t) { auto n = std::make_unique<Node>(); n->t = t; return n; }
NodeP mkNull() { return mkn(T::Null); }
NodeP mkBool(bool b) { auto n = mkn(T::Bool); n->b = b; return n; }
NodeP mkInt(int64_t i) { auto n = mkn(T::Int); n->i = i; return n; }
NodeP mkFloat(double d) { auto n = mkn(T::Float); n->d = d; return n; }
NodeP mkStr(std::string s) { auto n = mkn(T::Str); n->s = std::move(s); return n; }
NodeP mkObj() { return mkn(T::Obj); }
NodeP mkArr() { return mkn(T::Arr); }

nlohmann::json Node::json() const {
    using nlohmann::json;
    switch (t) {
    case T::Bool: return b;
    case T::Int: return i;
    case T::Float: return d;
    case T::Str: return s;
    case T::Arr: { auto j = json::array(); for (auto& [k, v] : kids) j.push_back(v->json()); return j; }
    case T::Obj: {
        bool repeated = false;
        std::set<std::string> seen;
        for (auto& [k, v] : kids) if (!seen.insert(k).second) repeated = true;
        auto j = json::object();
        for (auto& [k, v] : kids) {
            if (!repeated) j[k] = v->json();
            else { if (!j.contains(k)) j[k] = json::array(); j[k].push_back(v->json()); }
        }
        if (repeated) j["_multimap"] = true;
        return j;
    }
    default: return nullptr;
    }
}
std::string Node::text() const {
    if (t == T::Arr) { std::string o = "["; bool f = true; for (auto& [k, v] : kids) { if (!f) o += ","; f = false; o += v->text(); } return o + "]"; }
    if (t == T::Obj) { std::string o = "{"; bool f = true; for (auto& [k, v] : kids) { if (!f) o += ","; f = false; o += nlohmann::json(k).dump() + ":" + v->text(); } return o + "}"; }
    return json().dump();
}
size_t Node::count() const { size_t c = 1; for (auto& [k, v] : kids) c += v->count(); return c; }

// -------------------------------------------------------------- expressions
static ExP mke(K k) { auto e = std::make_shared<Ex>(); e->k = k; return e; }
ExP lit() { auto e = mke(K::Lit); e->t = T::Null; return e; }
ExP litB(bool b) { auto e = mke(K::Lit); e->t = T::Bool; e->b = b; return e; }
ExP litI(int64_t i) { auto e = mke(K::Lit); e->t = T::Int; e->i = i; return e; }
ExP litF(double d) { auto e = mke(K::Lit); e->t = T::Float; e->d = d; return e; }
ExP litS(std::string s) { auto e = mke(K::Lit); e->t = T::Str; e->s = std::move(s); return e; }
ExP litRe(std::string s) { auto e = mke(K::Lit); e->t = T::Re; e->s = std::move(s); return e; }
ExP field(std::string s) { auto e = mke(K::Field); e->s = std::move(s); return e; }
ExP self() { return mke(K::Self); }
ExP any() { return mke(K::Any); }
ExP wild() { return mke(K::Wild); }
ExP mk(K k, std::vector<ExP> a, std::string s) { auto e = mke(k); e->a = std::move(a); e->s = std::move(s); return e; }
ExP call(std::string fn, std::vector<ExP> a) { return mk(K::Call, std::move(a), std::move(fn)); }
ExP bin(std::string op, ExP l, ExP r) { return mk(K::Bin, {std::move(l), std::move(r)}, std::move(op)); }
ExP clone(const ExP& e) { auto c = std::make_shared<Ex>(*e); for (auto& x : c->a) x = clone(x); return c; }
size_t exSize(const Ex& e) { size_t n = 1; for (auto& x : e.a) n += exSize(*x); return n; }

// Precedences as documented in the language guide.
static int binPrec(const std::string& op) {
    if (op == "*" || op == "/" || op == "%") return 6;
    if (op == "+" || op == "-") return 5;
    if (op == "<<" || op == ">>" || op == "&" || op == "|" || op == "^") return 4;
    if (op == "<" || op == "<=" || op == ">" || op == ">=") return 3;
    return 2; // == !=
}
constexpr int INF = 100;

struct Printer {
    const PrintOpt& o;
    std::string sp() { if (o.noise && o.noise->chance(1, 8)) return "  "; return " "; }
    std::string opt() { if (o.noise && o.noise->chance(1, 6)) return " "; return ""; }
    std::string word(const std::string& w, char kind) { return o.word ? o.word(w, kind) : w; }
    static std::string escIdent(const std::string& s) {
        std::string r;
        for (size_t i = 0; i < s.size(); ++i) {
            unsigned char c = s[i];
            bool ok = c == '_' || c == '$' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (i && c >= '0' && c <= '9');
            if (!ok) r += '\\';
            r += char(c);
        }
        return r;
    }
    std::string strLit(const std::string& s) {
        char q = o.noise && o.noise->chance(1, 3) ? '"' : '\'';
        std::string r(1, q);
        for (char c : s) { if (c == q || c == '\\') r += '\\'; r += c; }
        return r + q;
    }
    std::string reLit(const std::string& s) {
        char q = s.find('\'') == std::string::npos ? '\'' : '"';
        return std::string("re") + q + s + q;
    }
    struct Out { std::string s; int leftMin = INF; int rightEdge = INF; bool atom = true; };
    Out paren(Out x) { return {"(" + opt() + x.s + opt() + ")", INF, INF, true}; }
    Out left(const Ex& e, int p) {
        auto x = go(e);
        if (o.minimal ? x.rightEdge < p : !x.atom) x = paren(std::move(x));
        else if (o.noise && o.noise->chance(1, 10)) x = paren(std::move(x));
        return x;
    }
    Out right(const Ex& e, int q) {
        auto x = go(e);
        if (o.minimal ? x.leftMin <= q : !x.atom) x = paren(std::move(x));
        else if (o.noise && o.noise->chance(1, 10)) x = paren(std::move(x));
        return x;
    }
    Out infix(Out l, const std::string& op, Out r, int p) {
        return {l.s + sp() + op + sp() + r.s, std::min(l.leftMin, p), std::min(p, r.rightEdge), false};
    }
    Out postfix(Out l, const std::string& op, int p) { return {l.s + op, std::min(l.leftMin, p), INF, false}; }
    Out prefix(const std::string& op, const Ex& e) {
        auto r = right(e, 8);
        return {op + sp() + r.s, INF, std::min(8, r.rightEdge), false};
    }
    Out go(const Ex& e) {
        switch (e.k) {
        case K::Lit:
            switch (e.t) {
            case T::Null: return {word("null", 'k')};
            case T::Bool: return {word(e.b ? "true" : "false", 'k')};
            case T::Int:
                if (e.i == std::numeric_limits<int64_t>::min()) return paren({"-9223372036854775807 - 1"});
                if (e.i < 0) return paren({"-" + std::to_string(-e.i)});
                return {std::to_string(e.i)};
            case T::Float: {
                char buf[800]; int p = 6;
                do snprintf(buf, sizeof buf, "%.*f", p, std::fabs(e.d)); while (strtod(buf, nullptr) != std::fabs(e.d) && ++p < 360);
                if (std::signbit(e.d)) return paren(Out{std::string("-") + buf});
                return {buf};
            }
            case T::Str: return {strLit(e.s)};
            default: return {reLit(e.s)};
            }
        case K::Field: return {word(escIdent(e.s), 'f')};
        case K::Self: return {"_"};
        case K::Any: return {"*"};
        case K::Wild: return {"**"};
        case K::Path: {
            // The start of a path may itself be a word; mark it so that upper case stays a field.
            auto l = e.a[0]->k == K::Field ? Out{word(escIdent(e.a[0]->s), 'p')} : left(*e.a[0], 12);
            // A point after a number or after '...' would belong to it.
            if ((e.a[0]->k == K::Lit && (e.a[0]->t == T::Int || e.a[0]->t == T::Float) && l.s[0] != '(') || (!l.s.empty() && l.s.back() == '.')) l = paren(std::move(l));
            auto& r = *e.a[1];
            Out rr;
            if (r.k == K::Field) rr = {word(escIdent(r.s), 'p')};
            else if (r.k == K::Self || r.k == K::Any || r.k == K::Wild || r.k == K::Call || r.k == K::SubPre || r.k == K::IdxPre) rr = go(r);
            else rr = paren(go(r));
            return {l.s + opt() + "." + opt() + rr.s, std::min(l.leftMin, 12), 12, false};
        }
        case K::Sub: { auto l = left(*e.a[0], 11); return postfix(l, opt() + "{" + go(*e.a[1]).s + "}", 11); }
        case K::SubPre: return {"{" + opt() + go(*e.a[0]).s + "}"};
        case K::Idx: { auto l = left(*e.a[0], 10); return postfix(l, opt() + "[" + go(*e.a[1]).s + "]", 10); }
        case K::IdxPre: return {"[" + opt() + go(*e.a[0]).s + "]"};
        case K::Neg: return prefix("-", *e.a[0]);
        case K::Not: return prefix(word("not", 'k'), *e.a[0]);
        case K::BitInv: return prefix("~", *e.a[0]);
        case K::Len: return prefix("#", *e.a[0]);
        case K::Typeof: return prefix(word("typeof", 'k'), *e.a[0]);
        case K::Bool: return postfix(left(*e.a[0], 9), " ?", 9);
        case K::Unpack: return postfix(left(*e.a[0], 9), " ...", 9);
        case K::Cast: return postfix(left(*e.a[0], 7), " " + word("as", 'k') + " " + word(e.s, 't'), 7);
        case K::Bin: {
            int p = binPrec(e.s);
            auto op = e.s == "==" && o.noise && o.noise->chance(1, 4) ? std::string("=") : e.s;
            auto l = left(*e.a[0], p);
            return infix(l, op, right(*e.a[1], p), p);
        }
        case K::And: { auto l = left(*e.a[0], 1); return infix(l, word("and", 'k'), right(*e.a[1], 1), 1); }
        case K::Or: { auto l = left(*e.a[0], 1); return infix(l, word("or", 'k'), right(*e.a[1], 1), 1); }
        case K::Call: {
            std::string s = word(e.s, 'c') + "(";
            for (size_t i = 0; i + e.omit < e.a.size(); ++i) s += (i ? "," + sp() : opt()) + go(*e.a[i]).s;
            return {s + ")"};
        }
        }
        return {"?"};
    }
};
std::string print(const Ex& e, const PrintOpt& o) { Printer p{o}; return p.go(e).s; }

std::string sexpr(const Ex& e) {
    auto kids = [&]() { std::string s; for (auto& x : e.a) s += " " + sexpr(*x); return s; };
    switch (e.k) {
    case K::Lit:
        switch (e.t) {
        case T::Null: return "null"; case T::Bool: return e.b ? "true" : "false";
        case T::Int: return std::to_string(e.i); case T::Float: return std::to_string(e.d);
        case T::Str: return "\"" + e.s + "\""; default: return e.s;
        }
    case K::Field: return e.s; case K::Self: return "_"; case K::Any: return "*"; case K::Wild: return "**";
    case K::Path: return "(." + kids() + ")";
    case K::Sub: return "(sub" + kids() + ")";
    case K::SubPre: return "(sub _" + kids() + ")";
    case K::Idx: return "(index" + kids() + ")";
    case K::IdxPre: return "(index _" + kids() + ")";
    case K::Neg: return "(-" + kids() + ")"; case K::Not: return "(not" + kids() + ")";
    case K::BitInv: return "(~" + kids() + ")"; case K::Len: return "(#" + kids() + ")";
    case K::Typeof: return "(typeof" + kids() + ")"; case K::Bool: return "(?" + kids() + ")";
    case K::Unpack: return "(..." + kids() + ")";
    case K::Cast: return e.s == "null" ? "null" : "(" + std::string(e.s == "bool" ? "?" : e.s) + kids() + ")";
    case K::Bin: return "(" + e.s + kids() + ")";
    case K::And: return "(and" + kids() + ")"; case K::Or: return "(or" + kids() + ")";
    case K::Call: return "(" + e.s + kids() + ")";
    }
    return "?";
}

// --------------------------------------------------------------- evaluation
namespace {
Val vNull() { return {}; }
Val vB(bool b) { Val v; v.t = T::Bool; v.b = b; return v; }
Val vI(int64_t i) { Val v; v.t = T::Int; v.i = i; return v; }
Val vF(double d) { Val v; v.t = T::Float; v.d = d; return v; }
Val vS(std::string s) { Val v; v.t = T::Str; v.s = std::move(s); return v; }
Val vRange(int64_t a, int64_t b) { Val v; v.t = T::Range; v.i = a; v.i2 = b; return v; }
Val vRe(std::string s) { Val v; v.t = T::Re; v.s = std::move(s); return v; }
bool isModel(const Val& v) { return v.t == T::Obj || v.t == T::Arr; }
bool isNum(const Val& v) { return v.t == T::Int || v.t == T::Float; }
double asD(const Val& v) { return v.t == T::Int ? double(v.i) : v.d; }

std::optional<Val> childByName(const Val& v, const std::string& name) {
    if (name.empty()) return {};
    if (v.nk == Val::Doc) {
        if (v.n->t != T::Obj) return {};
        for (auto& [k, c] : v.n->kids) if (lower(k) == lower(name)) return fromNode(*c);
        return {};
    }
    if (v.nk == Val::Ov) {
        if (auto it = v.ov->fields.find(lower(name)); it != v.ov->fields.end()) {
            Val r = it->second;
            if (r.hasNode()) return r;
            if (r.t == T::Range || r.t == T::Re) throw OutOfDomain{"an object as $sum or $val"};
            r.nk = Val::Synth;
            return r;
        }
        return childByName(v.ov->base, name);
    }
    return {};
}
std::optional<Val> childAt(const Val& v, int64_t i) {
    if (v.nk == Val::Doc) {
        if (i < 0 || uint64_t(i) >= v.n->kids.size()) return {};
        return fromNode(*v.n->kids[size_t(i)].second);
    }
    if (v.nk == Val::Ov) return childAt(v.ov->base, i);
    return {};
}
const Node* docOf(const Val& v) {
    if (v.nk == Val::Doc) return v.n;
    if (v.nk == Val::Ov) return docOf(v.ov->base);
    return nullptr;
}

enum R { Go, Stop };
using Kf = std::function<R(const Val&)>;

[[noreturn]] void err(const std::string& m) { throw Error{m}; }

bool truthy(const Val& v) { return !(v.t == T::Null || (v.t == T::Bool && !v.b)); }

bool eqv(const Val& l, const Val& r) {
    if (isNum(l) && isNum(r)) {
        if (l.t == T::Int && r.t == T::Int) return l.i == r.i;
        return asD(l) == asD(r);
    }
    if (l.t != r.t) return false;
    switch (l.t) { case T::Null: return true; case T::Bool: return l.b == r.b; case T::Str: return l.s == r.s; default: return false; }
}
bool lessv(const Val& l, const Val& r, bool orEq) {
    if (isNum(l) && isNum(r)) {
        if (l.t == T::Int && r.t == T::Int) return orEq ? l.i <= r.i : l.i < r.i;
        return orEq ? asD(l) <= asD(r) : asD(l) < asD(r);
    }
    if (l.t != r.t) return false;
    if (l.t == T::Str) return orEq ? l.s <= r.s : l.s < r.s;
    if (l.t == T::Null) return orEq;
    return false;
}
std::string scalarText(const Val& v) {
    switch (v.t) {
    case T::Null: return "null"; case T::Bool: return v.b ? "true" : "false";
    case T::Int: return std::to_string(v.i); case T::Float: return std::to_string(v.d);
    case T::Str: return v.s; case T::Range: return std::to_string(v.i) + ".." + std::to_string(v.i2);
    case T::Re: return v.s; default: return "";
    }
}
bool reMatch(const std::string& re, const std::string& s) {
    static std::map<std::string, std::regex> cache;
    auto it = cache.find(re);
    if (it == cache.end()) {
        if (cache.size() > 500) cache.clear();
        try { it = cache.emplace(re, std::regex(re)).first; } catch (const std::regex_error&) { err("bad regex"); }
    }
    if (s.size() > 300) throw OutOfDomain{"long regex subject"};
    return std::regex_match(s, it->second);
}
Val binop(const std::string& op, const Val& l, const Val& r) {
    if (l.t == T::Range || (r.t == T::Range && l.t != T::Re)) {
        if (op != "==" && op != "!=") err("range operator");
        const Val& rg = l.t == T::Range ? l : r; const Val& o = l.t == T::Range ? r : l;
        bool res = false;
        auto lo = std::min(rg.i, rg.i2), hi = std::max(rg.i, rg.i2);
        if (o.t == T::Int) res = lo <= o.i && o.i <= hi;
        else if (o.t == T::Float) res = double(lo) <= o.d && o.d <= double(hi);
        else if (o.t == T::Range) res = rg.i == o.i && rg.i2 == o.i2;
        return vB(op == "==" ? res : !res);
    }
    if (l.t == T::Re || r.t == T::Re) {
        const Val& re = l.t == T::Re ? l : r; const Val& o = l.t == T::Re ? r : l;
        if (o.t == T::Null) return vNull();
        if (op != "==" && op != "!=") err("regex operator");
        if (o.t == T::Str) {
            bool m = reMatch(re.s, o.s);
            if (op == "==") return m ? vS(o.s) : vB(false);
            return m ? vB(false) : vS(o.s);
        }
        return vB(op == "!=");
    }
    if (op == "==") return vB(eqv(l, r));
    if (op == "!=") return vB(!eqv(l, r));
    if (op == "<") return vB(lessv(l, r, false));
    if (op == "<=") return vB(lessv(l, r, true));
    if (op == ">") return vB(lessv(r, l, false));
    if (op == ">=") return vB(lessv(r, l, true));
    if (op == "+") {
        if (l.t == T::Str || r.t == T::Str) {
            if (isModel(l) || isModel(r)) return vNull();
            return vS(scalarText(l) + scalarText(r));
        }
        if (isModel(l) && isModel(r)) return vNull();
    }
    if (l.t == T::Null || r.t == T::Null) return vNull();
    if (op == "+" || op == "-" || op == "*" || op == "/") {
        if (!isNum(l) || !isNum(r)) err("arithmetic on non-numbers");
        if (op == "/" && asD(r) == 0) err("division by zero");
        if (l.t == T::Int && r.t == T::Int) {
            int64_t x = 0; bool o = false;
            if (op == "+") o = __builtin_add_overflow(l.i, r.i, &x);
            else if (op == "-") o = __builtin_sub_overflow(l.i, r.i, &x);
            else if (op == "*") o = __builtin_mul_overflow(l.i, r.i, &x);
            else { if (r.i == -1) o = __builtin_sub_overflow(int64_t(0), l.i, &x); else x = l.i / r.i; }
            if (o) throw OutOfDomain{"integer overflow"};
            return vI(x);
        }
        double a = asD(l), b = asD(r);
        return vF(op == "+" ? a + b : op == "-" ? a - b : op == "*" ? a * b : a / b);
    }
    if (l.t != T::Int || r.t != T::Int) err("integer operator on something else");
    if (op == "%") { if (r.i == 0) err("division by zero"); return vI(r.i == -1 ? 0 : l.i % r.i); }
    uint64_t a = uint64_t(l.i), b = uint64_t(r.i);
    if (op == "&") return vI(int64_t(a & b));
    if (op == "|") return vI(int64_t(a | b));
    if (op == "^") return vI(int64_t(a ^ b));
    if (b > 63) throw OutOfDomain{"shift amount"};
    if (op == "<<") return vI(int64_t(a << b));
    if (op == ">>") return vI(int64_t(a >> b));
    err("unknown operator " + op);
}
Val subscriptOp(const Val& l, const Val& r) {
    if (l.t == T::Range) err("subscript of range");
    if (l.t == T::Re) { if (r.t == T::Null) return vNull(); err("subscript of regex"); }
    if (r.t == T::Re) { if (l.t == T::Null) return vNull(); err("subscript by regex"); }
    if (r.t == T::Range) err("subscript by range");
    if (l.t == T::Null || r.t == T::Null) return vNull();
    if (l.t == T::Str && r.t == T::Int) {
        if (r.i >= 0 && uint64_t(r.i) < l.s.size()) return vS(l.s.substr(size_t(r.i), 1));
        return vNull();
    }
    err("subscript operands");
}
Val castTo(const std::string& ty, const Val& v) {
    auto t = lower(ty);
    if (t == "null") return vNull();
    if (t == "bool") return vB(truthy(v));
    if (t == "string") return vS(scalarText(v));
    if (v.t == T::Range || v.t == T::Re) err("cast of a transient");
    if (t == "int") {
        switch (v.t) {
        case T::Bool: return vI(v.b); case T::Int: return vI(v.i);
        case T::Float: return vI(v.d >= -9223372036854775808.0 && v.d < 9223372036854775808.0 ? int64_t(v.d) : 0);
        case T::Str: { const char* p = v.s.c_str(); char* e; errno = 0; auto x = strtoll(p, &e, 10);
            if (errno == ERANGE) throw OutOfDomain{"cast overflow"};
            return vI(e == p ? 0 : x); }
        default: return vI(0);
        }
    }
    if (t == "float") {
        switch (v.t) {
        case T::Bool: return vF(v.b); case T::Int: return vF(double(v.i)); case T::Float: return vF(v.d);
        case T::Str: { const char* p = v.s.c_str(); char* e; auto x = strtod(p, &e); return vF(e == p ? 0 : x); }
        default: return vF(0);
        }
    }
    err("bad type name");
}

struct Ev {
    Env& env;
    const Val& charge(const Val& v) { // long texts cost more
        if (v.t == T::Str && v.s.size() > 500 && (env.budget -= int64_t(v.s.size() / 50)) < 0) throw OutOfDomain{"budget"};
        return v;
    }
    void tick() { if (--env.budget < 0) throw OutOfDomain{"budget"}; }
    void seen(const char* s) { env.visited.insert(s); }

    // The single value of an argument.
    Val arg(const Ex& e, const Val& cur, T want, const char* what) {
        Val out; int n = 0;
        go(e, cur, [&](const Val& v) {
            if (++n > 1) err(std::string("argument ") + what + " must be a single value");
            if (v.t != want) err(std::string("argument ") + what + " has wrong type");
            out = v; return Go;
        });
        return out;
    }

    R go(const Ex& e, const Val& cur, const Kf& k) {
        tick();
        switch (e.k) {
        case K::Lit:
            switch (e.t) {
            case T::Null: return k(vNull()); case T::Bool: return k(vB(e.b)); case T::Int: return k(vI(e.i));
            case T::Float: return k(vF(e.d)); case T::Str: return k(vS(e.s)); default: reMatch(e.s, ""); return k(vRe(e.s));
            }
        case K::Self: return k(cur);
        case K::Field: {
            if (e.b) { seen("constant"); return k(env.constants.at(lower(e.s))); }
            if (auto c = childByName(cur, e.s)) { seen("field"); return k(*c); }
            seen("missing");
            return k(vNull());
        }
        case K::Any: {
            auto* n = docOf(cur);
            if (!n || n->kids.empty()) return k(vNull());
            seen("*");
            for (auto& [kk, c] : n->kids) if (k(fromNode(*c)) == Stop) return Stop;
            return Go;
        }
        case K::Wild: {
            size_t calls = 0;
            std::function<R(const Val&)> rec = [&](const Val& v) -> R {
                tick();
                if (v.t == T::Null) return Go;
                ++calls;
                if (k(v) == Stop) return Stop;
                if (auto* n = docOf(v))
                    for (auto& [kk, c] : n->kids) if (rec(fromNode(*c)) == Stop) return Stop;
                return Go;
            };
            R r = Go;
            if (cur.hasNode()) r = rec(cur);
            if (!calls) return k(vNull());
            seen("**");
            return r;
        }
        case K::Path: {
            size_t calls = 0;
            R r = go(*e.a[0], cur, [&](const Val& v) {
                if (v.t == T::Null && !v.hasNode()) return Go;
                return go(*e.a[1], v, [&](const Val& w) {
                    if (w.t == T::Null && !w.hasNode()) return Go;
                    ++calls; return k(w);
                });
            });
            if (!calls) return k(vNull());
            seen("path");
            return r;
        }
        case K::Sub: return sub(*e.a[0], *e.a[1], cur, k);
        case K::SubPre: { static const Ex s = [] { Ex x; x.k = K::Self; return x; }(); return sub(s, *e.a[0], cur, k); }
        case K::Idx: return idx(*e.a[0], *e.a[1], cur, k);
        case K::IdxPre: { static const Ex s = [] { Ex x; x.k = K::Self; return x; }(); return idx(s, *e.a[0], cur, k); }
        case K::Neg: return go(*e.a[0], cur, [&](const Val& v) {
            if (v.t == T::Int) { if (v.i == INT64_MIN) throw OutOfDomain{"integer overflow"}; return k(vI(-v.i)); }
            if (v.t == T::Float) return k(vF(-v.d));
            err("negation");
        });
        case K::Not: return go(*e.a[0], cur, [&](const Val& v) {
            if (v.t == T::Range || v.t == T::Re) err("not");
            return k(vB(!truthy(v)));
        });
        case K::BitInv: return go(*e.a[0], cur, [&](const Val& v) {
            if (v.t == T::Int) return k(vI(~v.i));
            if (v.t == T::Null) return k(vNull());
            err("bit inverse");
        });
        case K::Len: return go(*e.a[0], cur, [&](const Val& v) {
            switch (v.t) {
            case T::Str: return k(vI(int64_t(v.s.size())));
            case T::Null: return k(vNull());
            case T::Obj: case T::Arr: { auto* n = docOf(v); return k(vI(n ? int64_t(n->kids.size()) : 0)); }
            case T::Range: return k(vI(std::max(v.i, v.i2) - std::min(v.i, v.i2)));
            default: err("length");
            }
        });
        case K::Typeof: return go(*e.a[0], cur, [&](const Val& v) { return k(vS(isModel(v) ? "model" : typeName(v.t))); });
        case K::Bool: return go(*e.a[0], cur, [&](const Val& v) { return k(vB(truthy(v))); });
        case K::Unpack: {
            bool anyv = false;
            R r = go(*e.a[0], cur, [&](const Val& v) {
                if (v.t == T::Re) err("unpack");
                if (v.t == T::Range) {
                    seen("unpack");
                    int64_t step = v.i <= v.i2 ? 1 : -1;
                    for (int64_t i = v.i;; i += step) {
                        tick(); anyv = true;
                        if (k(vI(i)) == Stop) return Stop;
                        if (i == v.i2) return Go;
                    }
                }
                anyv = true;
                return k(v);
            });
            if (!anyv) return k(vNull());
            return r;
        }
        case K::Cast:
            if (lower(e.s) == "null") return k(vNull());
            return go(*e.a[0], cur, [&](const Val& v) { return k(castTo(e.s, v)); });
        case K::Bin: return go(*e.a[0], cur, [&](const Val& l) {
            return go(*e.a[1], cur, [&](const Val& r) { tick(); return k(charge(binop(e.s, l, r))); });
        });
        case K::And: return go(*e.a[0], cur, [&](const Val& l) {
            if (!truthy(l)) { seen("short"); return k(l); }
            return go(*e.a[1], cur, k);
        });
        case K::Or: return go(*e.a[0], cur, [&](const Val& l) {
            if (truthy(l)) { seen("short"); return k(l); }
            return go(*e.a[1], cur, k);
        });
        case K::Call: {
            bool anyv = false;
            R r = callFn(e, cur, [&](const Val& v) { anyv = true; return k(v); });
            if (!anyv) return k(vNull());
            return r;
        }
        }
        return Go;
    }
    R sub(const Ex& l, const Ex& f, const Val& cur, const Kf& k) {
        size_t calls = 0, tested = 0;
        R r = go(l, cur, [&](const Val& lv) {
            ++tested;
            return go(f, lv, [&](const Val& c) {
                if (!truthy(c)) { seen("filtered"); return Go; }
                ++calls; return k(lv);
            });
        });
        if (!calls) return k(vNull());
        seen("sub");
        return r;
    }
    R idx(const Ex& l, const Ex& ix, const Val& cur, const Kf& k) {
        size_t calls = 0;
        R r = go(l, cur, [&](const Val& lv) {
            return go(ix, cur, [&](const Val& iv) {
                if (lv.hasNode()) {
                    std::optional<Val> c;
                    if (iv.t == T::Int) c = childAt(lv, iv.i);
                    else if (iv.t == T::Str) c = childByName(lv, iv.s);
                    if (!c) { env.misses.push_back(typeName(iv.t)); return Go; }
                    ++calls; seen("index");
                    return k(*c);
                }
                ++calls; return k(subscriptOp(lv, iv));
            });
        });
        if (!calls) return k(vNull());
        return r;
    }
    R callFn(const Ex& e, const Val& cur, const Kf& k) {
        auto f = lower(e.s);
        auto need = [&](size_t lo, size_t hi) { if (e.a.size() < lo || e.a.size() > hi) err(f + ": arguments"); };
        if (f == "any" || f == "each" || f == "all") {
            need(1, 1000);
            bool isAny = f == "any";
            bool res = !isAny;
            for (auto& a : e.a) {
                go(*a, cur, [&](const Val& v) {
                    if (truthy(v) == isAny) { res = isAny; seen("decided"); return Stop; }
                    return Go;
                });
                if (res == isAny) break;
            }
            return k(vB(res));
        }
        if (f == "count") {
            need(1, 1000);
            int64_t n = 0;
            for (auto& a : e.a) go(*a, cur, [&](const Val& v) { n += truthy(v); return Go; });
            if (n) seen("counted");
            return k(vI(n));
        }
        if (f == "arr") {
            for (auto& a : e.a) if (go(*a, cur, k) == Stop) return Stop;
            return Go;
        }
        if (f == "range") {
            need(2, 2);
            auto a = arg(*e.a[0], cur, T::Int, "begin"), b = arg(*e.a[1], cur, T::Int, "end");
            seen("range");
            return k(vRange(a.i, b.i));
        }
        if (f == "re") {
            need(1, 1);
            return go(*e.a[0], cur, [&](const Val& v) {
                if (v.t == T::Re) return k(v);
                if (v.t == T::Str) { reMatch(v.s, ""); seen("re"); return k(vRe(v.s)); }
                err("re: argument");
            });
        }
        if (f == "split") {
            need(2, 3);
            auto s = arg(*e.a[0], cur, T::Str, "string").s;
            auto sep = arg(*e.a[1], cur, T::Str, "separator").s;
            bool keep = e.a.size() > 2 ? arg(*e.a[2], cur, T::Bool, "keepEmpty").b : true;
            if (s.empty()) return Go;
            std::vector<std::string> parts;
            if (sep.empty()) parts = {s};
            else {
                std::string curp;
                for (size_t i = 0; i < s.size();) {
                    if (s.compare(i, sep.size(), sep) == 0) { parts.push_back(curp); curp.clear(); i += sep.size(); }
                    else curp += s[i++];
                }
                parts.push_back(curp);
                if (!keep) std::erase_if(parts, [](auto& p) { return p.empty(); });
            }
            if (parts.size() > 1) seen("split");
            for (auto& p : parts) if (k(vS(p)) == Stop) return Stop;
            return Go;
        }
        if (f == "select") {
            need(2, 3);
            int64_t ix = arg(*e.a[1], cur, T::Int, "index").i;
            int64_t cnt = e.a.size() > 2 ? arg(*e.a[2], cur, T::Int, "limit").i : 1;
            R res = Go;
            __int128 end = cnt > 0 ? __int128(ix) + cnt : std::numeric_limits<int64_t>::max();
            int64_t n = 0; size_t got = 0;
            go(*e.a[0], cur, [&](const Val& v) {
                int64_t me = n++;
                if (me >= end) return Stop;
                if (me < ix) return Go;
                ++got;
                return res = k(v);
            });
            if (got && size_t(n) > got) seen("select");
            return res;
        }
        if (f == "sum") {
            need(1, 3);
            Val sum = vI(0);
            if (e.a.size() == 3) go(*e.a[2], cur, [&](const Val& v) { sum = v; return Go; });
            int64_t n = 0;
            go(*e.a[0], cur, [&](const Val& v) {
                if (e.a.size() >= 2) {
                    auto ov = std::make_shared<Overlay>();
                    ov->base = v;
                    ov->fields["$sum"] = sum; ov->fields["$val"] = v; ov->fields["$idx"] = vI(n++);
                    Val o; o.t = T::Obj; o.nk = Val::Ov; o.ov = ov;
                    go(*e.a[1], o, [&](const Val& r) {
                        if (r.nk == Val::Ov) throw OutOfDomain{"sum over its own context"};
                        charge(r);
                        ov->fields["$sum"] = r; sum = r; return Go;
                    });
                } else if (sum.t == T::Null) sum = v;
                else { sum = binop("+", sum, v); charge(sum); }
                if (n > 1 || e.a.size() < 2) seen("sum");
                return Go;
            });
            return k(sum);
        }
        if (f == "keys") {
            need(1, 1);
            return go(*e.a[0], cur, [&](const Val& v) {
                if (v.hasNode() && v.t == T::Arr) throw OutOfDomain{"keys of an array"};
                if (auto* n = docOf(v)) {
                    if (!n->kids.empty()) seen("keys");
                    for (auto& [kk, c] : n->kids) if (k(vS(kk)) == Stop) return Stop;
                }
                return Go;
            });
        }
        if (f == "trace") {
            need(1, 3);
            int64_t limit = e.a.size() > 1 ? arg(*e.a[1], cur, T::Int, "limit").i : -1;
            if (e.a.size() < 3) throw OutOfDomain{"unnamed trace"};
            std::string name = arg(*e.a[2], cur, T::Str, "name").s;
            std::vector<std::string> vals;
            R r = go(*e.a[0], cur, [&](const Val& v) { if (v.nk == Val::Ov) throw OutOfDomain{"trace of a sum context"}; vals.push_back(render(v)); return k(v); });
            auto& tr = env.traces[name];
            ++tr.calls;
            for (auto& v : vals) if (limit < 0 || int64_t(tr.values.size()) < limit) tr.values.push_back(v);
            if (!vals.empty()) seen("trace");
            return r;
        }
        err("unknown function " + f);
    }
};
} // namespace

Val fromNode(const Node& n) {
    Val v; v.t = n.t; v.b = n.b; v.i = n.i; v.d = n.d; v.s = n.s; v.nk = Val::Doc; v.n = &n;
    return v;
}
std::string render(const Val& v) {
    switch (v.t) {
    case T::Obj: case T::Arr: {
        auto* n = docOf(v);
        return std::string(typeName(v.t)) + ":" + (n ? n->json().dump(-1, ' ', false, nlohmann::json::error_handler_t::replace) : "{}");
    }
    case T::Float: { char b[64]; if (std::isnan(v.d)) return "float:nan"; snprintf(b, sizeof b, "float:%a", v.d); return b; }
    default: return std::string(typeName(v.t)) + ":" + scalarText(v);
    }
}
std::vector<Val> evalOn(const Ex& e, const Val& cur, Env& env) {
    std::vector<Val> out;
    Ev ev{env};
    ev.go(e, cur, [&](const Val& v) {
        if (out.size() >= env.maxResults) throw OutOfDomain{"too many results"};
        out.push_back(v); return Go;
    });
    return out;
}
std::vector<Val> eval(const Ex& e, const Node& root, Env& env) { return evalOn(e, fromNode(root), env); }

// ---------------------------------------------------------------- generators
// Field names per class of values.
static const std::vector<std::string>& names(char c) {
    static const std::map<char, std::vector<std::string>> m = {
        {'i', {"i", "num", "x1", "count"}}, {'f', {"f", "ratio"}}, {'s', {"s", "name", "text"}}, {'b', {"b", "flag"}},
        {'o', {"o", "sub", "o2"}}, {'a', {"a", "list", "a2"}}, {'n', {"nul"}}, {'m', {"mix", "m"}}, {'u', {"unknown", "zz"}},
        {'w', {"x y", "ID", "2nd", "caf\xc3\xa9", "a_long_name_for_a_field_of_its_own_1"}},
    };
    return m.at(c);
}
static const std::string& pickName(Tape& t, char c) {   // the first name of a class is the usual one
    auto& n = names(c);
    return t.chance(c == 'w' ? 3 : 1, 4) ? t.pick(n) : n[0];
}
std::string Gen::fieldName(char c) { return pickName(t, c); }

std::string genText(Tape& t) {
    static const std::vector<std::string> fixed = {
        "a", "", "b", "abc", "ab", "1", "-12", "3.5", "12x", "A", "a,b", "a,,b,", ",", "x y", "a-b-c", "it's", "\"q\"", "back\\slash",
        "caf\xc3\xa9", "0x10", "true", "null", "ABC", "aXbXc", "XX", "line\nbreak", "  7", "1e3", "aaaaab", "ba"};
    if (t.chance(1, 5)) {
        std::string s; size_t n = t.chance(1, 20) ? 17 + t.below(t.chance(1, 6) ? 3000 : 120) : t.size(8);
        if (n > 200) { auto u = t.oneOf<const char*>({"a,", "ab", "x", "aX-", ",", "12"}); while (s.size() < n) s += u; return s; }
        for (size_t i = 0; i < n; ++i) s += t.oneOf({'a', 'b', ',', 'c', '1', 'X', ' ', '.'});
        return s;
    }
    return t.pick(fixed);
}
std::string genRegexFor(Tape& t, const std::string& s) {
    static const std::vector<std::string> fixed = {"a.*", ".*", "a+b?", "[a-c]*", "(a|b|c)+", "\\d+", "x", ".*b.*", "a", "[^,]*", "", "-?[0-9]+", "(ab)+c?", "A.*", "\\w+", "a{2,}b", ".*,.*"};
    if (t.chance(1, 3)) {   // matches s itself, or almost
        std::string r;
        for (char c : s) {
            if (isalnum((unsigned char)c)) { r += c; if (s.size() < 40 && t.chance(1, 6)) r += '+'; }   // many of them: backtracking without end
            else if (c == '\n' || c == '\'' || c == '"' || c == '\\' || (c & 0x80)) r += "[\\s\\S]";
            else { r += '['; r += c; r += ']'; }
        }
        if (t.chance(1, 4)) r += "x?";
        return r;
    }
    return t.pick(fixed);
}
static NodeP genScalar(Tape& t, char c) {
    switch (c) {
    case 'i': return mkInt(t.weighted({8, 1, 1}) == 0 ? t.range(-3, 12) : t.flip() ? t.oneOf<int64_t>({65535, 65536, -32768, -32769, 100000, 1ll << 40, -(1ll << 40), 255}) : t.range(-1000, 1000));
    case 'f': return mkFloat(double(t.range(-40, 80)) / t.oneOf({1, 2, 4, 8}));
    case 's': return mkStr(genText(t));
    case 'b': return mkBool(t.flip());
    default: return mkNull();
    }
}
static NodeP genAny(Tape& t, int depth, bool rep);
static NodeP genArray(Tape& t, int depth, bool rep) {
    auto a = mkArr();
    auto n = t.size(6);
    char kind = "ioisfbm"[t.below(7)];
    for (size_t i = 0; i < n; ++i) {
        NodeP c;
        if (kind == 'o' && depth > 0) c = genDoc(t, depth - 1, rep);
        else if (kind == 'm' || kind == 'o' || t.chance(1, 12)) c = genAny(t, depth - 1, rep);
        else c = genScalar(t, kind);
        a->kids.emplace_back("", std::move(c));
    }
    return a;
}
static NodeP genAny(Tape& t, int depth, bool rep) {
    switch (t.weighted({4, 1, 2, 1, 1, depth > 0 ? 2u : 0u, depth > 0 ? 2u : 0u})) {
    case 0: return genScalar(t, 'i'); case 1: return genScalar(t, 'f'); case 2: return genScalar(t, 's');
    case 3: return genScalar(t, 'b'); case 4: return mkNull();
    case 5: return genDoc(t, depth - 1, rep); default: return genArray(t, depth - 1, rep);
    }
}
NodeP genDoc(Tape& t, int depth, bool rep) {
    auto o = mkObj();
    auto n = t.chance(1, 6) ? t.below(3) : 4 + t.below(8);
    std::set<std::string> used;
    for (size_t i = 0; i < n; ++i) {
        char c = "isobafnmwioas"[t.below(13)];
        if (depth <= 0 && (c == 'o' || c == 'a')) c = 'i';
        auto nm = pickName(t, c);
        if (!used.insert(nm).second && !(rep && t.chance(1, 4))) continue;
        NodeP v;
        if (c == 'o') v = genDoc(t, depth - 1, rep);
        else if (c == 'a') v = genArray(t, depth - 1, rep);
        else if (c == 'm' || c == 'w' || t.chance(1, 25)) v = genAny(t, depth - 1, rep);
        else v = genScalar(t, c);
        o->kids.emplace_back(nm, std::move(v));
    }
    return o;
}

// Sizes beyond the ordinary: deep, wide or long.
void enlarge(Tape& t, NodeP& root) {
    auto put = [](Node& o, const std::string& n, NodeP v) {
        for (auto& [k, c] : o.kids) if (k == n) { c = std::move(v); return; }
        o.kids.emplace_back(n, std::move(v));
    };
    switch (t.below(4)) {
    case 0: {
        auto n = t.chance(1, 4) ? t.range(10, 80) : t.range(4, 16);
        for (int64_t i = 0; i < n; ++i) {
            auto up = mkObj();
            if (t.flip()) up->kids.emplace_back("i", mkInt(i));
            if (t.chance(1, 4)) { auto a = mkArr(); a->kids.emplace_back("", std::move(root)); up->kids.emplace_back("a", std::move(a)); }
            else up->kids.emplace_back("o", std::move(root));
            root = std::move(up);
        }
        break; }
    case 1: { auto n = t.range(10, 60); for (int64_t i = 0; i < n; ++i) put(*root, "k" + std::to_string(i), genScalar(t, "isbfn"[t.below(5)])); break; }
    case 2: {
        auto a = mkArr(); auto n = t.chance(1, 5) ? t.range(70, 300) : t.range(10, 70); char kind = "isom"[t.below(4)];
        for (int64_t i = 0; i < n; ++i) a->kids.emplace_back("", kind == 'o' ? genDoc(t, 0, false) : kind == 'm' ? genAny(t, 0, false) : genScalar(t, kind));
        put(*root, pickName(t, 'a'), std::move(a)); break; }
    default: {
        std::string s; auto n = t.chance(1, 5) ? t.range(300, 5000) : t.range(24, 300);
        auto u = t.oneOf<std::string>({"a,", ",", "ab", "a-b", "xX", "12", "text "});
        while ((int64_t)s.size() < n) s += u;
        put(*root, pickName(t, 's'), mkStr(s)); }
    }
}

// How many arguments: now and then many.
static size_t argCount(Tape& t, size_t usual) { return t.chance(1, 14) ? usual + 2 + t.below(9) : usual; }

ExP Gen::literal(char kind) {
    if (c.fieldsOnly) return path(kind == 'n' ? 'i' : kind, 0);
    switch (kind) {
    case 'i': if (t.chance(1, 60)) return litI(t.range(-300, 70000));
        return litI(t.weighted({9, 1}) == 0 ? t.range(0, 9) : t.oneOf<int64_t>({-1, -5, 10, 63, 255, 1000, 65536, 1ll << 33, -7}));
    case 'f': return litF(double(t.range(0, 40)) / t.oneOf({1, 2, 4, 8}));
    case 's': return litS(genText(t));
    case 'b': return litB(t.flip());
    default: return lit();
    }
}
ExP Gen::path(char cls, int d) {
    auto last = [&]() -> ExP {
        char k = cls;
        if (t.chance(c.noise, 100)) k = "isbfonamuw"[t.below(10)];
        auto f = field(fieldName(k));
        return f;
    };
    auto bare = [&](ExP f) { // an upper case word, or one that is a keyword, only as part of a path
        if (f->k == K::Field && (f->s == "ID")) return mk(K::Path, {self(), f});
        return f;
    };
    if (inSum && t.chance(1, 2)) {
        auto v = field(t.oneOf<const char*>({"$val", "$sum", "$idx"}));
        if (cls == 'i' || cls == 'm' || cls == 's') return v;
        return mk(K::Path, {field("$val"), last()});
    }
    unsigned w = c.wild, s = c.sub, x = c.idx;
    switch (t.weighted({6, c.path, w, w / 2 + (w ? 1u : 0u), s, x, s / 2, x / 2, 1})) {
    case 0: return bare(last());
    case 1: { // o.x, o.o2.x
        ExP p = bare(field(fieldName(t.chance(1, 4) ? 'a' : 'o')));
        auto n = t.chance(1, 12) ? t.below(20) : t.below(2);
        for (size_t i = 0; i < n; ++i) p = mk(K::Path, {p, n > 2 ? field("o") : field(fieldName('o'))});
        return mk(K::Path, {p, last()});
    }
    case 2: { // *.x, list.*.x, list.*
        ExP p = t.flip() ? any() : mk(K::Path, {bare(field(fieldName('a'))), any()});
        if (t.chance(1, 4)) return p;
        return mk(K::Path, {p, last()});
    }
    case 3: { // **.x
        ExP p = wild();
        if (t.chance(1, 4)) p = mk(K::Path, {bare(field(fieldName(t.flip() ? 'o' : 'a'))), p});
        if (t.chance(1, 6)) return p;
        return mk(K::Path, {p, last()});
    }
    case 4: { // filter
        ExP p = d > 0 ? path(t.oneOf({'o', 'a', 'o'}), d - 1) : t.flip() ? any() : wild();
        if (t.flip()) p = mk(K::Sub, {p, pred(d - 1)});
        else p = mk(K::Path, {p, mk(K::SubPre, {pred(d - 1)})});
        return mk(K::Path, {p, last()});
    }
    case 5: { // index
        ExP p = d > 0 && t.flip() ? path('a', d - 1) : bare(field(fieldName(t.chance(1, 4) ? 'o' : 'a')));
        ExP ix = t.chance(1, 4) ? (c.fieldsOnly ? field("s") : litS(fieldName(cls == 'u' ? 'i' : cls))) : d > 0 && t.chance(1, 4) ? single('i', d - 1) : literal('i');
        ExP r = mk(K::Idx, {p, ix});
        if (t.chance(1, 2)) return mk(K::Path, {r, last()});
        return r;
    }
    case 6: { // current-node filter
        ExP r = mk(K::SubPre, {pred(d - 1)});
        return mk(K::Path, {r, last()});
    }
    case 7: { // [name]
        ExP r = mk(K::IdxPre, {c.fieldsOnly ? field("s") : litS(fieldName(cls == 'u' ? 'i' : cls))});
        return r;
    }
    default: return mk(K::Path, {self(), last()});
    }
}
ExP Gen::pred(int d) {
    if (d <= 0) return t.flip() ? path(t.oneOf({'b', 'i', 's', 'o'}), 0) : bin(t.oneOf<const char*>({"==", ">", "<", "!="}), path('i', 0), literal('i'));
    if (t.chance(1, 4)) return bin(t.oneOf<const char*>({"==", ">", "<=", "!="}), self(), t.flip() ? literal('i') : literal('s'));
    return boolean(d);
}
ExP Gen::single(char kind, int d) {
    if (t.chance(c.noise, 100)) return anyv(d);
    if (d > 0 && t.chance(1, 3)) {
        if (kind == 'i') switch (t.below(3)) {
            case 0: return call("count", {multi(d - 1)});
            case 1: return bin(t.oneOf<const char*>({"+", "-", "*"}), single('i', 0), literal('i'));
            default: return mk(K::Cast, {field(fieldName('i'))}, "int");
        }
        if (kind == 's') switch (t.below(3)) {
            case 0: return bin("+", literal('s'), t.flip() ? literal('s') : literal('i'));
            case 1: return mk(K::Cast, {t.flip() ? literal('i') : ExP(field(fieldName('m')))}, "string");
            default: return mk(K::Typeof, {field(fieldName('m'))});
        }
        if (kind == 'b') return boolean(0);
    }
    if (kind != 'b' && t.chance(1, 4)) return mk(K::Or, {field(fieldName(kind)), literal(kind)});
    return literal(kind);
}
ExP Gen::num(int d) {
    if (t.chance(c.noise, 100)) return anyv(d - 1);
    if (d <= 0) return t.flip() ? literal(t.chance(1, 4) ? 'f' : 'i') : path(t.chance(1, 4) ? 'f' : 'i', 0);
    switch (t.weighted({2, 3, c.arith * 2, c.bit * 2, c.count, c.len, c.cast, c.sum, c.arith, c.arr, c.range, c.logic / 2})) {
    case 0: return literal(t.chance(1, 4) ? 'f' : 'i');
    case 1: return path(t.chance(1, 4) ? 'f' : 'i', d - 1);
    case 2: {
        if (t.chance(1, 25)) { // a long chain
            auto e = num(0); auto n = 5 + t.below(30);
            for (size_t i = 0; i < n; ++i) e = bin(t.oneOf<const char*>({"+", "-", "+"}), e, t.flip() ? literal('i') : path('i', 0));
            return e;
        }
        auto op = t.oneOf<const char*>({"+", "-", "*", "/", "%"}); return bin(op, num(d - 1), *op == '/' || *op == '%' ? (t.chance(5, 6) && !c.fieldsOnly ? ExP(litI(t.range(1, 9))) : num(d - 1)) : num(d - 1)); }
    case 3: { auto op = t.oneOf<const char*>({"&", "|", "^", "<<", ">>"}); 
        auto iarg = [&]() -> ExP { return t.flip() ? literal('i') : path('i', 0); };
        if (op[1] ) return bin(op, iarg(), c.fieldsOnly ? path('i', 0) : ExP(litI(t.range(0, 40))));
        if (t.chance(1, 5)) return mk(K::BitInv, {iarg()});
        return bin(op, iarg(), iarg()); }
    case 4: { std::vector<ExP> a{multi(d - 1)}; auto n = argCount(t, 1); for (size_t i = 1; i < n; ++i) a.push_back(multi(0)); return call("count", a); }
    case 5: return mk(K::Len, {t.flip() ? str(d - 1) : model(d - 1)});
    case 6: return mk(K::Cast, {anyv(d - 1)}, t.oneOf<const char*>({"int", "float"}));
    case 7: {
        std::vector<ExP> a{t.flip() ? multi(d - 1) : num(d - 1)};
        auto n = t.below(3);
        if (n >= 1) {
            auto old = inSum; inSum = true;
            a.push_back(t.flip() ? bin(t.oneOf<const char*>({"+", "*", "-"}), field("$sum"), t.flip() ? ExP(field("$val")) : ExP(field("$idx"))) : t.flip() ? num(d - 1) : anyv(d - 1));
            inSum = old;
        }
        if (n >= 2) a.push_back(t.flip() ? literal('i') : anyv(0));
        return call("sum", a);
    }
    case 8: return mk(K::Neg, {mk(K::Or, {num(d - 1), literal('i')})});
    case 9: { std::vector<ExP> a; auto n = argCount(t, 1 + t.below(3)); for (size_t i = 0; i < n; ++i) a.push_back(num(n > 3 ? 0 : d - 1)); return call("arr", a); }
    case 10: return mk(K::Unpack, {call("range", {single('i', d - 1), single('i', d - 1)})});
    default: return t.flip() ? mk(K::Or, {num(d - 1), num(d - 1)}) : mk(K::And, {anyv(d - 1), num(d - 1)});
    }
}
ExP Gen::str(int d) {
    if (t.chance(c.noise, 100)) return anyv(d - 1);
    if (d <= 0) return t.flip() ? literal('s') : path('s', 0);
    switch (t.weighted({2, 3, c.str * 2, c.cast, c.typeof_, c.split, c.keys, c.str, c.idx})) {
    case 0: return literal('s');
    case 1: return path('s', d - 1);
    case 2: return t.flip() ? bin("+", str(d - 1), anyv(d - 1)) : bin("+", t.chance(1, 4) ? anyv(0) : ExP(num(d - 1)), str(d - 1));
    case 3: return mk(K::Cast, {anyv(d - 1)}, "string");
    case 4: return mk(K::Typeof, {anyv(d - 1)});
    case 5: {
        std::vector<ExP> a{single('s', d - 1), t.chance(3, 4) && !c.fieldsOnly ? ExP(litS(t.oneOf<const char*>({",", "-", "X", " ", "", "ab"}))) : single('s', d - 1)};
        if (t.chance(1, 3)) a.push_back(single('b', 0));
        return call("split", a);
    }
    case 6: return call("keys", {t.flip() ? ExP(self()) : path('o', d - 1)});
    case 7: return mk(K::Or, {str(d - 1), str(d - 1)});
    default: return mk(K::Idx, {mk(K::Cast, {str(d - 1)}, "string"), single('i', d - 1)});
    }
}
ExP Gen::regex(int d) {
    auto s = genRegexFor(t, genText(t));
    bool simple = s.find('\'') == std::string::npos && s.find('\n') == std::string::npos;
    if (simple && t.flip()) return litRe(s);
    return call("re", {t.chance(4, 5) ? ExP(litS(s)) : t.flip() ? single('s', d - 1) : ExP(call("re", {litS(s)}))});
}
ExP Gen::boolean(int d) {
    if (t.chance(c.noise, 100)) return anyv(d - 1);
    if (d <= 0) return t.flip() ? literal('b') : path('b', 0);
    switch (t.weighted({1, 2, c.cmp * 2, c.cmp, c.cmp, c.logic * 2, c.logic, c.quant * 2, c.re, c.range, c.logic})) {
    case 0: return literal('b');
    case 1: return path('b', d - 1);
    case 2: return bin(t.oneOf<const char*>({"==", "!=", "<", "<=", ">", ">="}), num(d - 1), num(d - 1));
    case 3: return bin(t.oneOf<const char*>({"==", "!=", "<", "<=", ">", ">="}), str(d - 1), str(d - 1));
    case 4: return bin(t.oneOf<const char*>({"==", "!=", "<", "<=", ">", ">="}), anyv(d - 1), anyv(d - 1));
    case 5: {
        if (t.chance(1, 25)) { // a long chain, mostly undecided to the end
            auto k = t.flip() ? K::And : K::Or; auto e = boolean(0); auto n = 3 + t.below(20);
            for (size_t i = 0; i < n; ++i) e = mk(t.chance(1, 6) ? k == K::And ? K::Or : K::And : k, {e, t.flip() ? litB(k == K::And) : boolean(0)});
            return e;
        }
        return mk(t.flip() ? K::And : K::Or, {boolean(d - 1), boolean(d - 1)}); }
    case 6: return t.flip() ? mk(K::Not, {anyv(d - 1)}) : mk(K::Bool, {anyv(d - 1)});
    case 7: {
        std::vector<ExP> a; size_t n = 1 + t.below(2) * t.below(2);
        auto fn = t.oneOf<const char*>({"any", "each", "all"});
        if (t.chance(1, 6)) { // many arguments; most of them leave the result open
            n = 3 + t.below(6);
            for (size_t i = 0; i < n; ++i) a.push_back(t.chance(3, 4) && !c.fieldsOnly ? *fn == 'a' && fn[1] == 'n' ? ExP(litB(false)) : ExP(litB(true)) : t.flip() ? boolean(0) : multi(0));
            if (t.flip()) a.push_back(boolean(d - 1));
            return call(fn, a);
        }
        for (size_t i = 0; i < n; ++i) a.push_back(t.flip() ? boolean(d - 1) : multi(d - 1));
        return call(fn, a);
    }
    case 8: { auto r = regex(d); auto s = t.chance(1, 6) ? anyv(d - 1) : str(d - 1); auto op = t.chance(2, 3) ? "==" : "!=";
        return t.chance(1, 5) ? bin(op, r, s) : bin(op, s, r); }
    case 9: { auto r = call("range", {single('i', d - 1), single('i', d - 1)}); auto n = t.chance(1, 6) ? anyv(d - 1) : num(d - 1); auto op = t.chance(2, 3) ? "==" : "!=";
        return t.chance(1, 4) ? bin(op, r, n) : bin(op, n, r); }
    default: return t.flip() ? mk(K::Cast, {anyv(d - 1)}, "bool") : mk(K::And, {anyv(d - 1), anyv(d - 1)});
    }
}
ExP Gen::model(int d) {
    if (d <= 0) return t.flip() && !inSum ? ExP(self()) : path(t.flip() ? 'o' : 'a', 0);
    if (t.chance(1, 8) && !inSum) return self();
    return path(t.flip() ? 'o' : 'a', d - 1);
}
ExP Gen::multi(int d) {
    if (d <= 0) return t.flip() ? ExP(any()) : path(t.oneOf({'i', 's', 'o', 'b'}), 0);
    switch (t.weighted({3, c.wild, c.arr * 2, c.range, c.select * 2, c.split, c.keys, 2, c.cmp, c.arr})) {
    case 0: return path(t.oneOf({'i', 'i', 's', 'o', 'b', 'm'}), d);
    case 1: return t.flip() ? wild() : any();
    case 2: { std::vector<ExP> a; auto n = argCount(t, c.fieldsOnly ? 1 + t.below(4) : t.below(5)); for (size_t i = 0; i < n; ++i) a.push_back(t.chance(1, 3) ? anyv(n > 4 ? 0 : d - 1) : literal(t.oneOf({'i', 'i', 's', 'b', 'n'}))); return call("arr", a); }
    case 3: return mk(K::Unpack, {call("range", {single('i', d - 1), single('i', d - 1)})});
    case 4: {
        std::vector<ExP> a{multi(d - 1), t.chance(1, 8) ? single('i', d - 1) : ExP(c.fieldsOnly ? path('i', 0) : litI(t.range(0, 4)))};
        if (t.flip()) a.push_back(t.chance(1, 8) ? single('i', d - 1) : ExP(c.fieldsOnly ? path('i', 0) : litI(t.range(-1, 4))));
        return call("select", a);
    }
    case 5: return call("split", {single('s', d - 1), litS(t.oneOf<const char*>({",", "-", "X"}))});
    case 6: return call("keys", {t.flip() ? ExP(self()) : path('o', d - 1)});
    case 7: return anyv(d - 1);
    case 8: return boolean(d - 1);
    default: { // steps from values of every origin: literals next to fields
        ExP p;
        if (t.chance(1, 4)) p = multi(d - 1);
        else { std::vector<ExP> a; auto n = 1 + t.below(3); for (size_t i = 0; i < n; ++i) a.push_back(t.flip() ? anyv(d - 1) : literal(t.oneOf({'i', 'i', 's', 'b', 'n'}))); p = call("arr", a); }
        auto cmp = [&] { ExP x = t.chance(1, 4) ? path('i', 0) : literal(t.oneOf({'i', 'i', 's', 'b'})); auto op = t.oneOf<const char*>({"==", "!=", "==", "<", ">="}); return t.flip() ? bin(op, self(), x) : bin(op, x, self()); };
        switch (t.below(6)) {
        case 0: return mk(K::Path, {p, self()});
        case 1: return mk(K::Path, {p, field(fieldName(t.oneOf({'i', 's', 'o', 'a'})))});
        case 2: return mk(K::Path, {p, any()});
        case 3: return mk(K::Sub, {p, cmp()});
        case 4: return mk(K::Sub, {p, t.flip() ? pred(d - 1) : mk(t.flip() ? K::And : K::Or, {cmp(), cmp()})});
        default: return mk(K::Idx, {p, t.chance(2, 3) ? ExP(litI(t.range(0, 2))) : anyv(d - 1)});
        }
    }
    }
}
ExP Gen::anyv(int d) {
    if (d <= 0) switch (t.weighted({4, 2, 2, 1, 1, 1})) {
        case 0: return path(t.oneOf({'i', 's', 'b', 'f', 'o', 'a', 'm', 'n', 'u', 'w'}), 0);
        case 1: return literal('i'); case 2: return literal('s'); case 3: return literal('b'); case 4: return literal('n');
        default: return literal('f');
    }
    switch (t.weighted({3, 2, 2, 2, 2})) {
    case 0: return num(d - 1); case 1: return str(d - 1); case 2: return boolean(d - 1); case 3: return model(d - 1);
    default: return multi(d - 1);
    }
}

} // namespace ref
