// Properties of the query language: parsing, constant folding, evaluation,
// built-in functions, tracing, purity. Oracle: the reference in ref.cpp.
#include "sut.h"
#include "simfil/function.h"
#include <algorithm>
#include <chrono>
#include <cmath>

using namespace pbt;
using namespace ref;
using sut::Outcome; using sut::Expected;

namespace {

std::string flipCase(Tape& t, std::string s) {
    switch (t.below(4)) {
    case 0: break;
    case 1: for (auto& c : s) c = char(toupper((unsigned char)c)); break;
    case 2: if (!s.empty()) s[0] = char(toupper((unsigned char)s[0])); break;
    default: for (auto& c : s) if (t.flip()) c = isupper((unsigned char)c) ? char(tolower((unsigned char)c)) : char(toupper((unsigned char)c));
    }
    return s;
}
bool isSymbol(const std::string& s) {
    bool up = false;
    for (unsigned char c : s) { if (c >= 'A' && c <= 'Z') up = true; else if (c != '_' && !(c >= '0' && c <= '9')) return false; }
    return up;
}
// Letter case as the user likes.
std::function<std::string(const std::string&, char)> anyCase(Tape& t) {
    return [&t](const std::string& w, char kind) {
        if (w.find('\\') != std::string::npos) return w;
        for (unsigned char c : w) if (c & 0x80) return w;
        auto r = flipCase(t, w);
        if (kind == 'f' && isSymbol(r)) return w;     // would be a string
        return r;
    };
}
NodeP docFor(Tape& t, bool repeats = false) {
    auto d = genDoc(t, int(t.range(1, 3)), repeats);
    if (t.chance(1, 16)) enlarge(t, d);
    return d;
}

struct Case {
    NodeP doc;
    sut::Model m;
    std::unique_ptr<simfil::Environment> env;
    Case(Tape& t, NodeP d, bool viaJson = false) : doc(std::move(d)) {
        if (viaJson) {
            sut::sortKeys(*doc);
            m.pool = simfil::json::parse(doc->text());
            m.root = m.pool->root(0);
        } else m = sut::build(*doc, &t);
        env = std::make_unique<simfil::Environment>(m.pool->strings());
    }
    Outcome run(const std::string& q, sut::Opt o = {}) { return sut::query(*env, q, *m.root, o); }
};

// One expression: printed in some way, compared with the reference.
bool check(Tape& t, Ctx& ctx, Case& c, const ExP& e, const std::set<std::string>& interesting, bool requireNonNull = true) {
    PrintOpt po;
    po.minimal = t.flip();
    po.noise = &t;
    auto q = print(*e, po);
    ctx.note("query " + q);
    auto x = sut::expect(*e, *c.doc);
    ctx.evaluation();
    if (x.kind == Expected::NoClaim) { ctx.label("no claim: " + x.why); return false; }
    auto o = c.run(q);
    bool claim = sut::agree(ctx, x, o, "query " + quote(q));
    if (!claim) return false;
    for (auto& f : x.seen) if (interesting.count(f)) ctx.label("took effect: " + f);
    bool hit = interesting.empty();
    for (auto& f : x.seen) if (interesting.count(f)) hit = true;
    if (hit && x.kind == Expected::Values && (!requireNonNull || sut::hasNonNull(x))) ctx.nontrivial(q + "\x01" + c.doc->text());
    return true;
}
ExP genFor(Tape& t, Gen& g, int d) {
    switch (t.weighted({3, 2, 3, 1, 3})) {
    case 0: return g.num(d); case 1: return g.str(d); case 2: return g.boolean(d); case 3: return g.model(d); default: return g.multi(d);
    }
}
void noteDoc(Ctx& ctx, const Node& d) { ctx.note("document " + d.text()); }

// ---------------------------------------------------------------------- C08
void precedence(Tape& t, Ctx& ctx) {
    Cfg cfg; cfg.fieldsOnly = true; cfg.cast = 3; cfg.bit = 2; cfg.str = 3; cfg.re = 0;
    Gen g{t, cfg};
    auto e = genFor(t, g, int(t.range(1, 4)));
    Case c(t, docFor(t));
    noteDoc(ctx, *c.doc);
    auto full = print(*e, {});
    PrintOpt mo; mo.minimal = true;
    auto minimal = print(*e, mo);
    PrintOpt no; no.minimal = true; no.noise = &t;
    auto noisy = print(*e, no);
    ctx.note("full     " + full); ctx.note("minimal  " + minimal);
    auto shape = sexpr(*e);
    auto x = sut::expect(*e, *c.doc);
    for (auto& q : {full, minimal, noisy}) {
        ctx.evaluation();
        simfil::ExprPtr ast;
        try { ast = simfil::compile(*c.env, q, false); }
        catch (const std::exception& er) {
            if (x.kind == Expected::Raises || x.mayRaise || x.mayRaiseCompile) { ctx.label("statically wrong"); return; }
            fail("query " + quote(q) + " rejected: " + er.what());
        }
        auto s = ast->toString();
        if (s != shape) fail("query " + quote(q) + " parses to\n  " + s + "\n  expected\n  " + shape);
        if (x.kind != Expected::NoClaim) sut::agree(ctx, x, c.run(q), "query " + quote(q));
    }
    if (full != minimal) { ctx.nontrivial(minimal); ctx.label("parentheses saved"); }
}

void compare(Ctx& ctx, const std::string& q, const Outcome& o, const std::vector<std::string>& want) {
    if (o.kind != Outcome::Ok || o.vals != want) {
        size_t i = 0; while (i < want.size() && i < o.vals.size() && want[i] == o.vals[i]) ++i;
        fail("query " + q + " yields " + (o.kind != Outcome::Ok ? o.str() : std::to_string(o.vals.size()) + " values instead of " + std::to_string(want.size()) + ", first difference at " + std::to_string(i) + ": " + (i < o.vals.size() ? o.vals[i] : "none")));
    }
}
// An object or array with many members, and a text of many parts.
void longDocument(Tape& t, Ctx& ctx) {
    const int64_t n = t.chance(1, 3) ? t.oneOf<int64_t>({127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097}) : t.range(60, 6000);
    const bool obj = t.flip();
    NodeP d = mkObj(), big = obj ? mkObj() : mkArr(), small = mkObj();
    std::vector<std::string> names; std::string text;
    for (int64_t i = 0; i < n; ++i) {
        names.push_back("n" + std::to_string(i));
        big->kids.emplace_back(obj ? names.back() : "", mkInt(i));
        text += (i ? "," : "") + names.back();
    }
    small->kids.emplace_back("x", mkInt(5));
    d->kids.emplace_back("big", std::move(big)); d->kids.emplace_back("text", mkStr(text)); d->kids.emplace_back("one", mkInt(1)); d->kids.emplace_back("tail", std::move(small));
    Case c(t, std::move(d));
    const auto k = t.chance(1, 3) ? n - 1 : t.range(0, n - 1), cnt = t.flip() ? t.range(1, 9) : t.range(1, n + 3);
    std::vector<std::string> want; std::string q;
    auto S = [](int64_t v) { return std::to_string(v); };
    auto ints = [&](int64_t from, int64_t to, int64_t plus = 0) { for (auto i = from; i < std::min(n, to); ++i) want.push_back("int:" + S(i + plus)); };
    auto strs = [&](int64_t from, int64_t to) { for (auto i = from; i < std::min(n, to); ++i) want.push_back("string:" + names[size_t(i)]); };
    switch (t.below(15)) {
    case 0: q = "big.*"; ints(0, n); break;
    case 1: q = "big.* + one"; ints(0, n, 1); break;
    case 2: q = "select(big.*, " + S(k) + ", " + S(cnt) + ")"; ints(k, k + cnt); break;
    case 3: q = "count(big.*, **)"; want = {"int:" + S(2 * n + 6)}; break;
    case 4: q = "sum(big.*)"; want = {"int:" + S(n * (n - 1) / 2)}; break;
    case 5: q = "sum(big.*, $sum + $idx * 3 - $val)"; want = {"int:" + S(n * (n - 1))}; break;
    case 6: q = "big.*{_ >= " + S(k) + "}"; ints(k, n); break;
    case 7: q = "any(big.* == " + S(t.flip() ? k : n) + ")"; want = {q.ends_with("== " + S(n) + ")") ? "bool:false" : "bool:true"}; break;
    case 8: q = "#big"; want = {"int:" + S(n)}; break;
    case 9: q = "big[" + S(k) + "]"; ints(k, k + 1); break;
    case 10: q = "count(split(text, ','))"; want = {"int:" + S(n)}; break;
    case 11: q = "select(split(text, ','), " + S(k) + ", " + S(cnt) + ")"; strs(k, k + cnt); break;
    case 12: if (obj) { q = "keys(big)"; strs(0, n); } else { q = "keys(tail)"; want = {"string:x"}; } break;
    case 13: if (obj) { q = "arr(big." + names[size_t(k)] + ", big['" + names[size_t(k)] + "'])"; ints(k, k + 1); want.push_back(want[0]); } else { q = "arr(*.x, **.x)"; want = {"int:5", "int:5"}; } break;
    default: q = obj ? "select(keys(arr(tail, big, tail)), " + S(n + 1) + ")" : "select(keys(arr(tail, tail)), 1)"; want = {"string:x"}; break;
    }
    ctx.note("members " + S(n) + (obj ? " (object)" : " (array)") + ", query " + q);
    ctx.evaluation();
    if (want.empty()) want = {"null"};
    compare(ctx, q, c.run(q), want);
    ctx.label("long document"); ctx.nontrivial(q + S(n));
}

// Sequences around and beyond the number of values the compiler keeps (10000).
void longSequence(Tape& t, Ctx& ctx) {
    int64_t n = t.chance(1, 2) ? t.range(9996, 10004) : t.chance(1, 8) ? t.range(26000, 70000) : t.chance(1, 2) ? t.range(10000, 26000) : t.range(2000, 9999);
    if (t.chance(1, 3)) return longDocument(t, ctx);
    int64_t a = t.range(-20000, 20000), b = a + n - 1;
    NodeP d = mkObj();
    d->kids.emplace_back("lo", mkInt(a)); d->kids.emplace_back("hi", mkInt(b)); d->kids.emplace_back("one", mkInt(1));
    Case c(t, std::move(d));
    // Bounds the compiler knows, or not.
    auto lo = t.chance(2, 3) ? "(" + std::to_string(a) + ")" : "lo", hi = t.chance(2, 3) ? "(" + std::to_string(b) + ")" : "hi";
    bool down = t.flip();
    auto seq = "range(" + (down ? hi + "," + lo : lo + "," + hi) + ")...";
    auto nth = [&](int64_t i) { return down ? b - i : a + i; };
    std::vector<std::string> want;
    std::string q;
    auto plain = [&](auto f) { for (int64_t i = 0; i < n; ++i) want.push_back("int:" + std::to_string(f(nth(i)))); };
    switch (auto w = t.below(14); w >= 11 ? 5 : w) {
    case 9: q = "count(" + seq + ", " + (t.flip() ? seq : "one, one") + ")"; want = {"int:" + std::to_string(q.ends_with("one)") ? n + 2 : 2 * n)}; break;
    case 10: q = "sum(" + seq + ", $sum + $idx)"; want = {"int:" + std::to_string(n * (n - 1) / 2)}; break;
    case 0: q = seq; plain([](int64_t v) { return v; }); break;
    case 1: q = seq + " + 1"; plain([](int64_t v) { return v + 1; }); break;
    case 2: q = seq + " * one"; plain([](int64_t v) { return v; }); break;
    case 3: q = "count(arr(" + seq + " == lo, true))"; want = {"int:2"}; break;
    case 4: q = "sum(" + seq + ")"; want = {"int:" + std::to_string((a + b) * n / 2)}; break;
    case 5: { auto cnt = t.flip() ? 2 : t.range(1, n + 5); auto k = t.flip() ? n - 1 : t.range(0, n - 1); q = "select(" + seq + ", " + std::to_string(k) + ", " + std::to_string(cnt) + ")"; for (auto i = k; i < std::min(n, k + cnt); ++i) want.push_back("int:" + std::to_string(nth(i))); break; }
    case 6: { auto x = t.flip() ? nth(n - 1) : t.range(a - 3, b + 3); q = std::string(t.flip() ? "any(" : "any(false, ") + seq + " == " + (t.flip() ? "(" + std::to_string(x) + ")" : std::to_string(x - 1) + " + one") + ")"; want = {x >= a && x <= b ? "bool:true" : "bool:false"}; break; }
    case 7: { auto x = t.flip() ? nth(n - 1) : b + 1; q = "each(" + seq + " != " + (t.flip() ? "(" + std::to_string(x) + ")" : std::to_string(x - 1) + " + one") + ")"; want = {x >= a && x <= b ? "bool:false" : "bool:true"}; break; }
    default: q = "arr(" + seq + ", one, 'end')"; plain([](int64_t v) { return v; }); want.push_back("int:1"); want.push_back("string:end");
    }
    ctx.note("query " + q);
    ctx.evaluation();
    compare(ctx, q, c.run(q), want);
    ctx.label("long sequence"); ctx.nontrivial(q);
}

// ---------------------------------------------------------------------- C09
// The same expression with every literal hidden from the compiler.
ExP hide(const ExP& e) {
    if (e->k == K::Lit) return call("select", {call("arr", {self(), clone(e)}), [] { auto z = litI(1); return z; }()});
    auto c = std::make_shared<Ex>(*e);
    for (auto& a : c->a) a = hide(a);
    return c;
}
void folding(Tape& t, Ctx& ctx) {
    if (t.chance(1, 900)) return longSequence(t, ctx);
    Cfg cfg; cfg.path = 2; cfg.wild = 1; cfg.sub = 1; cfg.noise = 10; cfg.re = 2; cfg.range = 3; cfg.split = 2; cfg.arr = 4; cfg.select = 3; cfg.quant = 4; cfg.count = 3; cfg.sum = 2;
    Gen g{t, cfg};
    auto e = genFor(t, g, int(t.range(1, 4)));
    if (exSize(*e) > 60) { ctx.label("too big"); return; }
    Case c(t, docFor(t));
    noteDoc(ctx, *c.doc);
    auto h = hide(e);
    PrintOpt po; po.noise = &t; po.minimal = t.flip();
    auto q = print(*e, po);
    auto qh = print(*h, {});
    ctx.note("query  " + q); ctx.note("hidden " + qh);
    auto x = sut::expect(*e, *c.doc);
    if (x.kind == Expected::NoClaim) { ctx.label("no claim: " + x.why); return; }
    ctx.evaluation(2);
    auto o = c.run(q), oh = c.run(qh);
    // Without literals nothing is folded, so the plain evaluation is the oracle.
    if (!oh.raised() && !o.raised() && o.vals != oh.vals)
        fail("folded and unfolded evaluation differ: " + quote(q) + "\n  folded   " + o.str() + "\n  unfolded " + oh.str());
    if (oh.raised() && !o.raised()) fail("unfolded evaluation raises, folded does not: " + quote(q) + "\n  folded   " + o.str() + "\n  unfolded " + oh.str());
    if (o.raised() && !oh.raised() && !x.mayRaise && !x.mayRaiseCompile) fail("only the folded form raises: " + quote(q) + "\n  folded   " + o.str() + "\n  unfolded " + oh.str());
    sut::agree(ctx, x, o, "query " + quote(q));
    // Wrapped into any(...)
    auto a = call("any", {e});
    auto xa = sut::expect(*a, *c.doc);
    auto oa = c.run(q, {true, false});
    ctx.evaluation();
    if (xa.kind != Expected::NoClaim) sut::agree(ctx, xa, oa, "any-query " + quote(q));
    // Was anything folded?
    if (o.kind == Outcome::Ok && o.ast != sexpr(*e)) { ctx.nontrivial(q); ctx.label("folded"); }
    for (auto& f : x.seen) ctx.label("took effect: " + f);
}

// ---------------------------------------------------------------------- C10
std::string soup(Tape& t) {
    static const std::vector<std::string> toks = {
        "(", ")", "[", "]", "{", "}", ",", ".", "..", "...", "*", "**", "_", "+", "-", "/", "%", "<<", ">>", "&", "|", "^", "~", "#", "?",
        "==", "=", "!=", "<", "<=", ">", ">=", "and", "or", "not", "as", "typeof", "int", "float", "string", "bool", "null", "true", "false",
        "i", "s", "a", "o", "b", "list", "ID", "ABC", "0", "1", "2", "1.5", "'a'", "\"b\"", "''", "re'a.*'", "r'x'", "any(", "each(", "count(", "range(",
        "arr(", "select(", "split(", "sum(", "keys(", "re(", "trace(", "unknown(", "$sum", "$val", "$idx", ":", "!", "\\", "'", "\"", "0x1F", "0b1", ".5", "5.", "1e3", "@", ";", "caf\xc3\xa9",
        "any", "range", "re", "as int", "as foo", "*.i", "**.s", "o.", ".i", "a[0]", "{i}", "[0]", "_[", "-1", "<", ")", ")", "("};
    std::string s;
    auto n = 1 + t.size(24);
    for (size_t i = 0; i < n; ++i) { s += t.pick(toks); if (t.chance(2, 3)) s += " "; }
    return s;
}
std::string mutate(Tape& t, std::string s) {
    auto n = t.chance(1, 3) ? t.below(4) : 1;
    for (size_t i = 0; i < n && !s.empty(); ++i) {
        auto at = t.below(s.size() + 1);
        switch (t.below(6)) {
        case 0: s.erase(at, 1 + t.below(4)); break;
        case 1: s.insert(at, 1, char(t.below(256))); break;
        case 2: { static const std::string cs = "()[]{}.,*_+-?#~'\"\\ 0aA!=<>&|^%/:"; s.insert(at, 1, cs[t.below(cs.size())]); break; }
        case 3: { auto len = 1 + t.below(12); auto from = t.below(s.size()); s.insert(at, s.substr(from, len)); break; }
        case 4: s.resize(at); break;
        default: if (at < s.size()) s[at] = char(t.below(256));
        }
    }
    return s;
}
// Wildcards multiply; keep the worst case small.
bool tooWide(const std::string& q) {
    size_t stars = 0, digits = 0, run = 0;
    for (size_t i = 0; i < q.size(); ++i) {
        if (q[i] == '*') ++stars;
        if (isalnum((unsigned char)q[i])) { run += isxdigit((unsigned char)q[i]) != 0; digits = std::max(digits, run); } else run = 0;
    }
    if (stars > 6) return true;
    std::string l = lower(q);
    bool unpack = l.find("...") != std::string::npos;
    size_t ops = 0;
    for (auto* o : {"*", "<<", "as"}) for (size_t p = 0; (p = l.find(o, p)) != std::string::npos; ++p) ++ops;
    return unpack && (digits > 4 || ops > 2);
}
void robustness(Tape& t, Ctx& ctx) {
    NodeP d = genDoc(t, 2);
    if (d->count() > 14) d = genDoc(t, 0);
    std::function<void(Node&)> clamp = [&](Node& n) {   // ranges over fields stay short
        if (n.t == T::Int) n.i = std::clamp<int64_t>(n.i, -40, 40);
        for (auto& [k, v] : n.kids) clamp(*v);
    };
    clamp(*d);
    Case c(t, std::move(d));
    std::string q;
    switch (t.weighted({3, 7, 1, 1})) {
    case 0: q = soup(t); break;
    case 1: { Cfg cfg; cfg.noise = 30; cfg.wild = 1; cfg.trace = 1; Gen g{t, cfg}; auto e = genFor(t, g, int(t.range(1, 3))); PrintOpt po; po.noise = &t; po.minimal = t.flip(); po.word = anyCase(t); q = mutate(t, print(*e, po)); break; }
    case 2: { auto n = t.size(40); for (size_t i = 0; i < n; ++i) q += char(t.below(256)); break; }
    default: { // deep nesting
        auto n = t.range(1, 150);
        if (t.chance(1, 60)) n = t.range(900, 30000);
        if (t.chance(1, 60)) { // long chains
            static const std::vector<std::string> ops = {" or ", ".", "?.", "[0].", "{_}.", "+", "==", " as string as int+"};
            bool lots = t.chance(1, 8);   // compile time grows with the square of the length
            auto& o = ops[t.below(lots ? 5 : ops.size())];
            n = lots ? t.range(900, 8000) : n % 150;
            for (int64_t i = 0; i < n; ++i) q += "i" + o;
            q += "i";
            ctx.label(n > 900 ? "very long chain" : "chain");
            break;
        }
        if (n > 900) ctx.label("very deep nesting");
        static const std::vector<std::pair<std::string, std::string>> nest = {{"(", ")"}, {"any(", ")"}, {"not ", ""}, {"-", ""}, {"o{", "}"}, {"a[", "]"}, {"1+(", ")"}, {"o.", ""}, {"# ", ""}, {"{", "}"}, {"[", "]"}, {"i and (", ")"}};
        auto& p = t.pick(nest);
        std::string l, r;
        for (int64_t i = 0; i < n; ++i) { l += p.first; r += p.second; }
        q = l + t.oneOf<const char*>({"i", "1", "", "_", "s", ")"}) + r;
        ctx.label("deep nesting");
    }
    }
    if (tooWide(q)) { ctx.label("skipped: too wide"); return; }
    ctx.note("document " + c.doc->text());
    ctx.note("query " + (q.size() < 2000 ? quote(q) : quote(q.substr(0, 60)) + " ... " + std::to_string(q.size()) + " bytes"));
    auto before = c.m.pool->toJson().dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
    auto modes = q.size() < 2000 ? std::vector<sut::Opt>{{false, false}, {true, false}, {true, true}, {false, true}} : std::vector<sut::Opt>{{t.flip(), t.flip()}};
    for (auto op : modes) {
        ctx.evaluation();
        auto a = c.run(q, op);    // raises nothing but std::exception, or the case fails
        auto b = c.run(q, op);
        if (a.kind != b.kind || a.vals != b.vals || a.ast != b.ast) fail("second run differs: " + a.str() + " then " + b.str());
        if (op.any && a.kind == Outcome::Ok && (a.vals.size() != 1 || (a.vals[0] != "bool:true" && a.vals[0] != "bool:false")))
            fail("any-wrapped query " + quote(q) + " yields " + a.str());
        ctx.label(a.kind == Outcome::Ok ? "accepted" : a.kind == Outcome::CompileError ? "rejected" : "raises while evaluating");
        if (!op.any && !op.autoWild && a.kind != Outcome::CompileError) ctx.nontrivial(q.size() < 2000 ? q : std::to_string(hashStr(q)));
    }
    if (c.m.pool->toJson().dump(-1, ' ', false, nlohmann::json::error_handler_t::replace) != before) fail("the model changed");
}

// ---------------------------------------------------------------------- C11
// Constants of every kind, in every place: values, several of them, hiding fields, nodes of another model.
ExP placeConstants(Tape& t, ExP e, const std::vector<std::string>& names, const std::set<std::string>& all, bool inPath = false) {
    if (e->k == K::Field) {
        if (!inPath && all.count(lower(e->s))) e->b = true;
        return e;
    }
    if (e->k == K::Lit && e->t != T::Re && t.chance(1, 3)) return field(t.pick(names));
    for (size_t i = 0; i < e->a.size(); ++i) {
        auto n = placeConstants(t, e->a[i], names, all, e->k == K::Path && i == 1);
        if (n->k == K::Field && all.count(lower(n->s)) && !(e->k == K::Path && i == 1)) n->b = true;
        e->a[i] = n;
    }
    return e;
}
void constants(Tape& t, Ctx& ctx) {
    Case c(t, docFor(t));
    noteDoc(ctx, *c.doc);
    auto doc2 = genDoc(t, 2);
    auto m2 = sut::build(*doc2, c.m.pool->strings(), &t);
    Cfg cfg; Gen g{t, cfg};
    ref::Env base; std::vector<std::string> names; std::set<std::string> all; std::vector<simfil::ExprPtr> keep;
    bool nodes = false;
    static const std::vector<std::string> own = {"pi", "myConst", "max_value", "k1", "caf\xc3\xa9s", "With Space"};
    for (auto n = t.range(1, 3); n-- > 0;) {
        auto name = t.chance(1, 3) ? g.fieldName(t.oneOf({'i', 's', 'o', 'a', 'u', 'w'})) : t.pick(own);
        if (isSymbol(name) || !all.insert(lower(name)).second) continue;
        Val v; simfil::Value s = simfil::Value::null();
        if (t.flip()) { // a node of another model
            const Node* at = doc2.get(); auto node = m2.root;
            while (!at->kids.empty() && t.chance(2, 3)) { auto i = t.below(at->kids.size()); at = at->kids[i].second.get(); node = node->at(int64_t(i)); }
            v = ref::fromNode(*at); s = simfil::Value::field(*node); nodes = true;
        } else {
            ExP e;
            switch (t.below(5)) {
            case 0: e = call("range", {litI(t.range(-3, 9)), litI(t.range(-3, 9))}); break;
            case 1: e = call("re", {litS(genRegexFor(t, "a"))}); break;
            default: e = g.literal(t.oneOf({'i', 's', 'b', 'f', 'n'}));
            }
            try { v = ref::eval(*e, *c.doc, base).at(0); } catch (const ref::Error&) { all.erase(lower(name)); continue; }
            catch (const ref::OutOfDomain&) { all.erase(lower(name)); continue; }
            keep.push_back(simfil::compile(*c.env, print(*e, {}), false, false));
            s = simfil::eval(*c.env, *keep.back(), *c.m.root).at(0);
        }
        ctx.note("constant " + name + " = " + ref::render(v));
        names.push_back(name); base.constants[lower(name)] = v;
        c.env->constants.emplace(name, s);
    }
    if (names.empty()) return;
    ExP e = genFor(t, g, int(t.range(1, 2)));
    auto K1 = [&] { return field(t.pick(names)); };
    switch (t.below(10)) {
    case 0: e = bin(t.oneOf<const char*>({"==", "+", "<", ">=", "!=", "*"}), K1(), e); break;
    case 1: e = bin(t.oneOf<const char*>({"==", "+", "<", ">=", "!=", "&"}), e, K1()); break;
    case 2: e = mk(K::Path, {K1(), t.flip() ? wild() : any()}); break;
    case 3: e = mk(K::Path, {K1(), field(g.fieldName(t.oneOf({'i', 's', 'o', 'a', 'n', 'u'})))}); break;
    case 4: e = mk(K::Sub, {t.flip() ? mk(K::Path, {K1(), any()}) : K1(), g.pred(1)}); break;
    case 5: e = mk(K::Idx, {K1(), t.flip() ? litI(t.range(-1, 3)) : litS(g.fieldName(t.oneOf({'i', 's', 'o', 'a'})))}); break;
    case 6: e = call(t.oneOf<const char*>({"arr", "count", "any", "each"}), {K1(), e}); break;
    case 7: e = mk(t.oneOf({K::Unpack, K::Typeof, K::Bool, K::Len}), {K1()}); break;
    case 8: e = call(t.flip() ? "keys" : "sum", {t.flip() ? mk(K::Path, {K1(), any()}) : K1()}); break;
    }
    if (t.chance(1, 4)) e = call(t.oneOf<const char*>({"any", "count", "arr"}), {e});
    e = placeConstants(t, e, names, all);
    if (e->k == K::Field && all.count(lower(e->s))) e->b = true;
    PrintOpt po; po.word = anyCase(t); po.minimal = t.flip();
    auto q = print(*e, po);
    ctx.note("query " + q);
    auto x = sut::expect(*e, *c.doc, base);
    ctx.evaluation();
    if (x.kind == Expected::NoClaim) { ctx.label("no claim: " + x.why); return; }
    if (sut::agree(ctx, x, c.run(q), "query " + quote(q)) && x.seen.count("constant")) {
        ctx.nontrivial(q); ctx.label(nodes ? "constants with nodes of another model" : "constants of any kind");
    }
}
void letterCase(Tape& t, Ctx& ctx) {
    switch (t.weighted({6, 2, 2, 2, 2})) {
    case 0: { // any letter case for names, keywords, functions, types
        Cfg cfg; Gen g{t, cfg};
        auto e = genFor(t, g, int(t.range(1, 3)));
        Case c(t, docFor(t));
        noteDoc(ctx, *c.doc);
        PrintOpt po; po.word = anyCase(t); po.minimal = t.flip();
        auto q = print(*e, po);
        ctx.note("query " + q);
        // The environment answers by the same names.
        for (auto name : {"any", "each", "all", "count", "range", "arr", "split", "select", "sum", "keys", "trace", "re"}) {
            auto as = flipCase(t, name);
            auto fn = c.env->findFunction(as);
            if (!fn || fn->ident().ident != (name == std::string("all") ? "each" : name)) fail("findFunction(" + as + ") does not find " + name);
            if (c.env->findFunction(as + "x") || c.env->findFunction(as.substr(1)) || c.env->findConstant(as)) fail("something is found that does not exist");
        }
        auto x = sut::expect(*e, *c.doc);
        ctx.evaluation();
        if (x.kind == Expected::NoClaim) return;
        if (sut::agree(ctx, x, c.run(q), "query " + quote(q)) && sut::hasNonNull(x) && q != print(*e, {})) { ctx.nontrivial(q); ctx.label("letter case"); }
        return;
    }
    case 1: { // document keys in another letter case than the query's
        Case c0(t, docFor(t));
        NodeP d = std::move(c0.doc);
        std::map<std::string, std::string> spelled;
        std::function<void(Node&)> recase = [&](Node& n) {
            for (auto& [k, v] : n.kids) {
                if (n.t == T::Obj) {
                    // The pool keeps one spelling per name.
                    auto l = lower(k);
                    if (!spelled.count(l)) { bool ascii = std::all_of(k.begin(), k.end(), [](char ch) { return !(ch & 0x80); }); spelled[l] = ascii ? flipCase(t, k) : k; }
                    k = spelled[l];
                }
                recase(*v);
            }
        };
        recase(*d);
        Case c(t, std::move(d));
        noteDoc(ctx, *c.doc);
        Cfg cfg; cfg.keys = 3; Gen g{t, cfg};
        auto e = genFor(t, g, int(t.range(1, 3)));
        PrintOpt po; po.word = anyCase(t);
        auto q = print(*e, po);
        ctx.note("query " + q);
        auto x = sut::expect(*e, *c.doc);
        ctx.evaluation();
        if (x.kind == Expected::NoClaim) return;
        if (sut::agree(ctx, x, c.run(q), "query " + quote(q)) && sut::hasNonNull(x)) { ctx.nontrivial(q); ctx.label("document letter case"); }
        return;
    }
    case 2: { // words in upper case are strings, except in a path
        std::string w;
        auto n = 1 + t.below(t.chance(1, 6) ? 40 : 6);
        for (size_t i = 0; i < n; ++i) w += "ABCXYZ_Q"[t.below(8)];
        if (t.flip()) w += char('0' + t.below(10));
        static const std::set<std::string> kw = {"null", "true", "false", "and", "or", "not", "typeof", "as", "_"};
        bool sym = isSymbol(w);
        if (kw.count(lower(w)) || (!sym && w.find_first_not_of("_0123456789") == std::string::npos && w == "_")) return;
        NodeP d = mkObj();
        auto other = genText(t);
        d->kids.emplace_back(t.flip() ? w : lower(w), mkStr(other));
        if (t.flip()) { auto o = mkObj(); o->kids.emplace_back(w, mkInt(7)); d->kids.emplace_back("o", std::move(o)); }
        Case c(t, std::move(d));
        noteDoc(ctx, *c.doc); ctx.note("word " + w);
        auto o = c.run(w);
        ctx.evaluation(5);
        std::string want = sym ? "string:" + w : "string:" + other;
        if (o.str() != sut::join({want})) fail("word " + w + " yields " + o.str() + ", expected " + want);
        o = c.run("_." + w);
        if (o.str() != sut::join({"string:" + other})) fail("path _." + w + " yields " + o.str());
        o = c.run(w + " == '" + w + "'");
        if (sym && o.str() != sut::join({"bool:true"})) fail("symbol comparison yields " + o.str());
        o = c.run("any(" + w + ")");
        if (o.str() != sut::join({"bool:true"})) fail("any() yields " + o.str());
        o = c.run("_{(" + w + ") == '" + w + "'}." + w);
        if (sym && o.str() != sut::join({"string:" + other})) fail("symbol in a filter yields " + o.str());
        if (c.doc->kids.size() > 1) {
            o = c.run("o." + w);
            if (o.str() != sut::join({"int:7"})) fail("path o." + w + " yields " + o.str());
            o = c.run(w + "." + w + "... + o." + w);
            (void)o;
            if (sym) { // inside of calls, brackets and braces it is a string again, also within a path
                const std::string S = "string:" + w, O = "string:" + other, N = "int:7";
                const std::pair<const char*, std::vector<std::string>> uses[] = {
                    {"_.arr(@)", {S}}, {"_.o.arr(@)", {S}}, {"_[@]", {O}}, {"_.o[@]", {N}}, {"_.(@)", {S}}, {"o{@=='@'}.@", {N}}, {"_.o.{@=='@'}.@", {N}},
                    {"o.[@]", {N}}, {"_.o.arr(@, _.@)", {S, N}}, {"arr(_.@, @)", {O, S}}, {"{@=='@'}.@", {O}}, {"[@]", {O}}, {"arr(o.@)", {N}}, {"-_.o.@", {"int:-7"}},
                    {"_.o.@ as string + @", {"string:7" + w}}, {"_.*{@ == '@'}.@", {N}}, {"(_.o).@", {N}}, {"o.count(@)", {"int:1"}}};
                auto& u = t.pick(uses); std::string q = u.first;
                for (size_t p = 0; (p = q.find('@', p)) != std::string::npos; p += w.size()) q.replace(p, 1, w);
                ctx.note("query " + q);
                o = c.run(q);
                bool nulls = q.find("_.*") == 0; // the other child has no such field
                if (nulls ? std::find(o.vals.begin(), o.vals.end(), N) == o.vals.end() : o.vals != u.second) fail("query " + q + " yields " + o.str() + ", expected " + sut::join(u.second));
                ctx.label("symbol in a path context");
            }
        }
        ctx.nontrivial(w); ctx.label(sym ? "symbol" : "not a symbol");
        return;
    }
    case 3: { // user defined constants and functions
        if (t.chance(2, 3)) return constants(t, ctx);
        Case c(t, docFor(t));
        Val v; std::string name = t.oneOf<const char*>({"pi", "myConst", "max_value", "k1"});
        switch (t.below(4)) {
        case 0: v.t = T::Int; v.i = t.range(-5, 100); c.env->constants.emplace(name, simfil::Value::make(v.i)); break;
        case 1: v.t = T::Str; v.s = genText(t); c.env->constants.emplace(name, simfil::Value::make(v.s)); break;
        case 2: v.t = T::Bool; v.b = t.flip(); c.env->constants.emplace(name, simfil::Value::make(bool(v.b))); break;
        default: v.t = T::Float; v.d = double(t.range(-20, 20)) / 4; c.env->constants.emplace(name, simfil::Value::make(v.d));
        }
        noteDoc(ctx, *c.doc); ctx.note("constant " + name + " = " + ref::render(v));
        auto asLit = v.t == T::Int ? litI(v.i) : v.t == T::Str ? litS(v.s) : v.t == T::Bool ? litB(v.b) : litF(v.d);
        Cfg cfg; Gen g{t, cfg};
        auto other = genFor(t, g, 1);
        auto op = t.oneOf<const char*>({"==", "+", "<", ">=", "!=", "*"});
        auto e = bin(op, asLit, other);
        auto eN = bin(op, field(name), other);
        PrintOpt po; po.word = anyCase(t);
        auto q = print(*eN, po);
        ctx.note("query " + q);
        auto x = sut::expect(*e, *c.doc);
        ctx.evaluation();
        if (x.kind == Expected::NoClaim) return;
        if (sut::agree(ctx, x, c.run(q), "query " + quote(q))) { ctx.nontrivial(q); ctx.label("constant"); }
        // A field of that name is reachable in a path.
        return;
    }
    default: { // any=true and autoWildcard
        Cfg cfg; Gen g{t, cfg};
        bool constant = t.flip();
        ExP e = constant ? g.literal(t.oneOf({'i', 's', 'b', 'f', 'n'})) : genFor(t, g, int(t.range(1, 2)));
        if (constant) switch (t.below(12)) { // also values of all other kinds, and several values
        case 0: case 1: if (e->t == T::Int && e->i >= 0) e = bin("+", e, litI(1)); break;
        case 2: e = call("range", {g.literal('i'), g.literal('i')}); break;
        case 3: e = call("re", {litS(genRegexFor(t, t.flip() ? "" : "a"))}); break;
        case 4: { std::vector<ExP> vs{e}; for (auto n = t.range(0, 3); n-- > 0;) vs.push_back(g.literal(t.oneOf({'i', 's', 'b', 'f', 'n'})));
                  e = call("arr", vs); break; }
        default: break;
        }
        Case c(t, docFor(t));
        noteDoc(ctx, *c.doc);
        auto q = print(*e, {});
        ctx.note("query " + q);
        auto w = bin("==", wild(), e);
        ctx.evaluation(2);
        auto xa = sut::expect(*call("any", {e}), *c.doc);
        if (xa.kind == Expected::NoClaim || sut::expect(*e, *c.doc).kind == Expected::NoClaim) return;
        sut::agree(ctx, xa, c.run(q, {true, false}), "any-query " + quote(q));
        if (constant) {
            if (sut::agree(ctx, sut::expect(*w, *c.doc), c.run(q, {false, true}), "auto-wildcard query " + quote(q)) &&
                sut::agree(ctx, sut::expect(*call("any", {w}), *c.doc), c.run(q, {true, true}), "auto-wildcard any-query " + quote(q))) {
                ctx.nontrivial(q + c.doc->text()); ctx.label("auto-wildcard");
            }
        } else {
            auto o = c.run(q), o2 = c.run(q, {false, true});
            if (o.kind == Outcome::Ok && o.ast.find_first_of("(*_abcdefghijklmnopqrstuvwxyz") == 0 && o.ast != "null" && o.ast != "true" && o.ast != "false"
                && !(o.str() == o2.str() && o.ast == o2.ast))
                fail("auto-wildcard changed a non-constant query " + quote(q) + " into " + o2.ast);
            ctx.nontrivial(q + c.doc->text()); ctx.label("any-wrap");
        }
    }
    }
}

// ----------------------------------------------------- C12..C15, C17: one area each
template <class F> void area(Tape& t, Ctx& ctx, F gen, const std::set<std::string>& interesting, bool nonNull = true) {
    Cfg cfg;
    Case c(t, docFor(t, t.chance(1, 6)), false);
    noteDoc(ctx, *c.doc);
    auto n = 1 + t.below(4);
    for (size_t i = 0; i < n; ++i) check(t, ctx, c, gen(cfg), interesting, nonNull);
}
void paths(Tape& t, Ctx& ctx) {
    area(t, ctx, [&](Cfg& cfg) -> ExP {
        cfg.wild = 6; cfg.sub = 6; cfg.idx = 6; cfg.noise = 8;
        Gen g{t, cfg};
        switch (t.weighted({6, 2, 2})) {
        case 0: return g.path(t.oneOf({'i', 's', 'o', 'a', 'm', 'f', 'b', 'w', 'n', 'u'}), int(t.range(0, 3)));
        case 1: { // chains of steps of every kind
            ExP p = t.flip() ? self() : t.flip() ? wild() : ExP(mk(K::Path, {self(), field(g.fieldName(t.flip() ? 'o' : 'a'))}));
            auto n = 1 + t.below(4);
            bool wildUsed = p->k == K::Wild;
            for (size_t i = 0; i < n; ++i) switch (t.below(8)) {
                case 0: case 1: p = mk(K::Path, {p, field(g.fieldName("isoabmnw"[t.below(8)]))}); break;
                case 2: p = mk(K::Path, {p, any()}); break;
                case 3: if (!wildUsed) p = mk(K::Path, {p, wild()}); wildUsed = true; break;
                case 4: p = mk(K::Idx, {p, t.chance(2, 3) ? ExP(litI(t.range(-1, 4))) : t.flip() ? ExP(litS(g.fieldName('i'))) : g.anyv(1)}); break;
                case 5: p = mk(K::Sub, {p, g.pred(2)}); break;
                case 6: p = mk(K::Path, {p, mk(t.flip() ? K::SubPre : K::IdxPre, {t.flip() ? g.pred(1) : t.flip() ? ExP(litI(t.range(0, 3))) : ExP(litS(g.fieldName('i')))})}); break;
                default: p = mk(K::Path, {p, self()});
            }
            return p;
        }
        default: return mk(K::Sub, {g.model(2), g.boolean(3)});
        }
    }, {"field", "path", "*", "**", "sub", "index", "filtered"});
}
void scalars(Tape& t, Ctx& ctx) {
    // Operators over explicit operand values: every type with every other.
    bool wide = t.chance(1, 12);   // ranges too long to be listed
    auto operand = [&](Node& doc, int i) -> std::pair<ExP, NodeP> {
        NodeP n; ExP e;
        switch (t.weighted({4, 4, 3, 2, 2, 1, 1, 1, 1})) {
        case 0: { int64_t v = t.weighted({5, 2, 1}) == 0 ? t.range(-8, 20) : t.flip() ? t.range(-100000, 100000) : t.oneOf<int64_t>({0, -1, INT32_MAX, 1ll << 53, (1ll << 53) + 1, 32767, 32768, 65535, 65536, -32768, -32769, INT64_MAX, INT64_MIN, INT64_MAX - 1}); n = mkInt(v); e = litI(v); break; }
        case 1: { double v = t.chance(1, 3) ? double(t.range(-1000000, 1000000)) / 64 : double(t.range(-12, 20)) / t.oneOf({1, 2, 4}); if (t.chance(1, 10)) v = t.oneOf({-0.0, 0.0, 1e15, -1e15, 4503599627370496.5, 9007199254740992.0, 1e18, -1e18, 1e-7, 123456.789, 4294967296.0, -0.5, 0.1, 1e300, -1e300, 2147483648.5}); n = mkFloat(v); e = litF(v); break; }
        case 2: { auto s = genText(t); if (t.chance(1, 20)) s.insert(t.flip() ? 0 : s.size(), 1, '\0'), s += t.flip() ? "a" : ""; n = mkStr(s); e = litS(s); break; }
        case 3: { bool b = t.flip(); n = mkBool(b); e = litB(b); break; }
        case 4: n = mkNull(); e = lit(); break;
        case 5: n = mkArr(); if (t.flip()) n->kids.emplace_back("", mkInt(1)); break;
        case 6: n = mkObj(); if (t.flip()) n->kids.emplace_back("i", mkInt(1)); break;
        case 7: {
            auto end = [&] { return t.oneOf<int64_t>({0, 1, 65535, 65536, 1ll << 31, (1ll << 31) + 2, 1ll << 32, (1ll << 32) + 3, 1ll << 40, 1ll << 62}) * (t.flip() ? 1 : -1); };
            e = wide ? call("range", {litI(end()), litI(end())}) : call("range", {litI(t.range(-2, 4)), litI(t.range(-2, 8))}); break; }
        default: e = litRe(t.oneOf<const char*>({"a.*", "[0-9]+", "b", ""}));
        }
        if (n && (!e || t.flip())) {
            auto name = "p" + std::to_string(i);
            doc.kids.emplace_back(name, std::move(n));
            return {field(name), nullptr};
        }
        return {e, nullptr};
    };
    NodeP d = mkObj();
    std::vector<ExP> ops;
    auto n = 2 + t.below(3);
    for (size_t i = 0; i < n; ++i) ops.push_back(operand(*d, int(i)).first);
    Case c(t, std::move(d));
    noteDoc(ctx, *c.doc);
    auto leaf = [&] { return clone(t.pick(ops)); };
    auto cnt = 3 + t.below(6);
    for (size_t i = 0; i < cnt; ++i) {
        ExP e;
        std::function<ExP(int)> gen = [&](int depth) -> ExP {
            auto sub = [&] { return depth > 0 && t.chance(1, 4) ? gen(depth - 1) : leaf(); };
            switch (t.weighted({9, 4, 3, 1, 1, 1, 1, 1, 1})) {
            case 0: return bin(t.oneOf<const char*>({"+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "&", "|", "^", "<<", ">>"}), sub(), sub());
            case 1: return mk(K::Cast, {sub()}, t.chance(1, 40) ? t.oneOf<const char*>({"model", "integer", "text", "undef", "str", "re", "strings", "number"}) : t.oneOf<const char*>({"int", "float", "string", "bool", "null"}));
            case 2: return mk(t.oneOf({K::Neg, K::Not, K::BitInv, K::Len, K::Typeof, K::Bool}), {sub()});
            case 3: return mk(K::And, {sub(), sub()});
            case 4: return mk(K::Or, {sub(), sub()});
            case 5: return mk(K::Idx, {sub(), sub()});
            case 6: if (wide) return bin("==", sub(), call("range", {litI(-(1ll << 32)), litI(t.range(0, 1ll << 40))})); return mk(K::Unpack, {mk(K::Or, {leaf(), leaf()})});
            case 7: return bin("+", sub(), litS("x"));
            default: return mk(K::Bool, {sub()});
            }
        };
        e = gen(2);
        auto q = print(*e, {});
        ctx.note("query " + q);
        auto x = sut::expect(*e, *c.doc);
        ctx.evaluation();
        if (x.kind == Expected::NoClaim) { ctx.label("no claim: " + x.why); continue; }
        if (!sut::agree(ctx, x, c.run(q), "query " + quote(q))) continue;
        if (x.kind == Expected::Raises || sut::hasNonNull(x)) ctx.nontrivial(q + c.doc->text());
        if (x.kind == Expected::Values && !x.vals.empty()) ctx.label("result " + x.vals[0].substr(0, x.vals[0].find(':')));
    }
}
// Something which may have seen enough, over something which may not be done: what is left over must not be evaluated.
ExP stopping(Tape& t, Gen& g) {
    std::function<ExP(int)> source = [&](int d) -> ExP {
        auto range = [&] { auto lo = t.range(-1, 3); return call("range", {litI(lo), litI(lo + t.range(-3, 3))}); };
        switch (t.below(d > 0 ? 11 : 8)) {
        case 0: return mk(K::Unpack, {range()});
        case 1: { std::vector<ExP> a; auto n = 1 + t.below(3); for (size_t i = 0; i < n; ++i) a.push_back(t.chance(1, 4) ? g.literal(t.oneOf({'i', 'b', 'n'})) : range()); return mk(K::Unpack, {call("arr", a)}); }
        case 2: return call("keys", {t.flip() ? self() : g.path('o', 0)});
        case 3: return call("split", {g.single('s', 0), litS(t.oneOf<const char*>({",", "a", "t"}))});
        case 4: return t.flip() ? wild() : ExP(any());
        case 5: return g.literal(t.oneOf({'i', 'b', 'n', 's'}));
        case 6: return bin(t.flip() ? "/" : "%", t.flip() ? g.path('i', 0) : ExP(mk(K::Path, {wild(), field(g.fieldName('i'))})), litI(t.chance(1, 3)));
        case 7: return g.path(t.oneOf({'i', 'b', 's', 'o'}), 0);
        case 8: { std::vector<ExP> a; auto n = 2 + t.below(2); for (size_t i = 0; i < n; ++i) a.push_back(source(d - 1)); return call("arr", a); }
        case 9: return call("select", {source(d - 1), litI(t.range(0, 3)), litI(t.range(0, 4))});
        default: return mk(K::Unpack, {source(d - 1)});
        }
    };
    std::vector<ExP> a; auto n = 1 + t.below(3); for (size_t i = 0; i < n; ++i) a.push_back(source(1));
    auto e = call("arr", a);
    if (t.flip()) e = bin(t.oneOf<const char*>({"==", "!=", ">", "<"}), e, litI(t.range(-1, 3)));
    for (auto k = 1 + t.below(2); k--;) switch (t.below(6)) {
    case 0: e = call("any", {e}); break;
    case 1: e = call("each", {e}); break;
    case 2: case 3: e = call("select", {e, litI(t.range(0, 4)), litI(t.range(-1, 5))}); break;
    case 4: e = mk(t.flip() ? K::And : K::Or, {e, source(1)}); break;
    default: e = mk(K::Path, {mk(K::Sub, {t.flip() ? any() : wild(), e}), field(g.fieldName('i'))});
    }
    return e;
}
void quantifiers(Tape& t, Ctx& ctx) {
    area(t, ctx, [&](Cfg& cfg) -> ExP {
        cfg.wild = 4; cfg.noise = 8; cfg.quant = 4; cfg.logic = 4;
        Gen g{t, cfg};
        if (t.chance(1, 8)) return stopping(t, g);
        auto tested = [&](int d) -> ExP {
            switch (t.below(5)) {
            case 0: { std::vector<ExP> a; auto n = t.below(5); for (size_t i = 0; i < n; ++i) a.push_back(g.literal(t.oneOf({'i', 'b', 's', 'n', 'f'}))); return call("arr", a); }
            case 1: return g.boolean(d); case 2: return g.multi(d);
            case 3: { auto p = t.flip() ? wild() : ExP(any()); return bin(t.oneOf<const char*>({"==", ">", "<", "!="}), mk(K::Path, {p, field(g.fieldName('i'))}), g.literal('i')); }
            default: return g.anyv(d);
            }
        };
        std::vector<ExP> a;
        auto n = 1 + t.below(3);
        for (size_t i = 0; i < n; ++i) a.push_back(tested(2));
        ExP e;
        switch (t.below(5)) {
        case 0: if (t.chance(1, 20)) return call(t.oneOf<const char*>({"any", "each", "all", "count"}), {}); e = call("any", a); break;
        case 1: e = call("each", a); break;
        case 2: e = call("all", a); break;
        case 3: e = call("count", a); break;
        default: e = mk(t.flip() ? K::And : K::Or, {tested(2), tested(2)});
        }
        switch (t.below(4)) {
        case 0: return mk(t.flip() ? K::And : K::Or, {e, tested(1)});
        case 1: return mk(K::Path, {mk(K::Sub, {t.flip() ? any() : wild(), e}), field(g.fieldName('i'))});
        default: return e;
        }
    }, {"decided", "counted", "short"}, false);
}
void sequences(Tape& t, Ctx& ctx) {
    if (t.chance(1, 900)) return longSequence(t, ctx);
    area(t, ctx, [&](Cfg& cfg) -> ExP {
        cfg.wild = 4; cfg.noise = 6; cfg.arr = 5; cfg.select = 4; cfg.split = 3; cfg.keys = 3; cfg.range = 4; cfg.sum = 4;
        Gen g{t, cfg};
        if (t.chance(1, 16)) return stopping(t, g);
        // Arguments of the wrong number or kind, and what contains them.
        auto wrong = [&]() -> ExP {
            std::vector<ExP> a;
            auto n = t.below(5);
            for (size_t i = 0; i < n; ++i) a.push_back(t.flip() ? g.literal(t.oneOf({'i', 's', 'b', 'n', 'f'})) : t.flip() ? g.path(t.oneOf({'i', 's', 'b', 'a', 'o', 'u'}), 0) : t.flip() ? wild() : ExP(call("range", {litI(0), litI(2)})));
            std::string f = t.oneOf<const char*>({"range", "arr", "split", "select", "sum", "keys", "count", "any", "each", "re"});
            if (f[0] == 's' && f != "sum" && n > 3) a.resize(3);   // more than they take: not specified
            return call(f, a);
        };
        if (t.chance(1, 16)) { auto e = wrong(); return t.flip() ? e : t.flip() ? ExP(call("arr", {g.literal('i'), e})) : t.flip() ? ExP(call("select", {e, litI(t.range(0, 2))})) : ExP(mk(t.flip() ? K::And : K::Or, {g.literal('b'), e})); }
        std::function<ExP(int)> seq = [&](int d) -> ExP {
            auto in = [&] { return d > 0 && t.chance(1, 2) ? seq(d - 1) : g.multi(d); };
            switch (t.below(8)) {
            case 0: { std::vector<ExP> a; auto n = t.below(4); for (size_t i = 0; i < n; ++i) a.push_back(t.flip() ? in() : g.anyv(1)); return call("arr", a); }
            case 1: { auto r = call("range", {g.single('i', d), g.single('i', d)}); return t.chance(1, 4) ? r : t.chance(1, 3) ? bin(t.flip() ? "==" : "!=", g.num(1), r) : ExP(mk(K::Unpack, {r})); }
            case 2: { std::vector<ExP> a{g.single('s', d), t.chance(4, 5) ? ExP(litS(t.oneOf<const char*>({",", "a", "X", "-", " ", "", "ab", ",,"}))) : g.single('s', d)}; if (t.flip()) a.push_back(g.single('b', 0)); return call("split", a); }
            case 3: case 4: { std::vector<ExP> a{in(), litI(t.range(0, 5))}; if (t.flip()) a.push_back(litI(t.range(-1, 4))); if (t.chance(1, 12)) a[1] = litI(t.range(-3, -1));
                if (t.chance(1, 12)) a.back() = litI(t.oneOf<int64_t>({INT64_MAX, INT64_MAX - 1, INT64_MAX - 3, 1ll << 31, (1ll << 31) - 1, 1ll << 32, (1ll << 32) + 1, 1ll << 62, -INT64_MAX, -(1ll << 32), -(1ll << 31)}));
                return call("select", a); }
            case 5: {
                std::vector<ExP> a{in()};
                auto n = t.below(3);
                if (n) {
                    auto old = g.inSum; g.inSum = true;
                    auto step = [&] { return ExP(t.flip() ? bin(t.oneOf<const char*>({"+", "*", "-"}), field("$sum"), t.flip() ? ExP(field("$val")) : t.flip() ? ExP(field("$idx")) : ExP(mk(K::Path, {field("$val"), field(g.fieldName('i'))}))) : g.anyv(1)); };
                    // Several values per input: each step sees the sum of the one before.
                    if (t.chance(1, 4)) { std::vector<ExP> steps{step(), step()}; if (t.flip()) steps.push_back(step()); a.push_back(call("arr", steps)); }
                    else a.push_back(step());
                    g.inSum = old;
                }
                if (n > 1) a.push_back(t.flip() ? g.literal(t.flip() ? 'i' : 's') : g.anyv(1));
                return call("sum", a);
            }
            case 6: return call("keys", {t.chance(1, 3) ? ExP(self()) : t.flip() ? g.path('o', 1) : ExP(mk(K::Sub, {wild(), bin("==", mk(K::Typeof, {self()}), litS("model"))}))});
            default: return call("count", {in()});
            }
        };
        return seq(2);
    }, {"range", "unpack", "split", "select", "sum", "keys", "counted"});
}
void regexes(Tape& t, Ctx& ctx) {
    area(t, ctx, [&](Cfg& cfg) -> ExP {
        cfg.re = 10; cfg.noise = 6;
        Gen g{t, cfg};
        auto s = genText(t);
        if (t.chance(1, 12)) s.insert(t.flip() ? 0 : s.size(), 1, t.oneOf({'\n', '\0'})), s += t.oneOf<const char*>({"", "a", "ab,"});
        ExP subj = t.chance(1, 3) ? ExP(litS(s)) : t.flip() ? g.str(1) : t.flip() ? ExP(mk(K::Path, {wild(), field(g.fieldName('s'))})) : g.multi(1);
        auto pat = genRegexFor(t, s);
        if (t.chance(1, 12)) pat = t.oneOf<const char*>({"^", "^(", "\\b", "(?=a)", ""}) + pat + t.oneOf<const char*>({"$", "$", "\\b", "$.*", "$\\s*"}), pat += pat.substr(0, 2) == "^(" ? ")" : "";
        bool simple = pat.find('\'') == std::string::npos && pat.find('\n') == std::string::npos;
        if (t.chance(1, 20)) pat = t.oneOf<const char*>({"(", "[a", "*", "a{2", "\\", ")"}), simple = false;
        ExP re = simple && t.flip() ? litRe(pat) : call("re", {litS(pat)});
        if (t.chance(1, 10)) re = call("re", {re});
        if (simple && t.chance(1, 12)) { // almost the same expressions next to each other
            std::vector<ExP> a;
            for (auto tail : {"", "x", "x?", ".", ".?", "+", "*"}) if (t.flip() && (strchr("+*", tail[0]) == nullptr || (!pat.empty() && (isalnum((unsigned char)pat.back()) || strchr("]).", pat.back()))))) a.push_back(bin(t.chance(3, 4) ? "==" : "!=", clone(subj), t.flip() ? ExP(call("re", {litS(pat + tail)})) : ExP(litRe(pat + tail))));
            if (a.size() > 1) return call("arr", a);
        }
        auto op = t.chance(2, 3) ? "==" : t.chance(5, 6) ? "!=" : t.oneOf<const char*>({"<", "+", "*"});
        ExP e = t.chance(1, 4) ? bin(op, re, subj) : bin(op, subj, re);
        switch (t.below(6)) {
        case 0: return call(t.oneOf<const char*>({"any", "all", "count"}), {e});
        case 1: return mk(K::Path, {mk(K::Sub, {wild(), bin(op, field(g.fieldName('s')), re)}), field(g.fieldName('s'))});
        case 2: return mk(t.oneOf({K::Not, K::Bool, K::Typeof}), {t.flip() ? e : re});
        case 3: return call("count", {bin(op, mk(K::Path, {wild(), field(g.fieldName('s'))}), re)});
        default: return e;
        }
    }, {}, false);
}

// ---------------------------------------------------------------------- C16
// Wraps some sub-expressions into a trace().
struct Traces {
    std::vector<int64_t> limits;
    std::vector<std::string> names;                // explicit ones
    std::map<std::string, int64_t> limitOf;
    std::shared_ptr<simfil::StringPool> pool;      // what is constant may depend on the known names
};
ExP trace(Tape& t, ExP c, int64_t limit, const std::string& name, Traces& tr) {
    auto e = call("trace", {c, litI(limit), litS(name)});
    auto free = [&](const std::string& n) { auto [it, fresh] = tr.limitOf.try_emplace(n, limit); return it->second == limit; };
    if (t.chance(1, 5)) {
        // Without a name it has that of the expression, as it is after compilation.
        try {
            simfil::Environment env(tr.pool);
            auto n = simfil::compile(env, print(*c, {}), false)->toString();
            if (free(n)) { auto x = std::make_shared<Ex>(*e); x->a[2] = litS(n); x->omit = limit == -1 && t.flip() ? 2 : 1; return x; }
        } catch (const std::exception&) {}
    }
    if (!free(name)) { auto x = std::make_shared<Ex>(*e); x->a[2] = litS(name + "'"); tr.limitOf[name + "'"] = limit; return x; }
    return e;
}
ExP traced(Tape& t, const ExP& e, Traces& tr) {
    auto& limits = tr.limits;
    auto c = std::make_shared<Ex>(*e);
    for (auto& a : c->a) a = traced(t, a, tr);
    bool word = e->k == K::Field && isSymbol(e->s);   // inside of a call it would be a string
    if (!word && limits.size() < 4 && t.chance(1, 4)) {
        size_t id = limits.size();
        // Two sites may share a name (and then the limit).
        if (id && t.chance(1, 6)) id = t.below(id);
        else limits.push_back(t.flip() ? -1 : t.chance(1, 4) ? t.range(5, 40) : t.range(0, 4));
        return trace(t, c, limits[id], tr.names[id], tr);
    }
    return c;
}
void tracing(Tape& t, Ctx& ctx) {
    Cfg cfg; cfg.noise = 5; cfg.wild = 4; cfg.select = 3; cfg.quant = 3; cfg.keys = 2;
    Gen g{t, cfg};
    auto e = t.chance(1, 8) ? stopping(t, g) : genFor(t, g, int(t.range(1, 3)));
    if (t.chance(1, 16)) e = call("arr", {call("keys", {g.path(t.oneOf({'i', 's', 'o'}), 0)}), e}); // maybe no value at all
    else if (t.chance(1, 16)) e = call("arr", {e, mk(K::Unpack, {call("range", {litI(t.range(0, 9)), litI(t.range(0, 60))})}), g.path('s', 1)});
    Case c(t, docFor(t));
    noteDoc(ctx, *c.doc);
    Traces all; all.pool = c.env->strings();
    all.names = t.flip() ? std::vector<std::string>{"t0", "t1", "t2", "t3"} : std::vector<std::string>{"t", "T", "", "a name \"in\" 'quotes'"};
    for (size_t i = 3; i > 0; --i) std::swap(all.names[i], all.names[t.below(i + 1)]);
    if (t.chance(1, 16)) all.names[0] = std::string(size_t(t.range(16, 300)), 'n');
    auto te = traced(t, e, all);
    if (all.limits.empty()) te = trace(t, te, -1, all.names[0], all);
    auto q = print(*e, {}), qt = print(*te, {});
    ctx.note("query  " + q); ctx.note("traced " + qt);
    auto x = sut::expect(*te, *c.doc), xp = sut::expect(*e, *c.doc);
    ctx.evaluation(2);
    if (x.kind == Expected::NoClaim || xp.kind == Expected::NoClaim) { ctx.label("no claim"); return; }
    // With hooks installed as a debugger would do, every begin meets its end, and nothing changes.
    int64_t open = 0, begun = 0, ended = 0;
    simfil::Debug dbg;
    std::vector<const simfil::Expr*> stack;
    bool started = false;
    dbg.evalBegin = [&](const simfil::Expr& ex, simfil::Context& cx, simfil::Value& v, const simfil::ResultFn&) {
        ++open; ++begun; stack.push_back(&ex);
        if (cx.env != c.env.get()) fail("evalBegin gets another environment");
        if (cx.phase == simfil::Context::Evaluation && !started) {
            started = true;
            if (stack.size() != 1) fail("the evaluation begins inside of another one");
            if (!v.node || v.node->addr().value_ != c.m.root->addr().value_) fail("evalBegin of the query does not get the root");
        }
    };
    dbg.evalEnd = [&](const simfil::Expr& ex) {
        --open; ++ended; if (open < 0) fail("evalEnd without evalBegin");
        // Expressions that raised have no end.
        if (stack.back() != &ex && !started) while (!stack.empty() && stack.back() != &ex) stack.pop_back(), --open;
        if (stack.empty() || stack.back() != &ex) fail("evalEnd of another expression than the one that began last");
        stack.pop_back();
    };
    using Clock = std::chrono::steady_clock;
    bool hooks = t.flip();
    auto plain = c.run(q);
    if (hooks) c.env->debug = &dbg;
    auto clock0 = Clock::now();
    auto o = c.run(qt);
    auto elapsed = Clock::now() - clock0;
    c.env->debug = nullptr;
    if (!sut::agree(ctx, x, o, "traced query " + quote(qt))) return;
    if (x.kind == Expected::Raises) return;
    if (!plain.raised() && plain.vals != o.vals) fail("tracing changed the result: " + plain.str() + " became " + o.str());
    if (hooks) { if (open != 0) fail("unbalanced debug hooks"); if (begun == 0 && o.ast.find(' ') != std::string::npos) fail("debug hooks were not called"); ctx.label("debug hooks"); }
    // The recorded values are the ones that passed.
    std::set<std::string> names;
    for (auto& [name, tr] : x.traces) names.insert(name);
    for (auto& [name, tr] : c.env->traces) if (!names.count(name)) { std::string have; for (auto& n : names) have += " " + quote(n); fail("unexpected trace " + quote(name) + ", expected are" + have); }
    size_t values = 0;
    for (auto& [name, tr] : x.traces) {
        auto it = c.env->traces.find(name);
        if (it == c.env->traces.end()) fail("trace " + name + " is missing");
        std::vector<std::string> got;
        for (auto& v : it->second.values) got.push_back(sut::render(v));
        if (it->second.calls != tr.calls) fail("trace " + name + " counts " + std::to_string(it->second.calls) + " calls, expected " + std::to_string(tr.calls));
        if (got != tr.values) fail("trace " + name + " recorded " + sut::join(got) + ", expected " + sut::join(tr.values));
        values += got.size();
        auto us = it->second.totalus;
        if (us.count() < 0 || us > elapsed * double(std::max<uint64_t>(tr.calls, 1)) || (!tr.calls && us.count())) fail("trace " + name + " took " + std::to_string(us.count()) + " us");
    }
    if (values) { ctx.nontrivial(qt + c.doc->text()); ctx.label("values recorded"); }
    // Running again adds up.
    auto calls = c.env->traces.empty() ? 0 : c.env->traces.begin()->second.calls;
    std::map<std::string, std::chrono::microseconds> spent;
    for (auto& [name, tr] : c.env->traces) spent[name] = tr.totalus;
    c.run(qt);
    for (auto& [name, us] : spent) if (c.env->traces[name].totalus < us) fail("second run: times do not add up");
    if (calls && c.env->traces.begin()->second.calls != 2 * calls) fail("second run: calls do not add up");
    // What was recorded stays, without the model.
    std::map<std::string, std::vector<std::string>> recorded;
    bool nodes = false;
    for (auto& [name, tr] : c.env->traces) for (auto& v : tr.values) { recorded[name].push_back(sut::render(v)); nodes = nodes || v.node; }
    c.m.root = {}; c.m.pool.reset();
    for (auto& [name, vals] : recorded) {
        std::vector<std::string> now;
        for (auto& v : c.env->traces[name].values) now.push_back(sut::render(v));
        if (now != vals) fail("without the model, trace " + name + " has " + sut::join(now) + ", before " + sut::join(vals));
    }
    if (!recorded.empty()) ctx.label(nodes ? "outlived, with nodes" : "outlived");
}

// ---------------------------------------------------------------------- C18
void purity(Tape& t, Ctx& ctx) {
    Cfg cfg; cfg.noise = 6; cfg.wild = 4; cfg.sum = 3; cfg.range = 2; cfg.split = 2;
    bool json = t.flip();
    Case c(t, docFor(t, !json && t.chance(1, 5)), json);
    noteDoc(ctx, *c.doc);
    auto dump = [](auto&& j) { return j.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace); };
    auto before = dump(c.m.pool->toJson());
    std::vector<std::pair<std::string, std::string>> done; // query, result
    std::vector<std::vector<simfil::Value>> kept;
    std::vector<std::vector<std::string>> keptStr;
    auto n = 1 + t.below(4);
    std::vector<ExP> es;
    for (size_t i = 0; i < n; ++i) {
        Gen g{t, cfg};
        auto e = genFor(t, g, int(t.range(1, 3)));
        auto x = sut::expect(*e, *c.doc);
        if (x.kind == Expected::NoClaim) continue;
        PrintOpt po; po.noise = &t; po.minimal = true;
        auto q = print(*e, po);
        ctx.note("query " + q);
        ctx.evaluation(3);
        simfil::ExprPtr ast;
        try { ast = simfil::compile(*c.env, q, false); }
        catch (const std::exception&) { sut::agree(ctx, x, c.run(q), "query " + quote(q)); continue; }
        std::string r[3]; std::vector<simfil::Value> vals;
        auto str = ast->toString();
        for (auto& s : r) {
            try {
                auto vs = simfil::eval(*c.env, *ast, *c.m.root);
                std::vector<std::string> out;
                for (auto& v : vs) out.push_back(sut::render(v));
                s = sut::join(out);
                vals = std::move(vs);
            } catch (const std::exception& er) { s = std::string("error ") + er.what(); }
        }
        if (r[0] != r[1] || r[1] != r[2]) fail("re-evaluating " + quote(q) + " gives " + r[0] + " then " + r[1] + " then " + r[2]);
        if (ast->toString() != str) fail("evaluation changed the expression");
        // Another compilation of the same text is the same query.
        auto again = simfil::compile(*c.env, q, false);
        if (again->toString() != str) fail("second compilation differs: " + again->toString());
        ast.reset();                                    // results outlive the expression
        std::vector<std::string> rs;
        for (auto& v : vals) rs.push_back(sut::render(v));
        if (x.kind == Expected::Values && !x.mayRaise && rs != x.vals) fail("after the expression is gone: " + sut::join(rs) + ", expected " + sut::join(x.vals));
        if (x.kind == Expected::Values && !vals.empty()) { kept.push_back(std::move(vals)); keptStr.push_back(rs); }
        done.emplace_back(q, r[0]);
        if (sut::hasNonNull(x)) ctx.nontrivial(q + c.doc->text());
    }
    if (dump(c.m.pool->toJson()) != before) fail("evaluation changed the model");
    if (!c.m.pool->checkForErrors().empty()) fail("evaluation damaged the model");
    // A fresh environment over the same model gives the same answers, in any order.
    {
        simfil::Environment env2(c.m.pool->strings());
        for (size_t i = done.size(); i-- > 0;) {
            auto o = sut::query(env2, done[i].first, *c.m.root);
            if (!o.raised() && o.str() != done[i].second) fail("a fresh environment gives " + o.str() + " for " + quote(done[i].first) + ", before it was " + done[i].second);
        }
        ctx.label("fresh environment");
    }
    // Equal model, other pool.
    {
        auto m2 = sut::build(*c.doc, &t);
        simfil::Environment env2(m2.pool->strings());
        for (auto& [q, r] : done) {
            auto o = sut::query(env2, q, *m2.root);
            if (!o.raised() && o.str() != r) fail("an equal model gives " + o.str() + " for " + quote(q) + ", before it was " + r);
        }
    }
    // Results keep what they need alive.
    auto strings = c.m.pool->strings();
    c.env.reset(); c.m.root = {}; c.m.pool.reset();
    for (size_t i = 0; i < kept.size(); ++i) {
        std::vector<std::string> rs;
        for (auto& v : kept[i]) rs.push_back(sut::render(v));
        if (rs != keptStr[i]) fail("after the model handle is gone: " + sut::join(rs) + ", before " + sut::join(keptStr[i]));
        ctx.label("outlived");
    }
}

PROPERTY({"C08", "Random operator trees over fields, wildcards, subscripts, filters, casts and calls, printed with all parentheses, with only those the documented precedence table asks for, and with random extra ones and spaces; the parsed tree (Expr::toString) and the results must match. Non-trivial: the minimal form saves parentheses.", 128000, 1280000, precedence});
PROPERTY({"C09", "Random literal-heavy expressions evaluated as written and with every literal hidden behind select(arr(_, literal), 1), so that nothing can be folded; plus the any() wrapping and the reference. Non-trivial: the compiler folded something.", 128000, 1280000, folding});
PROPERTY({"C10", "Token soup, mutated valid queries, random bytes and deep nesting, compiled in all four modes and evaluated twice, under ASan. Non-trivial: accepted by the compiler.", 64000, 640000, robustness});
PROPERTY({"C11", "Queries in random letter case over documents in random letter case, symbol words, user constants, any-wrapping and auto-wildcard. Non-trivial: non-null result and changed letter case (or the word/constant took effect).", 160000, 1600000, letterCase});
PROPERTY({"C12", "Random paths, wildcards, subscripts and sub-queries over random documents, against the reference evaluator. Non-trivial: a path feature took effect and some result is not null.", 112000, 1120000, paths});
PROPERTY({"C13", "Operators and casts over explicit operands of every type (literal or field), including boundary integers, against the reference. Non-trivial: a non-null result, or an error that is due.", 112000, 1120000, scalars});
PROPERTY({"C14", "any/each/all/count and and/or over random sequences, against the reference. Non-trivial: a quantifier decided, counted or an operator short-circuited.", 112000, 1120000, quantifiers});
PROPERTY({"C15", "range/unpack, arr, split, select, sum, keys, nested in each other, against the reference. Non-trivial: one of them took effect with a non-null result.", 112000, 1120000, sequences});
PROPERTY({"C16", "Random queries with named trace() calls around random sub-expressions, with and without debug hooks: same results, and the recorded calls and values are those of the reference. Non-trivial: values were recorded.", 128000, 1280000, tracing});
PROPERTY({"C17", "Regular expression literals and re() against strings and other values, in comparisons, filters and quantifiers; std::regex full match is the reference. Non-trivial: every compared query.", 64000, 640000, regexes});
PROPERTY({"C18", "Random queries evaluated repeatedly, in a fresh environment, in another order and over an equal model; results rendered after the expression, the environment and the model handle are gone (ASan). Non-trivial: non-null result.", 64000, 640000, purity});
} // namespace

