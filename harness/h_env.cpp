// What an environment collects beside the results: warnings (C35).
#include "sut.h"
#include "simfil/environment.h"
#include <algorithm>

using namespace pbt;
using namespace ref;
using sut::Expected;

namespace {

enum Kind { No, AllNull, AllTrue, AllFalse };
const char* kindWord(Kind k) { return k == AllNull ? "null" : k == AllTrue ? "true" : "false"; }

Kind kindOf(const std::vector<std::string>& vals) {
    if (vals.empty()) return No;
    for (auto& v : vals) if (v != vals[0]) return No;
    if (vals[0] == "null:null") return AllNull;
    if (vals[0] == "bool:true") return AllTrue;
    if (vals[0] == "bool:false") return AllFalse;
    return No;
}
// The values of `e` in some context; nothing if it fails there.
std::optional<Kind> kindIn(const Ex& e, const Val& cur, bool& unknown) {
    ref::Env env; env.budget = 4000;
    std::vector<std::string> out;
    try { for (auto& v : evalOn(e, cur, env)) out.push_back(render(v)); }
    catch (const Error&) { unknown = true; return {}; }
    catch (const OutOfDomain&) { unknown = true; return {}; }
    return kindOf(out);
}
// What is not matched by a filter, a subscript or a path is not known to the compiler.
bool dependsOnInput(const Ex& e) {
    switch (e.k) {
    case K::Path: case K::Sub: case K::Idx:
    case K::Field: case K::Self: case K::Any: case K::Wild: case K::SubPre: case K::IdxPre: return true;
    case K::Call: if (lower(e.s) == "trace" || lower(e.s) == "sum") return true; break;
    default: break;
    }
    for (auto& c : e.a) if (dependsOnInput(*c)) return true;
    return false;
}
bool uses(const Ex& e, const char* fn) {
    if (e.k == K::Call && lower(e.s) == fn) return true;
    for (auto& c : e.a) if (uses(*c, fn)) return true;
    return false;
}
bool plain(const Ex& e) { return e.k == K::Lit || e.k == K::Field || e.k == K::Self || e.k == K::Any || e.k == K::Wild; }
bool castNull(const Ex& e) { return e.k == K::Cast && lower(e.s) == "null"; }

// "... always true" -> AllTrue; the wording up to that is simfil's.
Kind always(const std::pair<std::string, std::string>& w) {
    auto ends = [&](const char* s) { std::string_view m = w.first, x = s; return m.size() >= x.size() && m.substr(m.size() - x.size()) == x; };
    if (w.first.find("alway") == std::string::npos) return No;
    return ends(" null") ? AllNull : ends(" true") ? AllTrue : ends(" false") ? AllFalse : No;
}

void warnings(Tape& t, Ctx& ctx) {
    auto doc = genDoc(t, int(t.range(1, 3)));
    auto other = genDoc(t, 2);
    ctx.note("document " + doc->text());
    std::unique_ptr<simfil::Environment> env;
    sut::Model m;
    if (t.flip()) {
        env = std::make_unique<simfil::Environment>(simfil::Environment::WithNewStringCache);
        m = sut::build(*doc, env->strings(), &t);
        if (m.pool->strings() != env->strings()) fail("the model does not use the strings of the environment");
    } else {
        m = sut::build(*doc, &t);
        env = std::make_unique<simfil::Environment>(m.pool->strings());
    }
    if (!env->warnings.empty()) fail("a new environment has warnings");
    auto before = env->warnings;
    auto added = [&](const std::string& what) {
        auto& w = env->warnings;
        if (w.size() < before.size() || !std::equal(before.begin(), before.end(), w.begin())) fail(what + ": earlier warnings changed");
        std::vector<std::pair<std::string, std::string>> r(w.begin() + before.size(), w.end());
        before = w;
        return r;
    };
    auto n = 1 + t.below(3);
    for (size_t i = 0; i < n; ++i) {
        if (t.chance(1, 4)) {       // the program may add its own ones
            auto a = genText(t), b = genText(t);
            env->warn(a, b);
            auto w = added("warn()");
            if (w.size() != 1 || w[0] != std::pair(a, b)) fail("warn() did not add the warning");
        }
        Cfg c; c.noise = unsigned(t.below(12)); c.idx = 8; c.sub = 4; c.logic = 5; c.cmp = 5; c.quant = 4; c.sum = unsigned(t.below(2));
        Gen g{t, c};
        int d = int(t.range(1, 3));
        ExP e;
        switch (t.weighted({3, 2, 2, 3, 3})) {
        case 0: e = g.boolean(d); break;
        case 1: e = g.anyv(d); break;
        case 2: e = g.multi(d); break;
        case 3: e = g.path("ifsbo"[t.below(5)], d); if (t.flip()) e = mk(K::Idx, {e, g.single("is"[t.below(2)], 1)}); break;
        default: {  // of constants
            std::vector<ExP> a; for (size_t k = 0, m = 1 + t.below(3); k < m; ++k) a.push_back(t.flip() ? litB(t.flip()) : t.chance(1, 3) ? lit() : g.literal("ifsb"[t.below(4)]));
            auto arr = a.size() == 1 ? a[0] : call("arr", a);
            switch (t.below(6)) {
            case 0: e = arr; break;
            case 1: e = bin(t.oneOf<const char*>({"==", "!=", "+", "<"}), arr, g.literal("ifsb"[t.below(4)])); break;
            case 2: e = mk(t.flip() ? K::And : K::Or, {arr, litB(t.flip())}); break;
            case 3: e = call(t.oneOf<const char*>({"any", "each", "count"}), {arr}); break;
            case 4: e = mk(t.flip() ? K::Not : K::Bool, {arr}); break;
            default: e = mk(K::Idx, {arr, litI(t.range(0, 1))});
            }
        }}
        bool any = t.chance(1, 4);
        PrintOpt po; po.minimal = t.flip(); po.noise = &t;
        auto q = print(*e, po);
        ctx.note("query " + q + (any ? " (any)" : ""));
        ctx.evaluation();
        if (any) e = call("any", {e});
        auto x = sut::expect(*e, *doc);
        if (x.kind == Expected::NoClaim) continue;      // may be too large
        simfil::ExprPtr ast;
        try { ast = simfil::compile(*env, q, any); }
        catch (const std::exception&) { added("compile"); ctx.label("rejected"); continue; }
        auto ws = added("compile");
        Kind last = No;
        for (auto& w : ws) {
            auto k = always(w);
            if (k == No) {
                if (uses(*e, "sum")) continue;      // may look into the values it builds
                fail("compiling " + quote(q) + " warns " + quote(w.first) + " " + quote(w.second));
            }
            last = k;
            if (w.second.empty()) fail("compiling " + quote(q) + " warns " + quote(w.first) + " of nothing");
            // Some part has only this value, whatever the input.
            bool possible = false;
            std::function<void(const Ex&)> scan = [&](const Ex& s) {
                if (possible) return;
                if (!plain(s) && !castNull(s)) {
                    bool unknown = false, refuted = false;
                    for (auto& cur : {Val{}, fromNode(*doc), fromNode(*other)}) { auto r = kindIn(s, cur, unknown); if (r && *r != k) refuted = true; }
                    if (!refuted) possible = true;
                }
                for (auto& a : s.a) scan(*a);
            };
            scan(*e);
            if (!possible) fail("compiling " + quote(q) + " warns " + quote(w.first) + " of " + quote(w.second) + ", but no part of the query is always " + kindWord(k));
            ctx.label(std::string("warned: always ") + kindWord(k));
            ctx.nontrivial(q);
        }
        if (!plain(*e) && !castNull(*e) && !dependsOnInput(*e)) {
            bool unknown = false;
            auto k = kindIn(*e, Val{}, unknown);
            if (k && *k != No) {
                if (last != *k) fail("compiling " + quote(q) + " does not warn that it is always " + kindWord(*k));
                ctx.label("constant query");
            }
        }
        // Evaluation warns of every subscript that addresses nothing.
        bool raised = false;
        try { (void)simfil::eval(*env, *ast, *m.root); } catch (const std::exception&) { raised = true; }
        ws = added("evaluation");
        if (raised || x.kind != Expected::Values || uses(*e, "sum")) continue;
        ref::Env re;
        try { ref::eval(*e, *doc, re); } catch (const Error&) { continue; } catch (const OutOfDomain&) { continue; }
        std::string want, got;
        for (auto& s : re.misses) want += (s == "irange" || s == "re" ? "transient" : s) + " ";
        for (auto& w : ws) {
            if (w.first.find("subscript") == std::string::npos || w.second.empty()) fail("evaluating " + quote(q) + " warns " + quote(w.first) + " of " + quote(w.second));
            got += w.first.substr(w.first.rfind(' ') + 1) + " ";
        }
        if (want != got) fail("evaluating " + quote(q) + " warns of these subscripts: " + got + ", expected: " + want);
        if (!ws.empty()) { ctx.label("warned: subscript"); ctx.nontrivial(q + doc->text()); }
        else ctx.label("evaluated without warning");
    }
}

PROPERTY({"C35", "Random queries compiled and evaluated in one environment, with warnings of the program's own in between. Non-trivial: a warning was issued and judged.", 60000, 600000, warnings});
} // namespace
