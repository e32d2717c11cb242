// C19: evaluation in many threads, under ThreadSanitizer.
#include "threads.h"
#include "sut.h"
#include "simfil/environment.h"
#include <locale>
using namespace pbt;
using namespace ref;

namespace {
ExP genFor(Tape& t, Gen& g, int d) {
    switch (t.weighted({3, 2, 3, 1, 3})) {
    case 0: return g.num(d); case 1: return g.str(d); case 2: return g.boolean(d); case 3: return g.model(d); default: return g.multi(d);
    }
}
// Wraps some sub-expressions into trace(); names are used once, or by all with no limit.
struct Tracer {
    Tape& t; std::map<std::string, int64_t> limits; size_t room = 6;
    ExP wrap(const ExP& e) {
        auto c = std::make_shared<Ex>(*e);
        for (auto& a : c->a) a = wrap(a);
        if (e->k == K::Field || !room || !t.chance(1, 4)) return c;
        --room;
        std::string name = "shared"; int64_t lim = -1;
        if (t.chance(2, 3)) { name = "t" + std::to_string(limits.size()); lim = t.flip() ? -1 : t.range(0, 6); }
        limits[name] = lim;
        return call("trace", {c, litI(lim), litS(name)});
    }
};
struct World {
    std::shared_ptr<simfil::StringPool> strings = std::make_shared<simfil::StringPool>();
    std::vector<sut::Model> models;
    std::unique_ptr<simfil::Environment> env;
    std::vector<simfil::ExprPtr> exprs;
};
std::string evalOne(simfil::Environment& env, const simfil::Expr& e, const simfil::ModelNode& root) {
    try {
        auto vs = simfil::eval(env, e, root);
        std::vector<std::string> out;
        for (auto& v : vs) out.push_back(sut::render(v));
        return sut::join(out);
    } catch (const std::exception& er) { return std::string("error ") + er.what(); }
}
void warmLocale() {
    // libstdc++ fills this table of the global locale lazily and without synchronization.
    static bool done = [] { auto& f = std::use_facet<std::ctype<char>>(std::locale()); for (int i = 0; i < 256; ++i) { (void)f.narrow(char(i), 0); (void)f.widen(char(i)); } return true; }();
    (void)done;
}
void concurrent(Tape& t, Ctx& ctx) {
    warmLocale();
    Cfg cfg; cfg.noise = 6; cfg.wild = 4; cfg.sum = 3; cfg.range = 2; cfg.split = 2; cfg.re = 2; cfg.quant = 3;
    size_t nm = 1 + t.below(3), ne = 1 + t.weighted({4, 3, 2, 1});
    std::vector<NodeP> docs;
    for (size_t i = 0; i < nm; ++i) { docs.push_back(genDoc(t, int(t.range(1, 3)))); ctx.note("document " + docs.back()->text()); }
    Tracer tr{t};
    std::vector<std::string> qs; std::vector<bool> any, autoWild;
    for (size_t i = 0; i < ne; ++i) {
        Gen g{t, cfg};
        auto e = genFor(t, g, int(t.range(1, 3)));
        // Queries of unbounded cost are not interesting here.
        bool claim = true;
        for (auto& d : docs) if (sut::expect(*e, *d).kind == sut::Expected::NoClaim) claim = false;
        if (!claim) { e = field(g.fieldName('m')); ctx.label("replaced: no claim"); }
        if (t.flip()) e = tr.wrap(e);
        if (t.chance(1, 10)) e = mk(K::Path, {field("a"), mk(K::IdxPre, {litB(true)})});
        PrintOpt po; po.minimal = t.flip(); po.noise = &t;
        qs.push_back(print(*e, po)); any.push_back(t.chance(1, 4)); autoWild.push_back(t.chance(1, 6));
        ctx.note("query " + qs.back() + (any.back() ? " (any)" : "") + (autoWild.back() ? " (auto wildcard)" : ""));
    }
    const bool json = t.chance(1, 3);
    auto world = [&] {
        World w;
        for (auto& d : docs) {
            sut::Model m;
            if (json) {
                m.pool = std::make_shared<simfil::ModelPool>(w.strings);
                simfil::json::parse(d->text(), m.pool);
                m.root = m.pool->root(0);
            } else m = sut::build(*d, w.strings);
            w.models.push_back(std::move(m));
        }
        w.env = std::make_unique<simfil::Environment>(w.strings);
        return w;
    };
    World one = world(), many = world();
    std::vector<bool> ok;
    for (size_t i = 0; i < qs.size(); ++i) {
        simfil::ExprPtr a, b;
        try { a = simfil::compile(*one.env, qs[i], any[i], autoWild[i]); b = simfil::compile(*many.env, qs[i], any[i], autoWild[i]); }
        catch (const std::exception&) { ctx.label("does not compile"); continue; }
        one.exprs.push_back(std::move(a)); many.exprs.push_back(std::move(b));
    }
    one.env->traces.clear(); many.env->traces.clear();
    if (many.exprs.empty()) return;
    ne = many.exprs.size();
    // One after the other.
    struct Single { std::string r; std::map<std::string, std::pair<size_t, std::vector<std::string>>> tr; };
    std::vector<std::vector<Single>> single(ne);
    bool results = false;
    for (size_t e = 0; e < ne; ++e) for (size_t m = 0; m < nm; ++m) {
        Single s;
        s.r = evalOne(*one.env, *one.exprs[e], *one.models[m].root);
        for (auto& [n, x] : one.env->traces) { auto& y = s.tr[n]; y.first = x.calls; for (auto& v : x.values) y.second.push_back(sut::render(v)); }
        one.env->traces.clear();
        if (s.r.find(':') != std::string::npos) results = true;
        single[e].push_back(std::move(s));
    }
    unsigned nt = unsigned(2 + t.below(ctx.thorough ? 7 : 4));
    std::vector<std::vector<std::array<uint8_t, 3>>> prog(nt);
    auto rounds = 1 + t.below(t.chance(1, 5) ? 40 : 8);
    bool same = t.flip();
    for (auto& p : prog) for (uint64_t i = 0; i < rounds; ++i) {
        if (same && &p != &prog[0]) { p = prog[0]; break; }
        p.push_back({uint8_t(t.below(ne)), uint8_t(t.below(nm)), uint8_t(t.chance(1, 3) ? t.below(64) : 0)});
    }
    ctx.note(std::to_string(nt) + " threads, " + std::to_string(rounds) + " evaluations each, " + (same ? "the same ones" : "different ones"));
    ctx.evaluation(unsigned(nt * rounds));
    threads::run(nt, [&](unsigned me) {
        for (auto& [e, m, p] : prog[me]) {
            if (p) threads::pause(p);
            auto r = evalOne(*many.env, *many.exprs[e], *many.models[m].root);
            if (r != single[e][m].r) fail("query " + std::to_string(e) + " on model " + std::to_string(m) + " gives " + r + ", alone it gives " + single[e][m].r);
        }
    });
    // The traces of all threads add up.
    std::map<std::string, std::pair<size_t, std::vector<std::string>>> want;
    for (auto& p : prog) for (auto& [e, m, x] : p) for (auto& [n, y] : single[e][m].tr) {
        auto& w = want[n]; w.first += y.first; w.second.insert(w.second.end(), y.second.begin(), y.second.end());
    }
    REQUIRE_P(want.size() == many.env->traces.size(), "there are " << many.env->traces.size() << " traces instead of " << want.size());
    size_t values = 0;
    for (auto& [n, w] : want) {
        auto it = many.env->traces.find(n);
        REQUIRE_P(it != many.env->traces.end(), "the trace " << n << " is missing");
        REQUIRE_P(it->second.calls == w.first, "the trace " << n << " counts " << it->second.calls << " calls instead of " << w.first);
        std::vector<std::string> got;
        for (auto& v : it->second.values) got.push_back(sut::render(v));
        std::sort(got.begin(), got.end()); std::sort(w.second.begin(), w.second.end());
        auto lim = tr.limits.count(n) ? tr.limits[n] : -1;
        if (lim < 0) REQUIRE_P(got == w.second, "the trace " << n << " has recorded " << sut::join(got) << " instead of " << sut::join(w.second));
        else {
            REQUIRE_P(got.size() == std::min<size_t>(size_t(lim), w.second.size()), "the trace " << n << " of limit " << lim << " has recorded " << got.size() << " of " << w.second.size() << " values");
            REQUIRE_P(std::includes(w.second.begin(), w.second.end(), got.begin(), got.end()), "the trace " << n << " has recorded " << sut::join(got) << " out of " << sut::join(w.second));
        }
        values += got.size();
    }
    if (values) ctx.label("traced values");
    if (results) { ctx.nontrivial(ctx.notes); }
    ctx.label(same ? "same evaluations at once" : "different evaluations");
    if (ne > 1) ctx.label("several expressions");
    for (size_t m = 0; m < nm; ++m) REQUIRE_P(many.models[m].pool->checkForErrors().empty() && many.models[m].pool->toJson() == one.models[m].pool->toJson(), "evaluation changed model " << m);
}
PROPERTY({"C19", "Random queries (some with trace() around sub-expressions), freshly compiled in one environment, evaluated by 2-5 (thorough: 2-8) threads on 1-3 shared models under ThreadSanitizer; each result must be the one of a sequential evaluation in another environment, and call counts and values of all traces must add up. Non-trivial: some result is a value.", 8000, 100000, concurrent, 3, 10});
} // namespace
