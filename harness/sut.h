// Bridge between the reference semantics (ref.h) and simfil itself.
#pragma once
#include "ref.h"
#include "simfil/simfil.h"
#include "simfil/model/model.h"
#include "simfil/model/json.h"

namespace sut {

struct Model {
    std::shared_ptr<simfil::ModelPool> pool;
    simfil::ModelNode::Ptr root;
};
// Builds the document through the ModelPool builders (random build order, if a tape is given).
simfil::ModelNode::Ptr buildNode(const std::shared_ptr<simfil::ModelPool>& pool, const ref::Node& n, pbt::Tape* t = nullptr);
Model build(const ref::Node& n, pbt::Tape* t = nullptr);
Model build(const ref::Node& n, std::shared_ptr<simfil::StringPool> strings, pbt::Tape* t = nullptr);
// Document order of a parsed JSON text: keys sorted. No repeated keys.
void sortKeys(ref::Node& n);

std::string render(const simfil::Value& v);

struct Outcome {
    enum { Ok, CompileError, EvalError } kind = Ok;
    std::string msg;
    std::string ast;
    std::vector<std::string> vals;
    bool raised() const { return kind != Ok; }
    std::string str() const;
};
struct Opt { bool any = false, autoWild = false; };
Outcome query(simfil::Environment& env, const std::string& q, const simfil::ModelNode& root, Opt o = {});

// What the reference says.
struct Expected {
    enum { Values, Raises, NoClaim } kind = Values;
    std::string why;
    std::vector<std::string> vals;
    bool mayRaise = false;      // some constant sub-expression raises when evaluated eagerly
    bool mayRaiseCompile = false; // some other part raises in two unrelated contexts
    std::set<std::string> seen; // features that took effect
    std::map<std::string, ref::TraceRec> traces;
    std::string str() const;
};
Expected expect(const ref::Ex& e, const ref::Node& doc, const ref::Env& base = {});
bool hasNonNull(const Expected& e);
// Fails the case unless the outcome is what the reference says. Returns false if no claim is made.
bool agree(pbt::Ctx& ctx, const Expected& x, const Outcome& o, const std::string& what);
std::string join(const std::vector<std::string>& v);

} // namespace sut
