// Reference content of a model: a graph of nodes, and its comparison with simfil's view.
#pragma once
#include "pbt.h"
#include "simfil/simfil.h"
#include "simfil/model/model.h"
#include "simfil/model/json.h"
#include "simfil/model/bitsery-traits.h"
#include <nlohmann/json.hpp>
#include <cmath>
#include <deque>
#include <memory>

namespace mref {
using nlohmann::json;
using Ptr = simfil::ModelNode::Ptr;

enum class T { Null, Bool, Int, Float, Str, Obj, Arr };
struct RN {
    T t = T::Null;
    bool b = false;
    int64_t i = 0;
    double d = 0;
    std::string s;
    std::vector<std::pair<std::string, RN*>> kids; // key: lower case
    std::optional<uint32_t> addr;                  // where simfil stored it
};
std::string lower(std::string s);

// First spelling of every name, by lower case.
struct Names {
    std::map<std::string, std::string> first;
    Names();
    void add(const std::string& n) { first.emplace(lower(n), n); }
    const std::string& of(const std::string& low) const { return first.at(low); }
};

struct Ref {
    std::deque<RN> nodes;
    std::vector<RN*> roots;
    Names names;
    RN* mk(T t) { nodes.emplace_back(); nodes.back().t = t; return &nodes.back(); }
};
// Number of nodes when shared ones are expanded (capped).
size_t expanded(const RN& n, size_t cap);
bool reaches(const RN& from, const RN& to);
json toJson(const RN& n, const Names& names);
json rootsJson(const Ref& r);
// Equal including number types and the bits of floats.
bool same(const json& a, const json& b);
std::string brief(const json& j);
std::string describe(const RN& n, const Names& names, int depth = 0);

// Compares one node and (depth first) its children with all accessors.
void check(const simfil::ModelPool& pool, const simfil::ModelNode& n, const RN& r, const Names& names,
           pbt::Tape& t, size_t& budget, const std::string& where);
void checkAll(const simfil::ModelPool& pool, Ref& r, pbt::Tape& t);

// ------------------------------------------------ building, step by step
struct Builder {
    std::shared_ptr<simfil::ModelPool> pool;
    Ref ref;
    struct O { simfil::model_ptr<simfil::Object> h; RN* r; };
    struct A { simfil::model_ptr<simfil::Array> h; RN* r; };
    struct V { Ptr h; RN* r; };
    std::vector<O> objs;
    std::vector<A> arrs;
    std::vector<V> vals;
    std::map<std::string, int> ops;    // operations performed, by kind
    size_t cap = 400;                  // bound on expanded size of a node
    bool notes = true;
    pbt::Ctx* ctx = nullptr;

    explicit Builder(std::shared_ptr<simfil::ModelPool> p) : pool(std::move(p)) {}
    void step(pbt::Tape& t, bool allowClear);
    void run(pbt::Tape& t, size_t n, bool allowClear = false) { for (size_t i = 0; i < n; ++i) step(t, allowClear); }
    V newVal(pbt::Tape& t);
    V anyNode(pbt::Tape& t);
    std::string key(pbt::Tape& t);
    bool mayAdd(const RN& parent, const RN& child) const;
    void log(const std::string& s) { if (ctx && notes) ctx->note(s); }
    void addRoot(const V& v);
    void bulk(pbt::Tape& t); // many elements: across the pages of the columns
};
int64_t genInt(pbt::Tape& t);
double genDouble(pbt::Tape& t);
std::string genBytes(pbt::Tape& t);
std::string caseVariant(pbt::Tape& t, const std::string& s);

// --------------------------------------------- the serialized form, decoded
struct Raw {
    std::vector<uint32_t> roots;
    std::vector<int64_t> i64;
    std::vector<uint64_t> dbl;
    std::string text;
    std::vector<std::pair<uint32_t, uint32_t>> strs;
    std::vector<std::vector<std::pair<uint16_t, uint32_t>>> objs;
    std::vector<std::vector<uint32_t>> arrs;
    bool complete = false;
    uint64_t demand = 0; // elements a reader would have to allocate
    bool acyclic() const;
};
Raw decode(const std::string& bytes);
std::string encode(const Raw& r);
} // namespace mref
