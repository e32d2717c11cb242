// Reference semantics of the simfil language, independent of simfil's sources:
// documents, expressions, printing and evaluation. Includes nothing of simfil.
#pragma once
#include "pbt.h"
#include <functional>
#include <memory>
#include <optional>
#include <nlohmann/json.hpp>

namespace ref {

// ---------------------------------------------------------------- documents
enum class T { Null, Bool, Int, Float, Str, Obj, Arr, Range, Re };
const char* typeName(T t);

struct Node;
using NodeP = std::unique_ptr<Node>;
struct Node {
    T t = T::Null;
    bool b = false;
    int64_t i = 0;
    double d = 0;
    std::string s;
    std::vector<std::pair<std::string, NodeP>> kids; // arrays: empty keys
    nlohmann::json json() const;       // with simfil's rule for repeated keys
    std::string text() const;          // JSON text in stored order (repeats included)
    size_t count() const;
};
NodeP mkNull(); NodeP mkBool(bool); NodeP mkInt(int64_t); NodeP mkFloat(double); NodeP mkStr(std::string);
NodeP mkObj(); NodeP mkArr();

// -------------------------------------------------------------- expressions
enum class K {
    Lit, Field, Self, Any, Wild, Path, Sub, SubPre, Idx, IdxPre,
    Neg, Not, BitInv, Len, Typeof, Bool, Unpack, Cast, Bin, And, Or, Call
};
struct Ex;
using ExP = std::shared_ptr<Ex>;
struct Ex {
    K k = K::Lit;
    // Lit: value; Re literal: s. Field/Call/Cast: name. Bin: op.
    T t = T::Null;
    bool b = false;
    int64_t i = 0;
    double d = 0;
    std::string s;
    std::vector<ExP> a;
    size_t omit = 0;           // Call: that many arguments at the end are the default, and not written
};
ExP lit(); ExP litB(bool); ExP litI(int64_t); ExP litF(double); ExP litS(std::string); ExP litRe(std::string);
ExP field(std::string); // b: stands for the constant of that name
ExP self(); ExP any(); ExP wild();
ExP mk(K k, std::vector<ExP> a, std::string s = {});
ExP call(std::string fn, std::vector<ExP> a);
ExP bin(std::string op, ExP l, ExP r);
ExP clone(const ExP& e);
size_t exSize(const Ex& e);

struct PrintOpt {
    bool minimal = false;      // only the parentheses that the precedence table asks for
    std::function<std::string(const std::string&, char kind)> word; // kind: 'f'ield, 'p'ath field, 'c'all, 'k'eyword, 't'ype
    pbt::Tape* noise = nullptr; // extra parentheses and spaces, alternative spellings
};
std::string print(const Ex& e, const PrintOpt& o = {});
std::string sexpr(const Ex& e);   // the documented tree shape, for unfolded expressions

// --------------------------------------------------------------- evaluation
struct Overlay;
struct Val {
    T t = T::Null;
    bool b = false;
    int64_t i = 0, i2 = 0;
    double d = 0;
    std::string s;
    enum { None, Doc, Ov, Synth } nk = None;  // what kind of node it came from
    const Node* n = nullptr;
    std::shared_ptr<Overlay> ov;
    bool hasNode() const { return nk != None; }
};
struct Overlay { Val base; std::map<std::string, Val> fields; };
Val fromNode(const Node& n);
// Comparable rendering: "<type>:<value>".
std::string render(const Val& v);

struct Error { std::string msg; };          // the query fails at run time
struct OutOfDomain { std::string why; };    // no claim (integer overflow, too big, ...)

struct TraceRec { uint64_t calls = 0; std::vector<std::string> values; };
struct Env {
    std::map<std::string, TraceRec> traces;
    std::map<std::string, Val> constants;   // lower case name
    int64_t budget = 60000;
    size_t maxResults = 4000;
    std::set<std::string> visited;          // which features took effect (for evidence)
    bool autoNames = false;
    std::vector<std::string> misses;        // types of subscripts that addressed no child of a node
};
std::vector<Val> eval(const Ex& e, const Node& root, Env& env);
std::vector<Val> evalOn(const Ex& e, const Val& cur, Env& env);
std::string lower(std::string s);

// ---------------------------------------------------------------- generators
// Feature weights; generators only use features of non-zero weight.
struct Cfg {
    unsigned arith = 3, cmp = 3, logic = 3, bit = 1, str = 2, cast = 1, typeof_ = 1, len = 1;
    unsigned wild = 3, sub = 3, idx = 3, path = 6;
    unsigned quant = 2, count = 2, arr = 2, range = 1, select = 1, split = 1, sum = 1, keys = 1, re = 1, trace = 0;
    unsigned noise = 4;           // percent of operands of a random type
    bool fieldsOnly = false;      // no literals, nothing that can be folded
};
struct Gen {
    pbt::Tape& t;
    Cfg c;
    bool inSum = false;
    ExP num(int d); ExP str(int d); ExP boolean(int d); ExP model(int d); ExP multi(int d); ExP anyv(int d);
    ExP single(char kind, int d);    // evaluates to a single value, mostly of that kind
    ExP path(char cls, int d);       // i f s b o a n m
    ExP literal(char kind);
    ExP regex(int d);
    ExP pred(int d);                 // a filter
    std::string fieldName(char cls);
};
NodeP genDoc(pbt::Tape& t, int depth, bool repeats = false);
void enlarge(pbt::Tape& t, NodeP& root);    // deep, wide or long
std::string genText(pbt::Tape& t);
std::string genRegexFor(pbt::Tape& t, const std::string& s);

} // namespace ref
