// Tokenizer properties C01..C07. Needs only simfil/token.h.
#include "pbt.h"
#include "simfil/token.h"

#include <cmath>
#include <cstdlib>
#include <limits>
#include <optional>
#include <stdexcept>

using namespace simfil;
using pbt::Tape; using pbt::Ctx; using pbt::quote; using pbt::fail;

namespace {

struct Result { bool ok = false; std::vector<Token> toks; std::string err; };

Result lex(const std::string& text) {
    Result r;
    try { r.toks = tokenize(text); r.ok = true; }
    catch (const std::runtime_error& e) { r.err = e.what(); }
    return r;
}

std::string showTok(const Token& t) {
    std::string s = Token::toString(t.type);
    if (auto* v = std::get_if<std::string>(&t.value)) s += ":" + quote(*v);
    if (auto* v = std::get_if<int64_t>(&t.value)) s += ":" + std::to_string(*v);
    if (auto* v = std::get_if<double>(&t.value)) { char b[40]; snprintf(b, sizeof b, ":%.17g", *v); s += b; }
    return s + "@" + std::to_string(t.begin) + "-" + std::to_string(t.end);
}
std::string showToks(const std::vector<Token>& v) {
    std::string s; for (auto& t : v) s += (s.empty() ? "" : " ") + showTok(t); return s;
}
Token single(const Result& r, const std::string& text, Token::Type type) {
    if (!r.ok) fail("valid literal rejected: " + quote(text) + " -> " + r.err);
    if (r.toks.size() != 2 || r.toks[0].type != type || r.toks[1].type != Token::NIL)
        fail("expected one " + Token::toString(type) + " token for " + quote(text) + ", got " + showToks(r.toks));
    return r.toks[0];
}

char pickChar(Tape& t, std::string_view set) { return set[t.below(set.size())]; }

// Sizes beyond the ordinary: limits and narrow integers only show there.
size_t longSize(Tape& t) {
    switch (t.weighted({8, 4, 1})) {
    case 0: return 20 + t.below(300);
    case 1: return 300 + t.below(5000);
    default: return 5000 + t.below(66000);
    }
}
std::string repeatTo(const std::string& unit, size_t n) {
    std::string s; s.reserve(n + unit.size());
    while (s.size() < n) s += unit;
    return s;
}

const char WS[] = {' ', '\t', '\n', '\r', '\v', '\f'};
std::string ws(Tape& t, size_t min) {
    std::string s; size_t n = min + (t.chance(1, 3) ? t.below(4) : 0);
    if (n == min + 3 && t.chance(1, 80)) return repeatTo(std::string(1, WS[t.below(6)]) + ' ', longSize(t));
    for (size_t i = 0; i < n; ++i) s += t.chance(1, 3) ? WS[t.below(6)] : ' ';
    return s;
}

uint64_t anyMagnitude(Tape& t, unsigned maxBits) {
    unsigned bits = t.below(maxBits + 1);
    if (bits == 0) return 0;
    uint64_t v = t.u64();
    v &= bits == 64 ? ~0ull : (1ull << bits) - 1;
    if (t.chance(1, 4)) { // boundary
        v = bits == 64 ? ~0ull : (1ull << bits);
        v -= t.below(3);
        if (maxBits == 63 && v > static_cast<uint64_t>(INT64_MAX)) v = INT64_MAX;
    }
    return v;
}

std::string digits(uint64_t v, unsigned base, Tape& t) {
    std::string s;
    const char* lo = "0123456789abcdef"; const char* up = "0123456789ABCDEF";
    bool upper = t.flip(), mixed = t.chance(1, 3);
    do { s.insert(s.begin(), ((mixed ? t.flip() : upper) ? up : lo)[v % base]); v /= base; } while (v);
    if (t.chance(1, 4)) s.insert(0, std::string(t.chance(1, 20) ? longSize(t) : 1 + t.below(4), '0'));
    return s;
}
struct Base { const char* prefix; unsigned base; };
const Base BASES[] = {{"", 10}, {"0x", 16}, {"0b", 2}};

// ---------------------------------------------------------------- C01
void intLiterals(Tape& t, Ctx& c) {
    for (int k = 0; k < 6; ++k) {
        c.evaluation();
        const Base& b = BASES[t.below(3)];
        switch (t.weighted({6, 3, 3, 2})) {
        case 0: { // one literal
            uint64_t v = anyMagnitude(t, 63);
            auto text = ws(t, 0) + b.prefix + digits(v, b.base, t) + ws(t, 0);
            c.note("literal " + quote(text));
            auto tok = single(lex(text), text, Token::INT);
            if (std::get<int64_t>(tok.value) != static_cast<int64_t>(v))
                fail("wrong value " + showTok(tok) + ", written value " + std::to_string(v));
            // Printing an integer token yields the literal again.
            auto text2 = tok.toString();
            auto tok2 = single(lex(text2), text2, Token::INT);
            if (std::get<int64_t>(tok2.value) != static_cast<int64_t>(v)) fail("token text " + text2 + " does not read back as " + std::to_string(v));
            c.label(v > 0xffffffffull ? "wide" : "narrow"); c.label("base" + std::to_string(b.base));
            if (v > 9) c.nontrivial(text);
            break; }
        case 1: { // too large: must be rejected
            std::string d;
            if (t.flip()) { uint64_t v = (1ull << 63) + (t.flip() ? t.below(4) : t.u64() >> 1); d = digits(v, b.base, t); }
            else {
                const char* set = "123456789abcdefABCDEF";
                unsigned lim = b.base == 2 ? 1 : b.base == 10 ? 9 : 21;
                size_t len = (b.base == 2 ? 64 : b.base == 10 ? 20 : 17) + (t.chance(1, 30) ? t.below(300) : t.below(25));
                d += set[t.below(lim)];
                for (size_t i = 1; i < len; ++i) { auto x = t.below(lim + 1); d += x == 0 ? '0' : set[x - 1]; }
            }
            auto text = b.prefix + d;
            c.note("oversized " + quote(text));
            auto r = lex(text);
            if (r.ok) fail("integer literal " + text + " does not fit 64 bits but was accepted as " + showToks(r.toks));
            c.label("oversized"); c.nontrivial(text);
            break; }
        case 2: { // malformed
            std::string d = digits(anyMagnitude(t, 40), b.base, t);
            std::string text;
            if (b.base == 2) { d.insert(t.below(d.size() + 1), 1, "23456789"[t.below(8)]); text = "0b" + d; }
            else if (b.base == 16) text = t.flip() ? "0x" + d + "ghzGQ"[t.below(5)] : std::string("0x");
            else text = d + "abcdfgzAGZ"[t.below(10)];
            if (b.base == 10 && (text == "0b" || text.find_first_not_of('0') == std::string::npos)) return;
            // "0b" followed by digits would be a legal binary literal.
            c.note("malformed " + quote(text));
            auto r = lex(text);
            if (r.ok) fail("malformed integer literal accepted: " + quote(text) + " -> " + showToks(r.toks));
            c.label("malformed"); c.nontrivial(text);
            break; }
        default: { // several literals in one expression
            size_t n = 2 + (t.chance(1, 40) ? t.below(200) : t.below(4)); std::string text; std::vector<int64_t> vals;
            for (size_t i = 0; i < n; ++i) {
                const Base& bb = BASES[t.below(3)];
                uint64_t v = anyMagnitude(t, 63);
                if (i) text += t.oneOf<const char*>({"+", ",", " ", "-", "==", "[", ")"});
                text += bb.prefix + digits(v, bb.base, t);
                vals.push_back(static_cast<int64_t>(v));
            }
            c.note("list " + quote(text));
            auto r = lex(text);
            if (!r.ok) fail("rejected " + quote(text) + ": " + r.err);
            size_t k2 = 0;
            for (auto& tok : r.toks) if (tok.type == Token::INT) {
                if (k2 >= n || std::get<int64_t>(tok.value) != vals[k2]) fail("literal " + std::to_string(k2) + " of " + quote(text) + " read as " + showTok(tok));
                ++k2;
            }
            if (k2 != n) fail("expected " + std::to_string(n) + " integers in " + quote(text) + ": " + showToks(r.toks));
            c.label("list"); c.nontrivial(text); }
        }
    }
}
PROPERTY({"C01", "Random integers of every bit width 0..63 written in base 10, 16 (mixed case) and 2 with leading zeros and surrounding white space, alone or in a list; oversized (>= 2^63, up to 100 digits) and malformed literals. Non-trivial: values above 9, oversized, malformed or list inputs.", 80000, 800000, intLiterals});

// ---------------------------------------------------------------- C02
std::string decDigits(Tape& t, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += static_cast<char>('0' + t.below(10)); return s; }

void floatLiterals(Tape& t, Ctx& c) {
    for (int k = 0; k < 6; ++k) {
        c.evaluation();
        std::string ip, fp, text; bool dot = true, exp = false; long e = 0;
        switch (t.weighted({4, 2, 2, 3})) {
        case 0: ip = decDigits(t, 1 + t.below(t.chance(1, 6) ? 30 : 12)); fp = decDigits(t, 1 + t.below(t.chance(1, 6) ? 40 : 12)); break;
        case 1: ip = decDigits(t, 1 + t.below(17)); break;
        case 2: fp = decDigits(t, 1 + t.below(20)); break;
        default: ip = decDigits(t, 1 + t.below(t.chance(1, 6) ? 30 : 15)); dot = false; exp = true;
        }
        if (!exp) exp = t.flip();
        text = ip; if (dot) text += "." + fp;
        if (exp) {
            e = t.weighted({4, 2}) == 0 ? t.range(-20, 20) : t.range(-250, 250);
            text += t.flip() ? 'e' : 'E';
            if (e < 0) text += '-';
            std::string d = std::to_string(std::labs(e));
            if (t.chance(1, 6)) d.insert(0, std::string(t.chance(1, 10) ? longSize(t) : 1 + t.below(3), '0'));
            text += d;
        }
        // Exactly between two doubles, or a digit far to the right above that:
        // every digit counts.
        if (t.chance(1, 12)) {
            uint64_t bits = t.u64() & ~(1ull << 63);
            bits = (bits & ((1ull << 52) - 1)) | ((t.chance(1, 10) ? t.below(2000) : 1023 - 70 + t.below(140)) << 52);
            double lo, hi; memcpy(&lo, &bits, 8); ++bits; memcpy(&hi, &bits, 8);
            long double mid = (static_cast<long double>(lo) + hi) / 2;
            char buf[2000]; snprintf(buf, sizeof buf, "%.1150Lf", mid);
            text = buf; text.erase(text.find_last_not_of('0') + 1);
            if (text.back() == '.') text += '0';
            if (t.flip()) { text += std::string(t.below(60), '0'); text += static_cast<char>('0' + t.below(10)); }
            dot = true; exp = false; e = 0; c.label("halfway");
        }
        // Digits without influence: long zero tails.
        if (dot && !exp && t.chance(1, 20)) text += std::string(longSize(t), '0');
        bool isInt = !dot && e == 0;
        if (isInt && ip.size() > 18) continue;
        c.note("literal " + quote(text));
        auto padded = ws(t, 0) + text + ws(t, 0);
        auto tok = single(lex(padded), padded, isInt ? Token::INT : Token::FLOAT);
        double want = std::strtod(text.c_str(), nullptr);
        double got = isInt ? static_cast<double>(std::get<int64_t>(tok.value)) : std::get<double>(tok.value);
        if (!(got == want))
            fail("literal " + text + " read as " + showTok(tok));
        c.label(exp ? (e < 0 ? "exp-neg" : "exp-pos") : "plain"); c.label(dot ? "dot" : "nodot");
        if (want != 0) c.nontrivial(text);
        // A digit sequence with an extreme exponent is rejected or read as zero,
        // infinity or a very large/small number, never as "not a number".
        if (t.chance(1, 8)) {
            std::string ext = (t.flip() ? ip.empty() ? "0" : ip : std::string("0")) + (t.flip() ? ".0" : "") + "e" + (t.flip() ? "-" : "") + std::to_string(t.below(100000));
            c.evaluation(); c.note("extreme " + quote(ext));
            auto r = lex(ext);
            if (r.ok && r.toks.size() == 2 && r.toks[0].type == Token::FLOAT && std::get<double>(r.toks[0].value) != std::strtod(ext.c_str(), nullptr))
                fail("literal " + ext + " read as " + showTok(r.toks[0]));
            c.label("extreme"); c.nontrivial(ext);
        }
        if (t.chance(1, 8)) {
            std::string badText = text + t.oneOf<const char*>({"x", ".", "abc", ".5", "z", "_q"});
            if (exp || dot) {
                if (badText.back() == 'q') continue;
                c.evaluation();
                c.note("malformed " + quote(badText));
                auto r = lex(badText);
                bool scientificDotless = !dot && exp; // "1e5.5": reads on after the exponent
                if (r.ok && !scientificDotless) fail("malformed float literal accepted: " + quote(badText) + " -> " + showToks(r.toks));
                c.label("malformed"); c.nontrivial(badText);
            }
        }
    }
}
PROPERTY({"C02", "Random decimal literals D.D, D., .D and D with optional e[-]N suffix (|N| <= 250), compared with strtod bit for bit; extreme exponents included; trailing garbage must be rejected. Non-trivial: non-zero value, extreme or malformed.", 150000, 1500000, floatLiterals});

// ---------------------------------------------------------------- C03
std::string anyText(Tape& t, size_t max, bool nul = false) {
    size_t n = t.size(max); std::string s;
    if (t.chance(1, 100)) {
        auto unit = anyText(t, 8, nul); if (unit.empty()) unit = "a";
        s = repeatTo(unit, longSize(t)); s.resize(s.size() - t.below(unit.size()));
    }
    for (size_t i = 0; i < n; ++i) {
        switch (t.weighted({5, 4, 2, 1})) {
        case 0: s += static_cast<char>('a' + t.below(26)); break;
        case 1: s += pickChar(t, "\\'\"\n\r\t .*(){}[]re0"); break;
        case 2: s += static_cast<char>(32 + t.below(95)); break;
        default: s += static_cast<char>((nul ? 0 : 1) + t.below(nul ? 256 : 255));
        }
    }
    return s;
}
// Text of a non-raw literal whose value is `v`.
std::string escapeString(const std::string& v, char q, Tape& t) {
    std::string s(1, q);
    for (char ch : v) {
        if (ch == q || ch == '\\') { s += '\\'; s += ch; }
        else if (ch == '\n' && t.flip()) s += "\\n";
        else if (ch == '\t' && t.flip()) s += "\\t";
        else if (ch == '\r' && t.flip()) s += "\\r";
        else if (ch != 'n' && ch != 't' && ch != 'r' && t.chance(1, 8)) { s += '\\'; s += ch; }
        else s += ch;
    }
    return s + q;
}
// Raw literal: only the quote can be escaped. A value which has a backslash
// directly before a quote or at its end cannot be written with that quote.
std::optional<std::string> rawString(const std::string& v, char q) {
    std::string s(1, q);
    for (size_t i = 0; i < v.size(); ++i) {
        if (v[i] == q) { if (i && v[i - 1] == '\\') return {}; s += '\\'; }
        s += v[i];
    }
    if (!v.empty() && v.back() == '\\') return {};
    return s + q;
}

void stringLiterals(Tape& t, Ctx& c) {
    for (int k = 0; k < 6; ++k) {
        c.evaluation();
        std::string v = anyText(t, 40);
        char q = t.flip() ? '"' : '\'';
        size_t kind = t.weighted({3, 2, 2});
        std::string lit;
        if (kind == 0) lit = escapeString(v, q, t);
        else {
            auto r = rawString(v, q);
            if (!r) r = rawString(v, q == '"' ? '\'' : '"');
            if (!r) { for (char& ch : v) if (ch == '\\') ch = '/'; r = rawString(v, q); }
            lit = (kind == 1 ? t.oneOf<const char*>({"r", "R"}) : t.oneOf<const char*>({"re", "RE"})) + *r;
        }
        auto text = ws(t, 0) + lit + ws(t, 0);
        c.note("value " + quote(v) + " literal " + quote(text));
        auto type = kind == 2 ? Token::REGEXP : Token::STRING;
        auto tok = single(lex(text), text, type);
        if (std::get<std::string>(tok.value) != v) fail("string literal " + quote(lit) + " read as " + showTok(tok) + ", written for " + quote(v));
        c.label(kind == 0 ? "plain" : kind == 1 ? "raw" : "regexp");
        if (v.find_first_of("\\'\"\n\r\t") != std::string::npos) { c.nontrivial(text); c.label("needs-escape"); }
        // Without its closing quote the literal is rejected, wherever it is cut.
        if (t.chance(1, 3)) {
            size_t pre = lit.find_first_of("'\"");
            // (value characters never contribute an unescaped closing quote)
            std::string cut = lit.substr(0, pre + 1 + t.below(lit.size() - pre - 1));
            c.evaluation(); c.note("cut " + quote(cut));
            auto r = lex(cut);
            if (r.ok) fail("unterminated literal accepted: " + quote(cut) + " -> " + showToks(r.toks));
            c.label("unterminated"); c.nontrivial(cut);
        }
    }
}
PROPERTY({"C03", "Random byte strings (biased to quotes, backslashes, control characters) written as '...', \"...\", r'...' or re'...' literals with required and optional escapes; cut literals must be rejected. Non-trivial: value needs escaping, or a cut literal.", 100000, 1000000, stringLiterals});

// ---------------------------------------------------------------- C04
struct Kw { const char* text; Token::Type type; };
const Kw KEYWORDS[] = {{"_", Token::SELF}, {"and", Token::OP_AND}, {"or", Token::OP_OR}, {"not", Token::OP_NOT},
    {"typeof", Token::OP_TYPEOF}, {"true", Token::C_TRUE}, {"false", Token::C_FALSE}, {"null", Token::C_NULL}, {"as", Token::OP_CAST}};

std::string lower(std::string s) { for (auto& ch : s) if (ch >= 'A' && ch <= 'Z') ch = static_cast<char>(ch + 32); return s; }
std::string randomCase(std::string s, Tape& t) {
    size_t mode = t.below(4);
    for (auto& ch : s) {
        bool up = mode == 1 || (mode >= 2 && t.flip());
        if (up && ch >= 'a' && ch <= 'z') ch = static_cast<char>(ch - 32);
    }
    return s;
}
bool isAl(char ch) { return (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z'); }
bool isNum(char ch) { return ch >= '0' && ch <= '9'; }

std::string escapeWord(const std::string& name, Tape& t, bool optional) {
    std::string s;
    for (size_t i = 0; i < name.size(); ++i) {
        char ch = name[i];
        bool ok = isAl(ch) || ch == '_' || (i == 0 && ch == '$') || (i > 0 && isNum(ch));
        if (!ok || (optional && t.chance(1, 10))) s += '\\';
        s += ch;
    }
    return s;
}

void words(Tape& t, Ctx& c) {
    for (int k = 0; k < 6; ++k) {
        c.evaluation();
        if (t.chance(1, 4)) {
            auto& kw = KEYWORDS[t.below(9)];
            auto text = ws(t, 0) + randomCase(kw.text, t) + ws(t, 0);
            c.note("keyword " + quote(text));
            single(lex(text), text, kw.type);
            c.label("keyword"); c.nontrivial(text);
            continue;
        }
        std::string name;
        switch (t.weighted({4, 2, 2, 2})) {
        case 0: { size_t n = 1 + t.size(12); for (size_t i = 0; i < n; ++i) { auto x = t.below(64); name += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789$"[i && x == 63 ? 0 : x]; } break; }
        case 1: name = anyText(t, 16); break;
        case 2: { // keyword plus/minus something
            name = randomCase(KEYWORDS[t.below(9)].text, t);
            if (t.flip()) name += "_0123456789abcxyz"[t.below(17)]; else name.insert(name.begin(), "_abcxyz$"[t.below(8)]);
            break; }
        default: name = t.oneOf<const char*>({"r", "re", "R", "RE", "rex", "e", "x0", "b", "ab", "nul", "tru", "typeo", "an", "o", "ands", "orb", "not_", "$", "$sum", "__"});
        }
        if (name.empty()) name = "a";
        auto text = escapeWord(name, t, t.chance(1, 3));
        auto padded = ws(t, 0) + text + ws(t, 0);
        c.note("name " + quote(name) + " word " + quote(padded));
        const Kw* kw = nullptr; for (auto& x : KEYWORDS) if (lower(name) == x.text) kw = &x;
        if (kw) { single(lex(padded), padded, kw->type); c.label("keyword-by-chance"); continue; }
        auto tok = single(lex(padded), padded, Token::WORD);
        if (std::get<std::string>(tok.value) != name) fail("word " + quote(text) + " read as " + showTok(tok) + " for name " + quote(name));
        c.label(text == name ? "plain" : "escaped");
        if (text != name || name.size() > 1) c.nontrivial(text);
        if (t.chance(1, 10)) { auto cut = text + "\\"; c.note("cut " + quote(cut)); if (lex(cut).ok) fail("dangling escape accepted: " + quote(cut)); c.label("dangling"); }
    }
}
PROPERTY({"C04", "Random identifiers (legal names, arbitrary bytes written with escapes, near-keywords) and keywords in random letter case. Non-trivial: keyword, escaped name, or name longer than one character.", 150000, 1500000, words});

// ---------------------------------------------------------------- reference lexer
// Written from the language description: maximal munch over the operator
// table, keywords case-insensitive, literals as in C01..C04.
struct RTok { Token::Type type; std::variant<std::monostate, std::string, int64_t, double> value; size_t begin, end, start; };
const Kw OPS[] = {{"...", Token::OP_UNPACK}, {"**", Token::WILDCARD}, {"<<", Token::OP_LSHIFT}, {">>", Token::OP_RSHIFT},
    {"<=", Token::OP_LTEQ}, {">=", Token::OP_GTEQ}, {"==", Token::OP_EQ}, {"!=", Token::OP_NOT_EQ},
    {"(", Token::LPAREN}, {")", Token::RPAREN}, {"{", Token::LBRACE}, {"}", Token::RBRACE}, {"[", Token::LBRACK}, {"]", Token::RBRACK},
    {",", Token::COMMA}, {":", Token::COLON}, {".", Token::DOT}, {"+", Token::OP_ADD}, {"-", Token::OP_SUB}, {"*", Token::OP_TIMES},
    {"/", Token::OP_DIV}, {"%", Token::OP_MOD}, {"~", Token::OP_BITINV}, {"|", Token::OP_BITOR}, {"&", Token::OP_BITAND},
    {"#", Token::OP_LEN}, {"^", Token::OP_BITXOR}, {"?", Token::OP_BOOL}, {"<", Token::OP_LT}, {">", Token::OP_GT}, {"=", Token::OP_EQ}};
struct RefError {};
struct Unspecified {}; // the description does not settle this input
bool isWs(char ch) { return ch == ' ' || (ch >= '\t' && ch <= '\r'); }
int digitOf(char ch) { if (isNum(ch)) return ch - '0'; if (ch >= 'a' && ch <= 'f') return ch - 'a' + 10; if (ch >= 'A' && ch <= 'F') return ch - 'A' + 10; return -1; }

std::vector<RTok> refLex(const std::string& in) {
    std::vector<RTok> out; size_t p = 0;
    auto at = [&](size_t i) { return i < in.size() ? in[i] : '\0'; };
    while (true) {
        while (p < in.size() && isWs(in[p])) ++p;
        if (p >= in.size()) break;
        size_t st = p; char ch = in[p];
        // numbers
        bool hex = ch == '0' && at(p + 1) == 'x', bin = ch == '0' && at(p + 1) == 'b';
        if (hex || bin) {
            int base = hex ? 16 : 2; p += 2;
            if (digitOf(at(p)) < 0) throw RefError{};
            unsigned __int128 v = 0; bool over = false;
            while (hex ? digitOf(at(p)) >= 0 : isNum(at(p))) {
                int d = digitOf(at(p)); if (d >= base) throw RefError{};
                v = v * base + d; if (v > INT64_MAX) { over = true; v = INT64_MAX; } ++p;
            }
            if (bin && (at(p) == 'e' || at(p) == 'E')) throw Unspecified{};
            if (at(p) == '.' || isAl(at(p)) || over) throw RefError{};
            out.push_back({Token::INT, static_cast<int64_t>(v), st, p, st});
            continue;
        }
        if (isNum(ch) || (ch == '.' && isNum(at(p + 1)))) {
            unsigned __int128 v = 0; bool over = false, dot = false;
            while (isNum(at(p))) { v = v * 10 + (in[p] - '0'); if (v > INT64_MAX) { over = true; v = INT64_MAX; } ++p; }
            if (at(p) == '.') { dot = true; ++p; while (isNum(at(p))) ++p; }
            std::string num = in.substr(st, p - st);
            if (at(p) == 'e' || at(p) == 'E') {
                ++p; std::string ex = "e"; if (at(p) == '-') { ex += '-'; ++p; }
                bool any = false; while (isNum(at(p))) { ex += in[p++]; any = true; }
                if (any) num += ex;
            }
            double d = std::strtod(num.c_str(), nullptr);
            bool sciOne = num.find('e') == std::string::npos || std::strtod(num.substr(num.find('e') + 1).c_str(), nullptr) == 0;
            bool isInt = !dot && sciOne;
            if (dot || isInt) if (isAl(at(p)) || at(p) == '.') throw RefError{};
            if (isInt && over) throw RefError{};
            if (isInt) out.push_back({Token::INT, static_cast<int64_t>(v), st, p, st});
            else out.push_back({Token::FLOAT, d, st, p, st});
            continue;
        }
        // strings
        size_t pre = 0; bool re = false;
        if ((ch == 'r' || ch == 'R') && (at(p + 1) == '\'' || at(p + 1) == '"')) pre = 1;
        else if (((ch == 'r' && at(p + 1) == 'e') || (ch == 'R' && at(p + 1) == 'E')) && (at(p + 2) == '\'' || at(p + 2) == '"')) { pre = 2; re = true; }
        if (pre || ch == '\'' || ch == '"') {
            p += pre; size_t b = p; char q = in[p++]; std::string v; bool closed = false;
            while (p < in.size()) {
                if (in[p] == q) { ++p; closed = true; break; }
                if (in[p] == '\\') {
                    ++p; if (p >= in.size()) throw RefError{};
                    if (pre) { if (in[p] == q) v += in[p++]; else v += '\\'; }
                    else { char e = in[p++]; v += e == 'n' ? '\n' : e == 'r' ? '\r' : e == 't' ? '\t' : e; }
                    continue;
                }
                v += in[p++];
            }
            if (!closed) throw RefError{};
            out.push_back({re ? Token::REGEXP : Token::STRING, v, b, p, st});
            continue;
        }
        if (isAl(ch) || ch == '_' || ch == '\\' || ch == '$') {
            std::string v;
            do { if (in[p] == '\\') { ++p; if (p >= in.size()) throw RefError{}; } v += in[p++]; }
            while (p < in.size() && (isAl(in[p]) || isNum(in[p]) || in[p] == '_' || in[p] == '\\'));
            const Kw* kw = nullptr; for (auto& x : KEYWORDS) if (lower(v) == x.text) kw = &x;
            if (kw) out.push_back({kw->type, {}, st, p, st}); else out.push_back({Token::WORD, v, st, p, st});
            continue;
        }
        const Kw* best = nullptr; size_t len = 0;
        for (auto& o : OPS) if (in.compare(p, strlen(o.text), o.text) == 0 && strlen(o.text) > len) { best = &o; len = strlen(o.text); }
        if (!best) throw RefError{};
        p += len; out.push_back({best->type, {}, st, p, st});
    }
    return out;
}

bool sameValue(const Token& a, const RTok& b) {
    if (auto* d = std::get_if<double>(&b.value)) {
        auto* x = std::get_if<double>(&a.value);
        if (!x) return false;
        if (std::isnan(*x)) return false;
        return !std::isfinite(*d) || *x == *d || std::fabs(*x - *d) <= 1e-9 * std::fabs(*d) || (std::fabs(*d) < 1e-280 && std::fabs(*x) < 1e-280) || !std::isfinite(*x) == (std::fabs(*d) > 1e300);
    }
    return a.value == b.value;
}

// Returns number of tokens (0 when both reject).
size_t compareWithReference(const std::string& in, Ctx& c) {
    bool refOk = true; std::vector<RTok> ref;
    try { ref = refLex(in); } catch (RefError&) { refOk = false; }
    catch (Unspecified&) { c.label("unspecified"); return 0; }
    auto r = lex(in);
    if (r.ok != refOk) fail(quote(in) + (r.ok ? " accepted but not in the lexical grammar: " + showToks(r.toks) : " rejected although in the lexical grammar: " + r.err));
    if (!r.ok) { c.label("rejected"); return 0; }
    if (r.toks.size() != ref.size() + 1) fail(quote(in) + ": expected " + std::to_string(ref.size()) + " tokens, got " + showToks(r.toks));
    for (size_t i = 0; i < ref.size(); ++i) {
        auto& a = r.toks[i];
        if (a.type != ref[i].type || !sameValue(a, ref[i])) {
            RTok b = ref[i]; Token e(b.type, b.begin, b.end); e.value = b.value;
            fail(quote(in) + ": token " + std::to_string(i) + " is " + showTok(a) + ", expected " + showTok(e));
        }
    }
    if (r.toks.back().type != Token::NIL) fail(quote(in) + ": no end marker: " + showToks(r.toks));
    c.label("accepted");
    return ref.size();
}

// ---------------------------------------------------------------- random token streams
struct Piece { std::string text; };
std::string tokenText(Tape& t) {
    switch (t.weighted({8, 3, 2, 3, 2, 2})) {
    case 0: return OPS[t.below(std::size(OPS))].text;
    case 1: return digits(anyMagnitude(t, 63), 10, t);
    case 2: { auto& b = BASES[1 + t.below(2)]; return b.prefix + digits(anyMagnitude(t, 63), b.base, t); }
    case 3: { std::string n; size_t k = 1 + t.below(6); for (size_t i = 0; i < k; ++i) n += pickChar(t, "abcxyzABCXYZ_re019$ "); return t.chance(1, 3) ? randomCase(KEYWORDS[t.below(9)].text, t) : escapeWord(n, t, false); }
    case 4: { auto v = anyText(t, 8); char q = t.flip() ? '\'' : '"'; if (t.chance(1, 3)) { if (auto r = rawString(v, q)) return t.oneOf<const char*>({"r", "R", "re", "RE"}) + *r; } return escapeString(v, q, t); }
    default: { std::string s = decDigits(t, 1 + t.below(5)) + "." + decDigits(t, 1 + t.below(5)); if (t.chance(1, 3)) { s += "e"; if (t.flip()) s += "-"; s += std::to_string(t.below(30)); } return s; }
    }
}
// May b directly follow a without white space?
bool canTouch(const std::string& a, const std::string& b) {
    auto wordish = [](char ch) { return isAl(ch) || isNum(ch) || ch == '_' || ch == '\\' || ch == '$' || static_cast<unsigned char>(ch) >= 0x80; };
    char x = a.back(), y = b.front();
    bool aString = (a.front() == '\'' || a.front() == '"' || (a.size() > 2 && (x == '\'' || x == '"') && (a.front() == 'r' || a.front() == 'R')));
    if (aString) return true;
    bool aOp = false; for (auto& o : OPS) if (a == o.text) aOp = true;
    bool aNum = isNum(a.front());
    if (aOp) {
        if (a == "." && isNum(y)) return false;
        for (auto& o : OPS) if (strlen(o.text) > a.size() && std::string(o.text).compare(0, a.size(), a) == 0 && o.text[a.size()] == y) return false;
        if (a == "." && y == '.') return false;
        return true;
    }
    if (aNum) return !wordish(y) && y != '.';
    // word
    if (y == '\'' || y == '"') return false;
    if (a.find('\\') != std::string::npos) return false; // ends in an escaped, possibly odd character
    return !wordish(y);
}

void streams(Tape& t, Ctx& c) {
    for (int k = 0; k < 4; ++k) {
        c.evaluation();
        size_t n = 1 + t.size(24); std::vector<std::string> parts;
        if (t.chance(1, 300)) n = 25 + t.below(2000);
        std::vector<RTok> want;
        for (size_t i = 0; i < n; ++i) parts.push_back(tokenText(t));
        std::string spaced, tight; size_t touching = 0;
        for (size_t i = 0; i < n; ++i) {
            auto one = refLex(parts[i]);
            if (one.size() != 1) fail("harness: piece " + quote(parts[i]) + " is not one token");
            want.push_back(one[0]);
            bool touch = i && canTouch(parts[i - 1], parts[i]);
            spaced += ws(t, 1) + parts[i];
            if (i && !(touch && t.chance(3, 4))) tight += ws(t, 1); else if (i) ++touching;
            tight += parts[i];
        }
        if (t.flip()) spaced += ws(t, 1);
        for (auto& text : {spaced, tight}) {
            c.note(quote(text));
            auto r = lex(text);
            if (!r.ok) fail("rejected: " + r.err);
            if (r.toks.size() != n + 1 || r.toks.back().type != Token::NIL) fail("expected " + std::to_string(n) + " tokens: " + showToks(r.toks));
            for (size_t i = 0; i < n; ++i)
                if (r.toks[i].type != want[i].type || !sameValue(r.toks[i], want[i])) fail("token " + std::to_string(i) + " (" + quote(parts[i]) + ") read as " + showTok(r.toks[i]));
        }
        c.label(touching ? "touching" : "spaced-only");
        if (n >= 3) c.nontrivial(tight);
        // Runs of operator characters split by longest match.
        std::string ops; size_t m = 1 + t.below(8);
        for (size_t i = 0; i < m; ++i) ops += pickChar(t, "<<>>==!.**-+(){}[],:/%~|&#^?");
        c.evaluation(); c.note("ops " + quote(ops));
        if (compareWithReference(ops, c) > 1) c.nontrivial(ops);
    }
}
PROPERTY({"C05", "Random token sequences (all operators, literals, words, keywords; up to 25 tokens) rendered with random white space and with as little white space as is unambiguous, plus random runs of operator characters against a longest-match reference. Non-trivial: at least 3 tokens / 2 operators.", 48000, 480000, streams});

// ---------------------------------------------------------------- C06
void locations(Tape& t, Ctx& c) {
    for (int k = 0; k < 3; ++k) {
        c.evaluation();
        size_t n = 1 + t.size(30); std::string text = ws(t, 0), prev;
        if (t.chance(1, 300)) n = 31 + t.below(2000);
        if (t.chance(1, 100)) text += repeatTo(t.flip() ? " " : "\t\n", longSize(t));
        std::vector<std::pair<size_t, size_t>> span; std::vector<std::string> parts;
        for (size_t i = 0; i < n; ++i) {
            auto p = tokenText(t);
            if (i && !(canTouch(prev, p) && t.flip())) text += ws(t, 1);
            span.push_back({text.size(), text.size() + p.size()});
            text += p; parts.push_back(p); prev = p;
        }
        text += ws(t, 0);
        c.note(quote(text));
        auto r = lex(text);
        if (!r.ok) fail("rejected: " + r.err);
        if (r.toks.size() != n + 1) fail("expected " + std::to_string(n) + " tokens: " + showToks(r.toks));
        for (size_t i = 0; i < n; ++i) {
            auto& tok = r.toks[i];
            size_t prefix = 0; // location of r'' / re'' literals starts at the quote
            if ((tok.type == Token::STRING || tok.type == Token::REGEXP)) prefix = parts[i].find_first_of("'\"");
            bool beginOk = tok.begin == span[i].first + prefix || tok.begin == span[i].first;
            if (!beginOk || tok.end != span[i].second)
                fail("token " + std::to_string(i) + " written at " + std::to_string(span[i].first) + ".." + std::to_string(span[i].second) + " is located at " + showTok(tok));
            // The located text alone reads as the same token.
            auto again = lex(text.substr(span[i].first, tok.end - span[i].first));
            if (!again.ok || again.toks.size() != 2 || again.toks[0].type != tok.type || again.toks[0].value != tok.value)
                fail("text at the location of " + showTok(tok) + " does not read as that token");
        }
        c.label(n >= 8 ? "long" : "short");
        if (n >= 3) c.nontrivial(text);
    }
}
PROPERTY({"C06", "Random token sequences (up to 31 tokens) with random spacing; every reported location must be the span the token was written at, and that span alone must read back as the same token. Non-trivial: at least 3 tokens.", 80000, 800000, locations});

// ---------------------------------------------------------------- C07
const char* const SNIPPETS[] = {"a.b.c", "any(", "count(**.a)", "re'", "r\"", "\\", "0x", "0b", "1e5", ".5", "1.", "...", "**", "'", "\"", "{", "}",
    "range(1,10)...", "typeof", " as ", "null", "==", "!=", "!", ">>", "<<", "1e", "1e-", "0x1F", "0b101", "$sum", "_", "#", "?", "and", "\n", "\t", "@", "`", ";", "0.0e0", "99999999999999999999", "9223372036854775807", "9223372036854775808", "0xFFFFFFFFFFFFFFFF", "re", "r", "\\ ", "'\\'", "\\'", "\x80", "\xff"};
std::string anyInput(Tape& t) {
    std::string s;
    if (t.chance(1, 100)) { // a long, mostly valid beginning
        auto unit = tokenText(t) + ws(t, t.below(2)); size_t n = longSize(t);
        while (s.size() < n) { s += unit; if (t.chance(1, 16)) unit = tokenText(t) + ws(t, 1); }
    }
    switch (t.weighted({4, 3, 2})) {
    case 0: { size_t n = t.size(30); for (size_t i = 0; i < n; ++i) switch (t.weighted({3, 2, 2, 1})) {
        case 0: s += SNIPPETS[t.below(std::size(SNIPPETS))]; break;
        case 1: s += tokenText(t); break;
        case 2: s += pickChar(t, " \t.0123456789eExXbBrR'\"\\_$"); break;
        default: s += static_cast<char>(t.below(256)); }
        break; }
    case 1: { size_t n = t.size(64); for (size_t i = 0; i < n; ++i) s += pickChar(t, " .0123456789abcdefxXbBeErR'\"\\_$-+<>=!*()"); break; }
    default: { size_t n = t.size(64); for (size_t i = 0; i < n; ++i) s += static_cast<char>(t.below(256)); }
    }
    return s;
}
void robustness(Tape& t, Ctx& c) {
    for (int k = 0; k < 6; ++k) {
        c.evaluation();
        auto in = anyInput(t);
        c.note(quote(in));
        // An exact-size heap copy, so that reading past the end is caught.
        std::vector<char> heap(in.begin(), in.end());
        std::string_view view(heap.data(), heap.size());
        try {
            auto toks = tokenize(view);
            if (toks.empty() || toks.back().type != Token::NIL) fail("no end marker for " + quote(in));
            for (size_t i = 0; i + 1 < toks.size(); ++i) {
                auto& k2 = toks[i];
                if (k2.type == Token::NIL) fail("end marker before the end of " + quote(in) + ": " + showToks(toks));
                if (k2.begin >= k2.end || k2.end > in.size() || (i && k2.begin < toks[i - 1].end)) fail("bad location in " + quote(in) + ": " + showToks(toks));
                bool str = k2.type == Token::STRING || k2.type == Token::REGEXP || k2.type == Token::WORD;
                if (str != std::holds_alternative<std::string>(k2.value) || (k2.type == Token::INT) != std::holds_alternative<int64_t>(k2.value) || (k2.type == Token::FLOAT) != std::holds_alternative<double>(k2.value))
                    fail("value kind does not fit token " + showTok(k2));
                (void)k2.toString();
            }
        } catch (const std::runtime_error&) {}
        auto n = compareWithReference(in, c);
        if (in.size() >= 2) c.nontrivial(in);
        c.label(n > 4 ? "many-tokens" : "few-tokens");
    }
}
PROPERTY({"C07", "Arbitrary byte strings, strings over the language's alphabet and concatenations of tricky snippets (lengths up to several hundred bytes), in an exact-size heap buffer under ASan/UBSan, compared with an independent reference lexer. Non-trivial: at least 2 bytes.", 80000, 1000000, robustness});

} // namespace
