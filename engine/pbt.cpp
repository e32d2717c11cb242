#include "pbt.h"

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <memory>
#include <new>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
extern "C" const char* __asan_default_options() {
    return "exitcode=86:abort_on_error=0:detect_leaks=0:handle_segv=1:handle_sigfpe=1:"
           "handle_sigill=1:handle_abort=1:allocator_may_return_null=0:hard_rss_limit_mb=3000:"
           "max_allocation_size_mb=2000:detect_odr_violation=0:color=never:quarantine_size_mb=32:"
           "malloc_context_size=6:symbolize=0";
}
extern "C" const char* __ubsan_default_options() {
    return "print_stacktrace=0:halt_on_error=1:exitcode=86:color=never";
}
#endif
#if __has_feature(thread_sanitizer)
extern "C" const char* __tsan_default_options() {
    return "exitcode=86:halt_on_error=1:report_signal_unsafe=0:color=never:history_size=4:second_deadlock_stack=1:symbolize=0";
}
#endif
#endif

namespace pbt { static inline void mine(uint64_t); static uint8_t *g_counters, *g_countersEnd; }
#if !__has_feature(thread_sanitizer)
extern "C" {
void __sanitizer_cov_trace_const_cmp1(uint8_t c, uint8_t) { pbt::mine(c); }
void __sanitizer_cov_trace_const_cmp2(uint16_t c, uint16_t) { pbt::mine(static_cast<uint64_t>(static_cast<int64_t>(static_cast<int16_t>(c)))); }
void __sanitizer_cov_trace_const_cmp4(uint32_t c, uint32_t) { pbt::mine(static_cast<uint64_t>(static_cast<int64_t>(static_cast<int32_t>(c)))); }
void __sanitizer_cov_trace_const_cmp8(uint64_t c, uint64_t) { pbt::mine(c); }
void __sanitizer_cov_8bit_counters_init(uint8_t* begin, uint8_t* end) { pbt::g_counters = begin; pbt::g_countersEnd = end; }
void __sanitizer_cov_trace_switch(uint64_t, uint64_t* cases) {
    for (uint64_t i = 0; i < cases[0]; ++i) pbt::mine(cases[1] < 64 ? static_cast<uint64_t>(static_cast<int64_t>(static_cast<int32_t>(cases[2 + i]))) : cases[2 + i]);
}
}
#endif

namespace pbt {

// Constants mined from comparisons of the code under test while cases run.
static struct Mined {
    static constexpr size_t Max = 4096;
    uint64_t list[Max];
    uint64_t seen[1024];
    size_t count = 0;
    bool on = false;
} g_mined;
static inline void mine(uint64_t c) {
    if (!g_mined.on || (c + 7) < 15 || g_mined.count == Mined::Max) return;
    auto& slot = g_mined.seen[(c * 0x9e3779b97f4a7c15ull) >> 54];
    if (slot == c) return;
    slot = c;
    for (size_t i = 0; i < g_mined.count; ++i) if (g_mined.list[i] == c) return;
    g_mined.list[g_mined.count++] = c;
}

namespace {
constexpr size_t MAX_DRAWS = 1u << 18;
constexpr size_t MAX_NOTE = 1u << 16;
enum Outcome : uint32_t { RUNNING = 0, PASS = 1, FAIL = 2, TIMEOUT = 3, CRASH = 4, OVERRUN = 5 };
double now() {
    timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
}

struct Shared {
    volatile uint32_t outcome;
    volatile uint64_t caseIndex;
    volatile uint64_t casesDone;
    volatile uint64_t ndraws;
    volatile uint64_t nnote;
    volatile uint64_t nmsg;
    char note[MAX_NOTE];
    char msg[MAX_NOTE];
    uint64_t draws[MAX_DRAWS];
};

static Shared* makeShared() {
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return static_cast<Shared*>(p);
}
static void resetShared(Shared* s) { s->outcome = RUNNING; s->ndraws = 0; s->nnote = 0; s->nmsg = 0; }

// ---------------------------------------------------------------- Tape
struct TapeOverrun {};

uint64_t Tape::raw() {
    state_ += 0x9e3779b97f4a7c15ull;
    uint64_t x = state_;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
void Tape::record(uint64_t v) {
    log_.push_back(v);
    if (sh_) {
        if (sh_->ndraws >= MAX_DRAWS) throw TapeOverrun{};
        sh_->draws[sh_->ndraws] = v;
        sh_->ndraws = sh_->ndraws + 1;
    }
}
// Constants which the code under test compared something with (see mine()).
// A draw from a large range is sometimes one of them, or a neighbour of one.
bool Tape::mined(uint64_t base, uint64_t n, uint64_t& v) {
    if (n < 64 || !g_mined.count) return false;
    const uint64_t r = raw();
    if (r % 16) return false;
    uint64_t c = g_mined.list[(r >> 8) % g_mined.count];
    switch ((r >> 40) % 6) { case 0: ++c; break; case 1: --c; break; default: break; }
    c -= base;
    if (c >= n) return false;
    v = c;
    return true;
}
uint64_t Tape::below(uint64_t n, uint64_t base) {
    if (n <= 1) return 0;
    uint64_t v;
    if (pos_ < replay_.size()) v = replay_[pos_++] % n;
    else if (replaying_) v = 0;
    else if (!mined(base, n, v)) v = raw() % n;
    record(v);
    return v;
}
uint64_t Tape::u64() {
    uint64_t v;
    if (pos_ < replay_.size()) v = replay_[pos_++];
    else if (replaying_) v = 0;
    else if (!mined(0, ~0ull, v)) v = raw();
    record(v);
    return v;
}

void Ctx::note(std::string_view s) {
    notes.append(s); notes.push_back('\n');
    if (sh_) {
        uint64_t n = sh_->nnote;
        size_t k = std::min<size_t>(s.size(), MAX_NOTE - 1 - n);
        memcpy(sh_->note + n, s.data(), k); n += k;
        if (n < MAX_NOTE - 1) sh_->note[n++] = '\n';
        sh_->nnote = n;
    }
}

std::string quote(std::string_view s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else if (c == '\r') o += "\\r";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
        else o += static_cast<char>(c);
    }
    return o + "\"";
}

static std::vector<Prop>& props() { static std::vector<Prop> p; return p; }
void registerProp(const Prop& p) { props().push_back(p); }

// ---------------------------------------------------------------- running one case
static std::string jsonStr(std::string_view s) {
    std::string o = "\"";
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        switch (c) {
        case '"': o += "\\\""; break;
        case '\\': o += "\\\\"; break;
        case '\n': o += "\\n"; break;
        case '\t': o += "\\t"; break;
        case '\r': o += "\\r"; break;
        default:
            if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
            else o += static_cast<char>(c);
        }
    }
    return o + "\"";
}

static Shared* g_sig_shared = nullptr;
static void onCpuLimit(int) {
    if (g_sig_shared) g_sig_shared->outcome = TIMEOUT;
    _exit(77);
}
static void armCpu(unsigned seconds) {
    itimerval it{}; it.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &it, nullptr);
}

// Returns PASS/FAIL/OVERRUN; crashes propagate as process death.
static Outcome runCase(const Prop& p, Tape& t, Ctx& c, Shared* sh, std::string& msg) {
    Outcome out = PASS;
    try {
        p.fn(t, c);
    } catch (const Failure& f) {
        out = FAIL; msg = f.msg;
    } catch (const TapeOverrun&) {
        out = OVERRUN;
    } catch (const std::bad_alloc& e) {
        out = FAIL; msg = std::string("unexpected exception: bad_alloc ") + e.what();
    } catch (const std::exception& e) {
        out = FAIL; msg = std::string("unexpected exception: ") + e.what();
    }
    if (sh && out == FAIL) {
        size_t k = std::min(msg.size(), MAX_NOTE - 1);
        memcpy(sh->msg, msg.data(), k); sh->nmsg = k;
    }
    return out;
}

struct Verdict { Outcome out; std::string msg, note; std::vector<uint64_t> draws; };

static std::string crashLine(const std::string& file, int status) {
    std::string line, hit;
    std::ifstream f(file);
    while (std::getline(f, line)) {
        if (line.find("ERROR: AddressSanitizer") != std::string::npos ||
            line.find("WARNING: ThreadSanitizer") != std::string::npos ||
            line.find("runtime error:") != std::string::npos ||
            line.find("Assertion") != std::string::npos ||
            line.find("terminate called") != std::string::npos ||
            line.find("hard rss limit") != std::string::npos ||
            line.find("what()") != std::string::npos) {
            hit += (hit.empty() ? "" : " | ") + line;
            if (hit.size() > 600) break;
        }
    }
    std::string st;
    if (WIFSIGNALED(status)) st = "killed by signal " + std::to_string(WTERMSIG(status));
    else st = "exit status " + std::to_string(WEXITSTATUS(status));
    return "process died (" + st + ")" + (hit.empty() ? "" : ": " + hit);
}

// ---------------------------------------------------------------- coverage guidance
// Tapes which took the code under test where no tape of this worker had been before (an edge, or a
// number of passes of an edge) are kept; some cases are variations of a kept tape, preferably of one
// that went where few cases go.
class Corpus {
public:
    Corpus() : hits_(size_t(g_countersEnd - g_counters) * 8) {}
    bool empty() const { return entries_.empty(); }
    size_t size() const { return entries_.size(); }
    size_t edges() const { size_t n = 0; for (size_t i = 0; i < hits_.size(); i += 8) n += std::any_of(&hits_[i], &hits_[i] + 8, [](auto h) { return h > 0; }); return n; }
    void begin() { memset(g_counters, 0, g_countersEnd - g_counters); }
    void end(const std::vector<uint64_t>& tape) {
        size_t fresh = SIZE_MAX;
        const size_t n = g_countersEnd - g_counters;
        for (size_t i = 0; i < n;) {
            uint64_t w;
            if (i + 8 <= n && !(reinterpret_cast<uintptr_t>(g_counters + i) & 7)) { memcpy(&w, g_counters + i, 8); if (!w) { i += 8; continue; } }
            if (const auto c = g_counters[i]) {
                const size_t f = i * 8 + (c < 4 ? c - 1 : c < 8 ? 3 : c < 16 ? 4 : c < 32 ? 5 : c < 128 ? 6 : 7);
                if (hits_[f]++ == 0 && fresh == SIZE_MAX) fresh = f;
            }
            ++i;
        }
        if (fresh != SIZE_MAX && !tape.empty() && tape.size() <= 20000) entries_.push_back({tape, fresh});
    }
    // A variation of one of the tapes.
    std::vector<uint64_t> vary(uint64_t seed) {
        uint64_t s = seed;
        auto rnd = [&](uint64_t n) { s = mix64(s + 1); return s % n; };
        size_t best = rnd(entries_.size());
        for (int i = 0; i < 12; ++i) { auto k = rnd(entries_.size()); if (hits_[entries_[k].feature] < hits_[entries_[best].feature]) best = k; }
        auto t = entries_[best].tape;
        switch (rnd(8)) {
        case 0: case 1: t.resize(rnd(t.size() + 1)); break;                       // another end
        case 2: { auto& o = entries_[rnd(entries_.size())].tape; t.resize(rnd(t.size() + 1)); t.insert(t.end(), o.begin() + ptrdiff_t(rnd(o.size())), o.end()); break; }
        case 3: { auto a = rnd(t.size()), n = std::min<uint64_t>(1 + rnd(16), t.size() - a); t.erase(t.begin() + ptrdiff_t(a), t.begin() + ptrdiff_t(a + n)); break; }
        case 4: { auto a = rnd(t.size()), n = std::min<uint64_t>(1 + rnd(16), t.size() - a); std::vector<uint64_t> c(t.begin() + ptrdiff_t(a), t.begin() + ptrdiff_t(a + n)); t.insert(t.begin() + ptrdiff_t(rnd(t.size() + 1)), c.begin(), c.end()); break; }
        default: for (auto k = 1 + rnd(4); k--;) { auto& x = t[rnd(t.size())]; switch (rnd(4)) { case 0: x = rnd(4); break; case 1: ++x; break; default: x = rnd(UINT64_MAX); } }
        }
        return t;
    }
private:
    struct Entry { std::vector<uint64_t> tape; size_t feature; };
    std::vector<Entry> entries_;
    std::vector<uint32_t> hits_;
};

static std::string g_tmp;

// Run one tape in a forked child.
static Verdict runForked(const Prop& p, const std::vector<uint64_t>& tape, bool thorough, Shared* sh) {
    resetShared(sh);
    std::string err = g_tmp + "/replay.err";
    std::cout.flush(); fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        if (fd >= 0) { dup2(fd, 2); close(fd); }
        int nul = open("/dev/null", O_WRONLY); if (nul >= 0) { dup2(nul, 1); close(nul); }
        g_sig_shared = sh;
        signal(SIGPROF, onCpuLimit);
        armCpu(p.cpuLimit);
        Tape t(tape, sh); Ctx c(sh, thorough); std::string msg;
        sh->outcome = runCase(p, t, c, sh, msg);
        _exit(0);
    }
    int status = 0;
    double t0 = now();
    bool killed = false;
    for (;;) {
        pid_t r = waitpid(pid, &status, WNOHANG);
        if (r == pid) break;
        if (now() - t0 > p.cpuLimit * 6.0 + 60) { kill(pid, SIGKILL); killed = true; waitpid(pid, &status, 0); break; }
        usleep(now() - t0 < 0.05 ? 200 : 2000);
    }
    Verdict v;
    v.out = static_cast<Outcome>(static_cast<uint32_t>(sh->outcome));
    v.draws.assign(sh->draws, sh->draws + sh->ndraws);
    v.note.assign(sh->note, sh->nnote);
    v.msg.assign(sh->msg, sh->nmsg);
    if (killed) { v.out = TIMEOUT; v.msg = "no progress (deadlock or endless wait)"; }
    else if (v.out == TIMEOUT) v.msg = "did not terminate within " + std::to_string(p.cpuLimit) + " s of CPU time";
    else if (v.out == RUNNING) { v.out = CRASH; v.msg = crashLine(err, status); }
    return v;
}

// ---------------------------------------------------------------- shrinking
static bool bad(Outcome o) { return o == FAIL || o == CRASH || o == TIMEOUT; }

static Verdict shrink(const Prop& p, Verdict best, bool thorough, Shared* sh, double budget, uint64_t& tries) {
    double t0 = now();
    const bool inProc = best.out == FAIL;
    auto attempt = [&](const std::vector<uint64_t>& cand) -> bool {
        if (now() - t0 > budget) return false;
        ++tries;
        Verdict v;
        // A crash may hide behind a candidate of an ordinary failure, so
        // every candidate runs in a child of its own.
        v = runForked(p, cand, thorough, sh);
        (void)inProc;
        if (!bad(v.out)) return false;
        // Keep the kind of failure while shrinking.
        if (v.out != best.out) return false;
        bool smaller = v.draws.size() < best.draws.size() ||
            (v.draws.size() == best.draws.size() && v.draws < best.draws);
        if (!smaller) return false;
        best = std::move(v);
        return true;
    };
    bool progress = true;
    while (progress && now() - t0 < budget) {
        progress = false;
        // Truncate.
        for (size_t k = best.draws.size() / 2; k >= 1; k /= 2) {
            while (best.draws.size() > k) {
                auto c = best.draws; c.resize(c.size() - k);
                if (!attempt(c)) break;
                progress = true;
            }
        }
        // Delete chunks.
        for (size_t k : {64, 32, 16, 8, 6, 4, 3, 2, 1}) {
            for (size_t i = best.draws.size(); i-- > 0;) {
                if (now() - t0 > budget) break;
                if (i + k > best.draws.size()) continue;
                auto c = best.draws;
                c.erase(c.begin() + i, c.begin() + i + k);
                if (attempt(c)) { progress = true; }
            }
        }
        // Delete one item and decrement an earlier count.
        for (size_t i = 0; i + 1 < best.draws.size(); ++i) {
            if (now() - t0 > budget) break;
            if (best.draws[i] == 0 || best.draws[i] > 64) continue;
            for (size_t k : {1, 2, 3, 4, 6, 8}) {
                for (size_t j : {i + 1, i + 1 + k}) {
                    if (i >= best.draws.size() || best.draws[i] == 0 || j + k > best.draws.size()) continue;
                    auto c = best.draws; c[i] -= 1;
                    c.erase(c.begin() + j, c.begin() + j + k);
                    if (attempt(c)) progress = true;
                }
            }
        }
        // Zero, then lower single values.
        for (size_t i = 0; i < best.draws.size(); ++i) {
            if (now() - t0 > budget) break;
            if (best.draws[i] == 0) continue;
            auto c = best.draws; c[i] = 0;
            if (attempt(c)) { progress = true; continue; }
            uint64_t lo = 0, hi = best.draws[i];
            unsigned steps = 0;
            while (i < best.draws.size() && lo + 1 < hi && steps++ < 70 && now() - t0 < budget) {
                uint64_t mid = lo + (hi - lo) / 2;
                c = best.draws; c[i] = mid;
                if (attempt(c)) { hi = mid; progress = true; } else lo = mid;
            }
        }
    }
    return best;
}

// ---------------------------------------------------------------- main
static void writeReplay(const std::string& path, const Prop& p, const Verdict& v, const std::string& tier, uint64_t seed, uint64_t caseIndex) {
    std::ofstream f(path);
    f << "{\n \"property\": " << jsonStr(p.id) << ",\n \"tier\": " << jsonStr(tier)
      << ",\n \"seed\": " << seed << ",\n \"case\": " << caseIndex
      << ",\n \"failure\": " << jsonStr(v.msg) << ",\n \"input\": " << jsonStr(v.note) << ",\n \"tape\": [";
    for (size_t i = 0; i < v.draws.size(); ++i) f << (i ? "," : "") << v.draws[i];
    f << "]\n}\n";
}

static std::vector<uint64_t> readTape(const std::string& path) {
    std::ifstream f(path); std::stringstream ss; ss << f.rdbuf();
    std::string s = ss.str();
    auto k = s.rfind("\"tape\"");
    std::vector<uint64_t> out;
    if (k == std::string::npos) return out;
    k = s.find('[', k);
    const char* c = s.c_str() + k + 1;
    while (*c && *c != ']') {
        char* e; uint64_t v = strtoull(c, &e, 10);
        if (e == c) { ++c; continue; }
        out.push_back(v); c = e;
    }
    return out;
}

struct Merged {
    uint64_t evaluations = 0, cases = 0, nontrivialCases = 0, overruns = 0;
    std::map<std::string, uint64_t> labels;
    std::unordered_set<uint64_t> hashes;
    std::vector<std::string> samples;
};

static void dumpWorker(const std::string& path, const Merged& m) {
    std::ofstream f(path, std::ios::binary);
    auto w = [&](uint64_t v) { f.write(reinterpret_cast<const char*>(&v), 8); };
    auto ws = [&](const std::string& s) { w(s.size()); f.write(s.data(), s.size()); };
    w(m.evaluations); w(m.cases); w(m.nontrivialCases); w(m.overruns);
    w(m.labels.size()); for (auto& [k, v] : m.labels) { ws(k); w(v); }
    w(m.hashes.size()); for (auto h : m.hashes) w(h);
    w(m.samples.size()); for (auto& s : m.samples) ws(s);
}
static bool loadWorker(const std::string& path, Merged& m) {
    std::ifstream f(path, std::ios::binary);
    if (!f) return false;
    auto r = [&] { uint64_t v = 0; f.read(reinterpret_cast<char*>(&v), 8); return v; };
    auto rs = [&] { std::string s(r(), '\0'); f.read(s.data(), s.size()); return s; };
    m.evaluations += r(); m.cases += r(); m.nontrivialCases += r(); m.overruns += r();
    for (uint64_t n = r(); n-- && f;) { auto k = rs(); m.labels[k] += r(); }
    for (uint64_t n = r(); n-- && f;) m.hashes.insert(r());
    for (uint64_t n = r(); n-- && f;) m.samples.push_back(rs());
    return true;
}

int engineMain(int argc, char** argv) {
    std::string id, tier = "quick", evidence, replayDir = ".", replayFile;
    uint64_t seed = 1, cases = 0; unsigned workers = 0; double maxWall = 600; bool dump = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") id = next();
        else if (a == "--tier") tier = next();
        else if (a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--evidence") evidence = next();
        else if (a == "--replays") replayDir = next();
        else if (a == "--replay") replayFile = next();
        else if (a == "--cases") cases = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--workers") workers = strtoul(next().c_str(), nullptr, 10);
        else if (a == "--max-wall") maxWall = strtod(next().c_str(), nullptr);
        else if (a == "--dump") dump = true;
    }
    const Prop* pp = nullptr;
    for (auto& p : props()) if (id == p.id) pp = &p;
    if (!pp) { std::cerr << "no such property: " << id << "\n"; return 3; }
    const Prop& p = *pp;
    const bool thorough = tier == "thorough";
    if (!cases) cases = thorough ? p.thorough : p.quick;
    if (!workers) workers = p.workers;
    if (const char* w = getenv("PBT_WORKERS")) workers = std::max(1, atoi(w));

    char tmpl[] = "/tmp/pbt.XXXXXX";
    const char* base = mkdtemp(tmpl);
    if (!base) { perror("mkdtemp"); return 3; }
    g_tmp = base;
    struct Cleanup { std::string d; pid_t pid = getpid(); ~Cleanup() {
        if (getpid() != pid) return;
        for (int i = 0; i < 64; ++i) { unlink((d + "/w" + std::to_string(i) + ".err").c_str()); unlink((d + "/w" + std::to_string(i) + ".out").c_str()); }
        unlink((d + "/replay.err").c_str()); rmdir(d.c_str()); } } cleanup{g_tmp};

    if (!replayFile.empty()) {
        Shared* sh = makeShared();
        auto v = runForked(p, readTape(replayFile), thorough, sh);
        std::cout << v.note << "\n";
        if (bad(v.out)) { std::cout << "FAIL: " << v.msg << "\nVIOLATION property=" << p.id << " replay=" << replayFile << "\n"; return 1; }
        std::cout << "no failure on this input\n";
        return 0;
    }

    const double t0 = now();
    std::vector<Shared*> sh(workers);
    std::vector<pid_t> pids(workers, -1);
    std::cout.flush(); fflush(nullptr);
    const uint64_t idHash = hashStr(p.id);
    for (unsigned w = 0; w < workers; ++w) {
        sh[w] = makeShared(); resetShared(sh[w]);
        pid_t pid = fork();
        if (pid == 0) {
            std::string err = g_tmp + "/w" + std::to_string(w) + ".err";
            int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            if (fd >= 0) { dup2(fd, 2); close(fd); }
            if (!dump) { int nul = open("/dev/null", O_WRONLY); if (nul >= 0) { dup2(nul, 1); close(nul); } }
            g_sig_shared = sh[w];
            signal(SIGPROF, onCpuLimit);
            Merged m;
            Corpus corpus;
            const bool guided = (thorough || getenv("PBT_GUIDED")) && g_counters;
            for (uint64_t i = w; i < cases; i += workers) {
                if (now() - t0 > maxWall) break;
                resetShared(sh[w]);
                sh[w]->caseIndex = i;
                armCpu(p.cpuLimit);
                uint64_t caseSeed = mix64(seed * 0x9E3779B97F4A7C15ull + i) ^ idHash;
                const bool vary = guided && (i / workers) % 3 == 2 && !corpus.empty();
                Tape t(caseSeed, vary ? corpus.vary(caseSeed) : std::vector<uint64_t>(), sh[w]); Ctx c(sh[w], thorough); std::string msg;
                if (vary) ++m.labels["engine: variation of a tape"];
                if (guided) corpus.begin();
                g_mined.on = true;
                Outcome o = runCase(p, t, c, sh[w], msg);
                g_mined.on = false;
                if (guided && o == PASS) corpus.end(t.draws());
                armCpu(0);
                if (dump) std::cout << "---- case " << i << "\n" << c.notes << std::flush;
                m.cases += 1;
                m.evaluations += c.evaluations ? c.evaluations : 1;
                for (auto& [k, v] : c.labels) m.labels[k] += v;
                if (c.isNontrivial) {
                    m.nontrivialCases++;
                    if (m.hashes.size() < 4000000) m.hashes.insert(c.hashes.begin(), c.hashes.end());
                    if (m.samples.size() < 2 || (m.samples.size() < 4 && mix64(i) % 97 == 0)) m.samples.push_back(c.notes.substr(0, 1200));
                }
                if (o == OVERRUN) m.overruns++;
                sh[w]->casesDone = sh[w]->casesDone + 1;
                if (o == FAIL) { sh[w]->outcome = FAIL; break; }
                sh[w]->outcome = PASS;
            }
            if (dump && guided) std::cout << "corpus " << corpus.size() << " edges " << corpus.edges() << " of " << g_countersEnd - g_counters << std::endl;
            if (dump) { std::cout << "mined"; for (size_t i = 0; i < g_mined.count; ++i) std::cout << ' ' << static_cast<int64_t>(g_mined.list[i]); std::cout << std::endl; }
            dumpWorker(g_tmp + "/w" + std::to_string(w) + ".out", m);
            _exit(sh[w]->outcome == FAIL ? 42 : 0);
        }
        pids[w] = pid;
    }

    // Collect; the first failing worker decides, the others are stopped.
    int failing = -1; int failStatus = 0; bool deadlock = false;
    unsigned alive = workers;
    std::vector<uint64_t> lastDone(workers, 0); std::vector<double> lastMove(workers, now());
    std::vector<double> lastCpu(workers, 0);
    while (alive) {
        int status; pid_t pid = waitpid(-1, &status, WNOHANG);
        if (pid > 0) {
            for (unsigned w = 0; w < workers; ++w) if (pids[w] == pid) {
                pids[w] = -1; --alive;
                bool ok = WIFEXITED(status) && WEXITSTATUS(status) == 0;
                if (!ok && failing < 0) {
                    failing = w; failStatus = status;
                    for (auto q : pids) if (q > 0) kill(q, SIGKILL);
                }
            }
            continue;
        }
        usleep(5000);
        double t = now();
        for (unsigned w = 0; w < workers; ++w) {
            if (pids[w] < 0) continue;
            clockid_t cid; timespec ts{};
            double cpu = lastCpu[w];
            if (clock_getcpuclockid(pids[w], &cid) == 0 && clock_gettime(cid, &ts) == 0) cpu = ts.tv_sec + ts.tv_nsec * 1e-9;
            if (sh[w]->casesDone != lastDone[w] || cpu > lastCpu[w] + 0.02) { lastDone[w] = sh[w]->casesDone; lastCpu[w] = cpu; lastMove[w] = t; }
            // A process that neither finishes a case nor uses the CPU is stuck on a lock.
            else if (t - lastMove[w] > 40 && failing < 0) {
                failing = w; deadlock = true;
                for (auto q : pids) if (q > 0) kill(q, SIGKILL);
            }
        }
    }

    Merged m;
    for (unsigned w = 0; w < workers; ++w) {
        if (!loadWorker(g_tmp + "/w" + std::to_string(w) + ".out", m)) { m.cases += sh[w]->casesDone; m.evaluations += sh[w]->casesDone; }
    }

    int rc = 0; uint64_t violations = 0; std::string failMsg; 
    if (failing >= 0) {
        Shared* s = sh[failing];
        Verdict v;
        v.draws.assign(s->draws, s->draws + s->ndraws);
        v.note.assign(s->note, s->nnote);
        v.msg.assign(s->msg, s->nmsg);
        v.out = static_cast<Outcome>(static_cast<uint32_t>(s->outcome));
        uint64_t failedCase = s->caseIndex;
        if (deadlock) { v.out = TIMEOUT; v.msg = "no progress (deadlock or endless wait)"; }
        else if (v.out == TIMEOUT) v.msg = "did not terminate within " + std::to_string(p.cpuLimit) + " s of CPU time";
        else if (v.out != FAIL) { v.out = CRASH; v.msg = crashLine(g_tmp + "/w" + std::to_string(failing) + ".err", failStatus); }
        // Replay before believing it. Schedules differ between replays, so a
        // concurrent case gets more tries.
        Shared* rs = makeShared();
        const unsigned want = v.out == TIMEOUT ? 1 : 3;
        unsigned seen = 0, tried = 0, maxTries = p.workers < 8 ? 12 : 4;
        if (v.out == TIMEOUT) maxTries = 2;
        Verdict last = v;
        while (tried < maxTries && seen < want) {
            ++tried;
            auto r = runForked(p, v.draws, thorough, rs);
            if (bad(r.out)) { ++seen; last = r; }
        }
        std::cout << p.id << ": failure in case " << failedCase << ", reproduced " << seen << " of " << tried << " replays: " << v.msg << "\n";
        const bool sanitizerReport = v.msg.find("Sanitizer") != std::string::npos;
        if (seen == 0 && v.out != FAIL && !(sanitizerReport && p.workers < 8) && !deadlock) {
            // For instance a worker ended by the machine: not evidence of a violation.
            std::cerr << "not reproducible, worker ended by the environment?\n" << v.msg << "\n";
            return 4;
        }
        uint64_t tries = 0;
        Verdict best = seen ? last : v;
        if (seen == tried && v.out != TIMEOUT) best = shrink(p, last, thorough, rs, thorough ? 60 : 15, tries);
        mkdir(replayDir.c_str(), 0755);
        std::string path = replayDir + "/" + p.id + "-" + std::to_string(seed) + "-" + std::to_string(failedCase) + ".json";
        writeReplay(path, p, best, tier, seed, failedCase);
        std::cout << "--- minimal case after " << tries << " shrink attempts ---\n" << best.note
                  << "--- " << best.msg << "\n";
        std::cout << "VIOLATION property=" << p.id << " replay=" << path << "\n";
        failMsg = best.msg; violations = 1; rc = 1;
    }

    if (!evidence.empty()) {
        std::ofstream f(evidence);
        f << "{\n \"property\": " << jsonStr(p.id) << ",\n \"tier\": " << jsonStr(tier) << ",\n \"seed\": " << seed
          << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << m.evaluations
          << ",\n  \"cases\": " << m.cases << ",\n  \"nontrivial_cases\": " << m.nontrivialCases
          << ",\n  \"distinct_nontrivial\": " << m.hashes.size()
          << ",\n  \"tape_overruns\": " << m.overruns
          << ",\n  \"rule\": " << jsonStr(p.rule) << ",\n  \"labels\": {";
        bool first = true;
        for (auto& [k, v] : m.labels) { f << (first ? "" : ", ") << jsonStr(k) << ": " << v; first = false; }
        f << "},\n  \"samples\": [";
        size_t n = 0, bytes = 0;
        for (auto& s : m.samples) { if (n >= 8 || bytes > 16000) break; f << (n++ ? ",\n   " : "\n   ") << jsonStr(s); bytes += s.size(); }
        f << "]\n },\n \"wall_s\": " << (now() - t0) << ",\n \"violations\": " << violations << "\n}\n";
    }
    std::cout << p.id << " " << tier << " seed=" << seed << ": " << m.evaluations << " evaluations in " << m.cases
              << " cases, " << m.hashes.size() << " distinct non-trivial, " << (now() - t0) << " s, "
              << (rc ? "VIOLATED" : "held") << "\n";
    return rc;
}

} // namespace pbt

#ifndef PBT_NO_MAIN
int main(int argc, char** argv) { return pbt::engineMain(argc, argv); }
#endif
