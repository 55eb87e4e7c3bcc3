#include "pbt.h"

#include <cstdio>
#include <cstring>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <map>

#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:"
           "detect_stack_use_after_return=0:max_allocation_size_mb=4096:"
           "handle_abort=1:print_legend=0:print_summary=1:symbolize=1:"
           "quarantine_size_mb=16:malloc_context_size=8";
}
extern "C" const char* __ubsan_default_options() {
    return "print_stacktrace=0:halt_on_error=1";
}
#endif

namespace pbt {

// ---------------------------------------------------------------- coverage
static const std::size_t MAP = 1 << 15;
static unsigned char covMap[MAP];
static bool covOn = false;
static unsigned covPrev = 0;

static inline unsigned covHash(std::uintptr_t p) {
    p ^= p >> 4;
    return (unsigned)((p * 0x9E3779B97F4A7C15ull) >> 49);
}

} // namespace pbt
extern "C" __attribute__((no_sanitize("address", "undefined")))
void __sanitizer_cov_trace_pc(void) {
    if (!pbt::covOn) return;
    std::uintptr_t pc = (std::uintptr_t)__builtin_return_address(0);
    unsigned h = pbt::covHash(pc);
    unsigned i = (h ^ pbt::covPrev) & (pbt::MAP - 1);
    if (pbt::covMap[i] != 255) pbt::covMap[i]++;
    pbt::covPrev = h >> 1;
}
namespace pbt {

static unsigned char bucket(unsigned char c) {
    if (c == 0) return 0;
    if (c == 1) return 1;
    if (c == 2) return 2;
    if (c == 3) return 4;
    if (c < 8) return 8;
    if (c < 16) return 16;
    if (c < 32) return 32;
    if (c < 128) return 64;
    return 128;
}

// ------------------------------------------------------------------ globals
std::vector<Prop>& props() { static std::vector<Prop> p; return p; }
std::vector<Known>& knowns() { static std::vector<Known> k; return k; }

static const std::size_t MAXCHOICES = 1 << 16;
struct Shared {                     // one per worker, survives its crash
    volatile std::uint64_t nChoices;
    volatile std::uint64_t caseIdx;
    volatile std::uint64_t progress;
    volatile int state;             // 0 idle, 1 running, 2 timeout
    std::uint64_t choices[MAXCHOICES];
};
static Shared* sh = nullptr;
static std::string scratchDir;
static std::map<std::string, std::uint64_t> excludedCount;
static std::uint64_t progressTick = 0;

std::string scratch() { return scratchDir; }
void excluded(const std::string& w) { excludedCount[w]++; }

static std::uint64_t splitmix(std::uint64_t& s) {
    std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static std::uint64_t hashStr(const std::string& s) {
    std::uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}
static std::uint64_t hashSeq(const std::vector<std::uint64_t>& v) {
    std::uint64_t h = 1469598103934665603ull;
    for (std::uint64_t c : v) {
        h ^= c; h *= 1099511628211ull; h ^= h >> 29;
    }
    return h;
}

// ---------------------------------------------------------------------- Gen
Gen::Gen(Mode mode, std::uint64_t seed, const std::vector<std::uint64_t>& in)
:   mode_(mode), s_(seed), in_(in) {
    log_.precision(17);
}
std::uint64_t Gen::next_() { return splitmix(s_); }

std::uint64_t Gen::draw(std::uint64_t n) {
    std::uint64_t v;
    if (mode_ != RANDOM && pos_ < in_.size()) {
        v = in_[pos_];
        if (n != 0) v %= n;
    } else if (mode_ == REPLAY) {
        v = 0;
    } else {
        v = next_();
        if (n != 0) v %= n;
    }
    pos_++;
    if (rec_.size() >= MAXCHOICES) throw Discard();
    if (sh != nullptr) {
        sh->choices[rec_.size()] = v;
        sh->nChoices = rec_.size() + 1;
    }
    rec_.push_back(v);
    return v;
}
int Gen::range(int lo, int hi) {
    return (int)((std::int64_t)lo + (std::int64_t)draw((std::uint64_t)((std::int64_t)hi - lo) + 1));
}
int Gen::integer(int lo, int hi) {
    int base = lo > 0 ? lo : (hi < 0 ? hi : 0);
    std::uint64_t up = (std::uint64_t)(hi - base), down = (std::uint64_t)(base - lo);
    std::uint64_t v = draw(up + down + 1);
    if (v <= std::min(up, down) * 2) {           // interleave signs near base
        std::uint64_t k = (v + 1) / 2;
        return (v % 2 == 1) ? base + (int)k : base - (int)k;
    }
    std::uint64_t k = v - std::min(up, down);
    return up > down ? base + (int)k : base - (int)k;
}
bool Gen::chance(int num, int den) {
    return draw((std::uint64_t)den) >= (std::uint64_t)(den - num);
}
std::size_t Gen::len(std::size_t lo, std::size_t hi) {
    if (hi <= lo) return lo;
    std::uint64_t k = draw(4);
    std::size_t span = hi - lo;
    if (k == 0) span = std::min<std::size_t>(span, 2);
    else if (k == 1) span = std::min<std::size_t>(span, 5);
    else if (k == 2) span = std::max<std::size_t>(1, span / 2);
    return lo + (std::size_t)draw(span + 1);
}
std::size_t Gen::many(std::size_t lo, std::size_t hi, std::size_t top) {
    if (top > hi && chance(1, 50)) { label("many"); return hi + 1 + (std::size_t)draw(top - hi); }
    return len(lo, hi);
}
double Gen::unit() { return (double)draw(1ull << 53) / (double)(1ull << 53); }
double Gen::simple() { return (double)integer(-32, 32) / 4.0; }
double Gen::real(double lo, double hi) {
    switch (draw(5)) {
    case 0: {                                     // small multiple of 1/2 if inside
        double v = (double)integer(-16, 16) / 2.0;
        if (v >= lo && v <= hi) return v;
        return lo;
    }
    case 1: return draw(2) ? hi : lo;
    case 2: return lo + (hi - lo) * ((double)draw(11) / 10.0);
    default: return lo + (hi - lo) * unit();
    }
}
double Gen::positive(double lo, double hi) {
    switch (draw(4)) {
    case 0: return (1.0 >= lo && 1.0 <= hi) ? 1.0 : lo;
    case 1: { double v = (double)range(1, 16); return std::min(hi, std::max(lo, v)); }
    default: {
        double a = std::log(lo), b = std::log(hi);
        return std::min(hi, std::max(lo, std::exp(a + (b - a) * unit())));
    }
    }
}
double Gen::nonzero(double lo, double hi) {
    double v = positive(lo, hi);
    return draw(2) ? -v : v;
}
double Gen::coord() {
    switch (draw(6)) {
    case 0: return (double)integer(-4, 4);
    case 1: return (double)integer(-40, 40) / 10.0;
    case 2: return (double)integer(-32, 32) / 8.0;
    case 3: return -10.0 + 20.0 * unit();
    case 4: return -100.0 + 200.0 * unit();
    default: return (double)integer(-2, 2);
    }
}
std::string Gen::ident(std::size_t maxLen) {
    static const std::string first =
        "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
    static const std::string rest = first + "0123456789_";
    std::string s(1, first[(std::size_t)draw(first.size())]);
    std::size_t n = (std::size_t)draw(maxLen);
    for (std::size_t i = 0; i < n; i++) s += rest[(std::size_t)draw(rest.size())];
    return s;
}
std::string Gen::text(const std::string& a, std::size_t lo, std::size_t hi) {
    std::size_t n = len(lo, hi);
    std::string s;
    for (std::size_t i = 0; i < n; i++) s += a[(std::size_t)draw(a.size())];
    return s;
}

// ------------------------------------------------------------- running cases
struct Outcome {
    enum Kind { PASS, DISCARD, FAILED } kind = PASS;
    std::string where, msg, log;
    std::set<std::string> labels;
    bool nontrivial = false;
    std::vector<std::uint64_t> choices;
};

static int caseCpuLimit = 20;
static void armTimer(int secs) {
    struct itimerval t;
    memset(&t, 0, sizeof t);
    t.it_value.tv_sec = secs;
    setitimer(ITIMER_PROF, &t, nullptr);
}
static void onProf(int) {
    if (sh) sh->state = 2;
    static const char m[] = "\npbt: case exceeded its CPU limit (no termination)\n";
    ssize_t r = write(2, m, sizeof m - 1); (void)r;
    _exit(78);
}

static void clearDir(const std::string& d) {
    // Removes the contents of a directory this process created under its
    // scratch root; never follows links.
    if (d.find("/verif_pbt_") == std::string::npos) return;
    DIR* h = opendir(d.c_str());
    if (!h) return;
    while (struct dirent* e = readdir(h)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        std::string p = d + "/" + n;
        struct stat st;
        if (lstat(p.c_str(), &st) != 0) continue;
        if (S_ISDIR(st.st_mode)) { clearDir(p); rmdir(p.c_str()); }
        else unlink(p.c_str());
    }
    closedir(h);
}

static Outcome runCase(const Prop& p, Gen& g) {
    Outcome o;
    if (sh) { sh->nChoices = 0; sh->state = 1; sh->progress = ++progressTick; }
    armTimer(caseCpuLimit);
    try {
        p.fn(g);
    } catch (const Failure& f) {
        o.kind = Outcome::FAILED; o.where = f.where; o.msg = f.msg;
    } catch (const Discard&) {
        o.kind = Outcome::DISCARD;
    } catch (const std::exception& e) {
        int st = 0;
        char* dn = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
        o.kind = Outcome::FAILED; o.where = std::string("exception ") + (dn ? dn : "?");
        o.msg = std::string("unexpected exception: ") + e.what();
    } catch (...) {
        o.kind = Outcome::FAILED; o.where = "exception"; o.msg = "unknown exception";
    }
    armTimer(0);
    if (sh) sh->state = 0;
    o.log = g.log();
    o.labels = g.labels();
    o.nontrivial = g.isNontrivial();
    o.choices = g.choices();
    return o;
}

static std::string jsonStr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        switch (c) {
        case '"': r += "\\\""; break;
        case '\\': r += "\\\\"; break;
        case '\n': r += "\\n"; break;
        case '\t': r += "\\t"; break;
        case '\r': r += "\\r"; break;
        default:
            if (c < 0x20 || c >= 0x7f) {
                char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b;
            } else r += (char)c;
        }
    }
    return r + "\"";
}

struct Chunk { std::size_t prop; std::uint64_t index, begin, end; };

static void writeOutcomeFile(const std::string& f, const Outcome& o,
                             std::uint64_t idx) {
    std::ofstream s(f.c_str());
    s << "FAIL " << idx << "\n" << o.where << "\n";
    std::string m = o.msg; std::replace(m.begin(), m.end(), '\n', ' ');
    s << m << "\n" << o.choices.size();
    for (std::uint64_t c : o.choices) s << " " << c;
    s << "\n" << o.log << "\n";
}

static std::uint64_t globalSeed = 1;
static bool guided = true;

static std::uint64_t caseSeed(const Prop& p, std::uint64_t idx) {
    std::uint64_t s = globalSeed * 0x2545F4914F6CDD1Dull ^ hashStr(p.name);
    s += idx * 0xD1342543DE82EF95ull;
    splitmix(s); splitmix(s);
    return splitmix(s);
}

static std::vector<std::uint64_t> mutate(std::vector<std::uint64_t> v,
        const std::vector<std::vector<std::uint64_t>>& corpus, std::uint64_t& s) {
    int n = 1 + (int)(splitmix(s) % 4);
    for (int k = 0; k < n && !v.empty(); k++) {
        std::size_t i = (std::size_t)(splitmix(s) % v.size());
        switch (splitmix(s) % 8) {
        case 0: v[i] = splitmix(s); break;
        case 1: v[i] = splitmix(s) % 4; break;
        case 2: v[i] += 1; break;
        case 3: v[i] -= 1; break;
        case 4: {                                   // delete a block
            std::size_t l = 1 + (std::size_t)(splitmix(s) % 4);
            v.erase(v.begin() + (long)i, v.begin() + (long)std::min(v.size(), i + l));
            break; }
        case 5: {                                   // duplicate a block
            std::size_t l = std::min<std::size_t>(v.size() - i, 1 + (std::size_t)(splitmix(s) % 8));
            std::vector<std::uint64_t> b(v.begin() + (long)i, v.begin() + (long)(i + l));
            v.insert(v.begin() + (long)(i + l), b.begin(), b.end());
            break; }
        case 6: {                                   // splice
            const std::vector<std::uint64_t>& o = corpus[(std::size_t)(splitmix(s) % corpus.size())];
            if (!o.empty()) {
                std::size_t j = (std::size_t)(splitmix(s) % o.size());
                v.resize(i);
                v.insert(v.end(), o.begin() + (long)j, o.end());
            }
            break; }
        default: {                                  // copy one value elsewhere
            std::size_t j = (std::size_t)(splitmix(s) % v.size());
            v[i] = v[j]; }
        }
    }
    if (v.size() > MAXCHOICES / 2) v.resize(MAXCHOICES / 2);
    return v;
}

// Runs cases [begin, end) of a chunk in this process. Returns true if one failed.
static bool runChunk(const Chunk& c, std::uint64_t stopAt, const std::string& out,
                     Outcome* failed) {
    const Prop& p = props()[c.prop];
    std::vector<std::vector<std::uint64_t>> corpus;
    std::vector<unsigned char> seen(MAP, 0);
    std::map<std::string, std::uint64_t> labels;
    std::set<std::uint64_t> distinct;
    std::vector<std::string> samples;
    std::uint64_t evals = 0, discards = 0, nontriv = 0, mutated = 0;
    bool bad = false;
    for (std::uint64_t i = c.begin; i < c.end && i < stopAt; i++) {
        if (sh) sh->caseIdx = i;
        std::uint64_t s = caseSeed(p, i);
        bool mut = guided && !corpus.empty() && splitmix(s) % 5 < 2;
        std::vector<std::uint64_t> in;
        if (mut) {
            in = mutate(corpus[(std::size_t)(splitmix(s) % corpus.size())], corpus, s);
            mutated++;
        }
        Gen g(mut ? Gen::MUTATE : Gen::RANDOM, s, in);
        if (guided) { memset(covMap, 0, MAP); covPrev = 0; covOn = true; }
        Outcome o = runCase(p, g);
        covOn = false;
        evals++;
        if (o.kind == Outcome::FAILED) {
            if (failed) *failed = o;
            if (!out.empty()) writeOutcomeFile(out + ".fail", o, i);
            bad = true;
            break;
        }
        if (o.kind == Outcome::DISCARD) { discards++; continue; }
        for (auto& l : o.labels) labels[l]++;
        if (o.nontrivial) {
            nontriv++;
            distinct.insert(hashSeq(o.choices));
            if (samples.size() < 2 && (samples.empty() || i > c.begin + (c.end - c.begin) / 2))
                samples.push_back(o.log.substr(0, 1500));
        }
        if (guided) {
            bool fresh = false;
            for (std::size_t k = 0; k < MAP; k++) {
                if (covMap[k]) {
                    unsigned char b = bucket(covMap[k]);
                    if ((seen[k] & b) == 0) { seen[k] |= b; fresh = true; }
                }
            }
            if (fresh && o.choices.size() < 4000) {
                if (corpus.size() < 400) corpus.push_back(o.choices);
                else corpus[(std::size_t)(splitmix(s) % corpus.size())] = o.choices;
            }
        }
    }
    if (!out.empty()) {
        std::ofstream s((out + ".stat").c_str());
        s << evals << " " << discards << " " << nontriv << " " << mutated << " "
          << corpus.size() << "\n";
        s << labels.size() << "\n";
        for (auto& l : labels) s << l.second << " " << l.first << "\n";
        s << excludedCount.size() << "\n";
        for (auto& l : excludedCount) s << l.second << " " << l.first << "\n";
        s << distinct.size();
        for (std::uint64_t h : distinct) s << " " << h;
        s << "\n" << samples.size() << "\n";
        for (auto& x : samples) s << jsonStr(x) << "\n";
    }
    return bad;
}

static double now() {
    struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}
static Shared* newShared() {
    void* m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) { perror("mmap"); exit(3); }
    return (Shared*)m;
}

static std::string workDir;         // holds chunk results

static void childSetup(Shared* s, const std::string& logFile, unsigned slot) {
    sh = s;
    sh->state = 0; sh->nChoices = 0; sh->caseIdx = 0; sh->progress = 0;
    std::ostringstream d;
    d << workDir << "/scratch_" << slot;
    scratchDir = d.str();
    mkdir(scratchDir.c_str(), 0700);
    clearDir(scratchDir);
    if (chdir(scratchDir.c_str()) != 0) _exit(3);
    int in = open("/dev/null", O_RDONLY);
    dup2(in, 0);
    int fd = open(logFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1); dup2(fd, 2);
    struct rlimit rl;
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = rl.rlim_max = 256u << 20; setrlimit(RLIMIT_FSIZE, &rl);
    signal(SIGPROF, onProf);
    signal(SIGXFSZ, SIG_IGN);
    excludedCount.clear();
}
static std::string readFile(const std::string& f, std::size_t max = 1 << 22) {
    std::ifstream s(f.c_str(), std::ios::binary);
    std::string r((std::istreambuf_iterator<char>(s)), std::istreambuf_iterator<char>());
    if (r.size() > max) r.resize(max);
    return r;
}
static std::string crashLine(const std::string& log, int status) {
    std::istringstream s(log);
    std::string l, first;
    while (std::getline(s, l)) {
        if (l.find("ERROR: AddressSanitizer") != std::string::npos ||
            l.find("runtime error:") != std::string::npos ||
            l.find("Assertion") != std::string::npos ||
            l.find("terminate called") != std::string::npos ||
            l.find("pbt: case exceeded") != std::string::npos) {
            first = l; break;
        }
    }
    std::ostringstream o;
    if (WIFSIGNALED(status)) o << "killed by signal " << WTERMSIG(status);
    else o << "exit status " << WEXITSTATUS(status);
    if (!first.empty()) o << ": " << first;
    return o.str();
}
// Category of a crash, stable across shrinking.
static std::string crashKind(const std::string& log, int status) {
    if (WIFEXITED(status) && WEXITSTATUS(status) == 78) return "timeout";
    return "crash";
}

struct Result {                      // of one evaluation in a child
    bool failed = false;
    std::string kind, msg, log;      // kind: where, or crash/timeout
    std::vector<std::uint64_t> choices;
};

static Result evalInChild(std::function<bool(Outcome*)> body, unsigned slot,
                          double wallLimit) {
    static Shared* mine = nullptr;
    if (!mine) mine = newShared();
    std::string base = workDir + "/eval";
    unlink((base + ".fail").c_str());
    pid_t pid = fork();
    if (pid == 0) {
        childSetup(mine, base + ".log", slot);
        Outcome o;
        bool bad = body(&o);
        if (bad) writeOutcomeFile(base + ".fail", o, 0);
        _exit(bad ? 10 : 0);
    }
    int st = 0;
    double t0 = now();
    bool killed = false;
    while (true) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (now() - t0 > wallLimit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); killed = true; break; }
        usleep(300);
    }
    Result res;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return res;
    res.failed = true;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 10) {
        std::ifstream s((base + ".fail").c_str());
        std::string hdr, m; std::getline(s, hdr);
        std::getline(s, res.kind); std::getline(s, m); res.msg = m;
        std::size_t n = 0; s >> n;
        for (std::size_t i = 0; i < n; i++) { std::uint64_t c; s >> c; res.choices.push_back(c); }
        std::string rest; std::getline(s, rest);
        std::ostringstream o; o << s.rdbuf(); res.log = o.str();
    } else {
        std::string lg = readFile(base + ".log");
        res.kind = killed ? "timeout" : crashKind(lg, st);
        res.msg = crashLine(lg, st);
        res.log = lg.substr(0, 6000);
        for (std::size_t i = 0; i < mine->nChoices; i++) res.choices.push_back(mine->choices[i]);
    }
    return res;
}
static Result evalChoices(std::size_t prop, const std::vector<std::uint64_t>& c,
                          unsigned slot = 90) {
    return evalInChild([&](Outcome* o) {
        Gen g(Gen::REPLAY, 0, c);
        *o = runCase(props()[prop], g);
        return o->kind == Outcome::FAILED;
    }, slot, 120);
}

static std::vector<std::uint64_t> shrink(std::size_t prop,
        std::vector<std::uint64_t> best, const std::string& kind, int& evals) {
    double t0 = now();
    const double budget = 40;
    const int maxEvals = 3000;
    evals = 0;
    std::set<std::uint64_t> tried;
    auto attempt = [&](std::vector<std::uint64_t> c) {
        if (now() - t0 > budget || evals >= maxEvals) return false;
        if (!tried.insert(hashSeq(c)).second) return false;
        evals++;
        Result r = evalChoices(prop, c);
        if (!r.failed || r.kind != kind) return false;
        std::vector<std::uint64_t> got = r.choices;
        if (got.size() > c.size()) got.resize(c.size());
        while (!got.empty() && got.back() == 0) got.pop_back();
        if (got.size() > best.size()) return false;
        if (got.size() == best.size() && !(got < best)) return false;
        best = got;
        return true;
    };
    bool improved = true;
    while (improved && now() - t0 < budget && evals < maxEvals) {
        improved = false;
        for (std::size_t l = std::max<std::size_t>(1, best.size() / 2); l >= 1; l /= 2) {
            for (std::size_t i = best.size() < l ? 0 : best.size() - l + 1; i-- > 0;) {
                if (i + l > best.size()) continue;
                std::vector<std::uint64_t> c = best;
                c.erase(c.begin() + (long)i, c.begin() + (long)(i + l));
                if (attempt(c)) { improved = true; continue; }
                if (i > 0 && best[i - 1] > 0 && i + l <= best.size()) {  // list length before the block
                    std::vector<std::uint64_t> d = best;
                    d.erase(d.begin() + (long)i, d.begin() + (long)(i + l));
                    d[i - 1]--;
                    if (attempt(d)) improved = true;
                }
            }
            if (l == 1) break;
        }
        for (std::size_t i = 0; i < best.size(); i++) {
            if (best[i] == 0) continue;
            std::vector<std::uint64_t> c = best;
            c[i] = 0;
            if (attempt(c)) { improved = true; continue; }
            std::uint64_t lo = 0, hi = best[i];
            while (i < best.size() && hi - lo > 1) {      // binary search down
                std::uint64_t mid = lo + (hi - lo) / 2;
                c = best; if (i >= c.size()) break;
                c[i] = mid;
                if (attempt(c)) { improved = true; if (i < best.size()) hi = best[i]; else break; if (hi <= lo) break; }
                else lo = mid;
            }
        }
    }
    return best;
}

struct Stat {
    std::uint64_t evals = 0, discards = 0, nontriv = 0, mutated = 0, corpus = 0;
    std::map<std::string, std::uint64_t> labels, excl;
    std::set<std::uint64_t> distinct;
    std::vector<std::string> samples;   // JSON strings
};
static void readStat(const std::string& f, Stat& st) {
    std::ifstream s(f.c_str());
    std::uint64_t a, b, c, d, e;
    if (!(s >> a >> b >> c >> d >> e)) return;
    st.evals += a; st.discards += b; st.nontriv += c; st.mutated += d; st.corpus += e;
    std::size_t n; s >> n; std::string l;
    for (std::size_t i = 0; i < n; i++) { std::uint64_t v; s >> v; std::getline(s, l); st.labels[l.substr(1)] += v; }
    s >> n;
    for (std::size_t i = 0; i < n; i++) { std::uint64_t v; s >> v; std::getline(s, l); st.excl[l.substr(1)] += v; }
    s >> n;
    for (std::size_t i = 0; i < n; i++) { std::uint64_t h; s >> h; st.distinct.insert(h); }
    s >> n; std::getline(s, l);
    for (std::size_t i = 0; i < n; i++) { std::getline(s, l); st.samples.push_back(l); }
}

struct Violation { std::string prop, kind, msg, replay; };

static void writeReplay(const std::string& file, const std::string& id, const Prop& p,
        bool chunk, const Chunk& c, std::uint64_t idx, const std::vector<std::uint64_t>& ch,
        const Result& r, int nChunks, std::uint64_t total) {
    std::ofstream s(file.c_str());
    s << "pbt-replay 1\nproperty " << id << "\nsub " << p.name << "\n";
    if (chunk) {
        s << "mode history\nseed " << globalSeed << "\nrange " << c.begin << " " << idx + 1 << "\n";
    } else {
        s << "mode choices\nchoices " << ch.size();
        for (std::uint64_t v : ch) s << " " << v;
        s << "\n";
    }
    s << "# " << r.kind << "\n# " << r.msg << "\n# how to run: tools/check.py " << id
      << " --replay " << file << "\n# case:\n";
    std::istringstream l(r.log); std::string line;
    while (std::getline(l, line)) s << "# " << line << "\n";
    (void)nChunks; (void)total;
}

} // namespace pbt

using namespace pbt;

static void rmTree(const std::string& d) { clearDir(d); rmdir(d.c_str()); }

int main(int argc, char** argv) {
    std::string id, tier = "quick", outJson, replayDir = ".", replayFile, only;
    int jobs = 8; double scale = 1.0; bool list = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--id") id = val();
        else if (a == "--tier") tier = val();
        else if (a == "--seed") globalSeed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--out") outJson = val();
        else if (a == "--replay-dir") replayDir = val();
        else if (a == "--replay") replayFile = val();
        else if (a == "--only") only = val();
        else if (a == "--jobs") jobs = atoi(val().c_str());
        else if (a == "--scale") scale = atof(val().c_str());
        else if (a == "--no-guide") guided = false;
        else if (a == "--list") list = true;
    }
    if (list) { for (auto& p : props()) std::cout << p.name << " " << p.quick << "\n"; return 0; }
    {
        char t[] = "/tmp/verif_pbt_XXXXXX";
        if (!mkdtemp(t)) { perror("mkdtemp"); return 3; }
        workDir = t;
    }
    struct Cleanup { pid_t pid = getpid(); ~Cleanup() { if (getpid() == pid) rmTree(workDir); } } cleanup;
    if (tier == "thorough") caseCpuLimit = 60;

    if (!replayFile.empty()) {
        std::ifstream s(replayFile.c_str());
        std::string w, sub, mode; std::uint64_t seed = 1, b = 0, e = 0;
        std::vector<std::uint64_t> ch; std::string line;
        while (std::getline(s, line)) {
            if (line.empty() || line[0] == '#') continue;
            std::istringstream l(line); l >> w;
            if (w == "sub") l >> sub;
            else if (w == "mode") l >> mode;
            else if (w == "seed") l >> seed;
            else if (w == "range") l >> b >> e;
            else if (w == "choices") { std::size_t n; l >> n; ch.resize(n); for (auto& c : ch) l >> c; }
        }
        for (std::size_t k = 0; k < props().size(); k++) {
            if (props()[k].name != sub) continue;
            globalSeed = seed;
            Result r;
            if (mode == "history") {
                Chunk c{k, 0, b, e};
                r = evalInChild([&](Outcome* o) { return runChunk(c, e, "", o); }, 90, 600);
            } else r = evalChoices(k, ch);
            if (r.failed) { std::cout << "FAILS " << sub << ": " << r.kind << ": " << r.msg << "\n" << r.log << "\n"; return 1; }
            std::cout << "passes\n"; return 0;
        }
        std::cout << "no such sub-property: " << sub << "\n"; return 2;
    }

    // Tasks: 8 chunks per sub-property.
    std::vector<Chunk> tasks;
    const std::uint64_t NCH = 8;
    for (std::size_t k = 0; k < props().size(); k++) {
        const Prop& p = props()[k];
        if (!only.empty() && p.name != only) continue;
        std::uint64_t n = (std::uint64_t)((tier == "thorough" ? p.thorough : p.quick) * scale);
        if (n < NCH) n = NCH;
        for (std::uint64_t c = 0; c < NCH; c++) {
            std::uint64_t b = n * c / NCH, e = n * (c + 1) / NCH;
            // History replay depends only on begin and on the seed of each case.
            tasks.push_back(Chunk{k, c, b, e});
        }
    }
    struct Run { pid_t pid; std::size_t task; Shared* s; std::uint64_t last; double t; };
    std::vector<Run> running;
    std::vector<Shared*> freeSh;
    for (int i = 0; i < jobs; i++) freeSh.push_back(newShared());
    std::vector<int> slots; for (int i = 0; i < jobs; i++) slots.push_back(i);
    std::map<std::size_t, unsigned> slotOf;
    std::size_t next = 0;
    std::map<std::size_t, Stat> stats;
    struct Fail { std::size_t task; std::uint64_t idx; Result r; };
    std::map<std::size_t, Fail> fails;           // first per sub-property
    std::map<std::size_t, double> propTime;
    // Bounds on the whole run, so that a tree on which everything hangs still
    // gets its answer: generation, and confirmation once there is a violation.
    const double start = now();
    const double mainCap = tier == "thorough" ? 7200 : 420;
    const double confirmCap = mainCap + (tier == "thorough" ? 600 : 60);
    bool truncated = false;
    auto outName = [&](std::size_t t) { std::ostringstream o; o << workDir << "/chunk_" << t; return o.str(); };
    while (next < tasks.size() || !running.empty()) {
        if (!truncated && now() - start > mainCap) {
            truncated = true;
            next = tasks.size();
            for (Run& r : running) kill(r.pid, SIGKILL);
        }
        while (next < tasks.size() && (int)running.size() < jobs) {
            if (fails.count(tasks[next].prop)) { next++; continue; }
            Shared* s = freeSh.back(); freeSh.pop_back();
            int slot = slots.back(); slots.pop_back();
            slotOf[next] = (unsigned)slot;
            std::cout.flush();
            pid_t pid = fork();
            if (pid == 0) {
                childSetup(s, outName(next) + ".log", (unsigned)slot);
                bool bad = runChunk(tasks[next], ~0ull, outName(next), nullptr);
                _exit(bad ? 10 : 0);
            }
            running.push_back(Run{pid, next, s, 0, now()});
            propTime[next] = now();
            next++;
        }
        bool any = false;
        for (std::size_t i = 0; i < running.size(); i++) {
            Run& r = running[i];
            int st = 0;
            pid_t w = waitpid(r.pid, &st, WNOHANG);
            bool killed = false;
            if (w != r.pid) {
                if (r.s->progress != r.last) { r.last = r.s->progress; r.t = now(); continue; }
                else if (now() - r.t > 150) { kill(r.pid, SIGKILL); waitpid(r.pid, &st, 0); killed = true; }
                else continue;
            }
            any = true;
            std::size_t t = r.task, pr = tasks[t].prop;
            std::string out = outName(t);
            readStat(out + ".stat", stats[pr]);
            propTime[t] = now() - propTime[t];
            bool stopped = truncated && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && !killed;
            if (!stopped && !(WIFEXITED(st) && WEXITSTATUS(st) == 0) && !fails.count(pr)) {
                Fail f; f.task = t;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 10) {
                    std::ifstream s((out + ".fail").c_str());
                    std::string w2, m; s >> w2 >> f.idx; std::getline(s, m);
                    std::getline(s, f.r.kind); std::getline(s, f.r.msg);
                    std::size_t n = 0; s >> n;
                    for (std::size_t k = 0; k < n; k++) { std::uint64_t c; s >> c; f.r.choices.push_back(c); }
                    std::getline(s, m); std::ostringstream o; o << s.rdbuf(); f.r.log = o.str();
                } else {
                    std::string lg = readFile(out + ".log");
                    f.r.kind = killed ? "timeout" : crashKind(lg, st);
                    f.r.msg = crashLine(lg, st); f.r.log = lg.substr(0, 6000);
                    f.idx = r.s->caseIdx;
                    for (std::size_t k = 0; k < r.s->nChoices; k++) f.r.choices.push_back(r.s->choices[k]);
                }
                f.r.failed = true;
                fails[pr] = f;
            }
            freeSh.push_back(r.s); slots.push_back((int)slotOf[t]);
            unlink((out + ".log").c_str());
            running.erase(running.begin() + (long)i); i--;
        }
        if (!any) usleep(1000);
    }

    // Confirm, shrink and record failures.
    std::vector<Violation> viol;
    std::vector<std::string> flaky;
    int reported = 0;
    for (auto& kv : fails) {
        std::size_t pr = kv.first; Fail& f = kv.second;
        const Prop& p = props()[pr];
        // What is left would only repeat what is already established.
        if (!viol.empty() && now() - start > (tier == "thorough" ? confirmCap : 240)) break;
        if (now() - start > confirmCap) break;
        std::ostringstream fn; fn << replayDir << "/" << id << "_" << p.name << ".replay";
        Result c = evalChoices(pr, f.r.choices);
        if (c.failed) {
            int ev = 0;
            std::vector<std::uint64_t> best = f.r.choices;
            // (Each evaluation of a case that hangs costs the whole limit.)
            if (reported < 3 && c.kind != "timeout") best = shrink(pr, f.r.choices, c.kind, ev);
            int bad = 0; Result last;
            for (int k = 0; k < 3; k++) { Result x = evalChoices(pr, best); if (x.failed) { bad++; last = x; } }
            if (bad < 3) {
                best = f.r.choices; bad = 0;
                for (int k = 0; k < 3; k++) { Result x = evalChoices(pr, best); if (x.failed) { bad++; last = x; } }
            }
            if (bad == 3) {
                writeReplay(fn.str(), id, p, false, tasks[f.task], f.idx, best, last, 0, 0);
                viol.push_back(Violation{p.name, last.kind, last.msg, fn.str()});
                reported++;
                continue;
            }
        }
        // Depends on earlier cases in the process: replay the history.
        int bad = 0; Result last;
        for (int k = 0; k < 3; k++) {
            Result x = evalInChild([&](Outcome* o) { return runChunk(tasks[f.task], f.idx + 1, "", o); }, 91,
                                   tier == "thorough" ? 600 : 90);
            if (x.failed) { bad++; last = x; }
            else break;
        }
        if (bad == 3) {
            writeReplay(fn.str(), id, p, true, tasks[f.task], f.idx, {}, last, 0, 0);
            viol.push_back(Violation{p.name, last.kind, last.msg, fn.str()});
            reported++;
        } else {
            flaky.push_back(p.name + ": " + f.r.kind + ": " + f.r.msg);
        }
    }

    // Recorded findings: each runs its own specific input.
    std::vector<std::pair<std::string, bool>> known;
    for (auto& k : knowns()) {
        Result r = evalInChild([&](Outcome*) { armTimer(caseCpuLimit); return k.fails(); }, 92, 120);
        known.push_back(std::make_pair(k.key, r.failed));
    }

    std::ostringstream js;
    js << "{\"subs\": [";
    bool firstS = true;
    for (std::size_t k = 0; k < props().size(); k++) {
        if (!only.empty() && props()[k].name != only) continue;
        Stat& s = stats[k];
        js << (firstS ? "" : ", ") << "{\"name\": " << jsonStr(props()[k].name)
           << ", \"rule\": " << jsonStr(props()[k].rule)
           << ", \"evaluations\": " << s.evals << ", \"discarded\": " << s.discards
           << ", \"nontrivial\": " << s.nontriv << ", \"distinct_nontrivial\": " << s.distinct.size()
           << ", \"coverage_mutated\": " << s.mutated << ", \"corpus\": " << s.corpus << ", \"labels\": {";
        bool f = true;
        for (auto& l : s.labels) { js << (f ? "" : ", ") << jsonStr(l.first) << ": " << l.second; f = false; }
        js << "}, \"excluded\": {"; f = true;
        for (auto& l : s.excl) { js << (f ? "" : ", ") << jsonStr(l.first) << ": " << l.second; f = false; }
        js << "}, \"samples\": ["; f = true;
        for (std::size_t i = 0; i < s.samples.size() && i < 2; i++) { js << (f ? "" : ", ") << s.samples[i]; f = false; }
        js << "]}"; firstS = false;
    }
    js << "], \"violations\": [";
    for (std::size_t i = 0; i < viol.size(); i++)
        js << (i ? ", " : "") << "{\"sub\": " << jsonStr(viol[i].prop) << ", \"kind\": " << jsonStr(viol[i].kind)
           << ", \"msg\": " << jsonStr(viol[i].msg) << ", \"replay\": " << jsonStr(viol[i].replay) << "}";
    js << "], \"flaky\": [";
    for (std::size_t i = 0; i < flaky.size(); i++) js << (i ? ", " : "") << jsonStr(flaky[i]);
    js << "], \"known\": {";
    for (std::size_t i = 0; i < known.size(); i++)
        js << (i ? ", " : "") << jsonStr(known[i].first) << ": " << (known[i].second ? "true" : "false");
    js << "}}\n";
    if (!outJson.empty()) { std::ofstream o(outJson.c_str()); o << js.str(); }
    else {
        for (std::size_t k = 0; k < props().size(); k++) {
            if (!only.empty() && props()[k].name != only) continue;
            Stat& s = stats[k];
            std::cout << props()[k].name << ": " << s.evals << " cases, " << s.discards << " discarded, "
                      << s.nontriv << " nontrivial, " << s.distinct.size() << " distinct";
            for (auto& l : s.labels) std::cout << "; " << l.first << "=" << l.second;
            for (auto& l : s.excl) std::cout << "; excluded " << l.first << "=" << l.second;
            std::cout << "\n";
        }
        for (auto& v : viol) std::cout << "FAIL " << v.prop << " [" << v.kind << "] " << v.msg << "\n  " << v.replay << "\n";
        for (auto& f : flaky) std::cout << "FLAKY " << f << "\n";
        for (auto& k : known) std::cout << "known " << k.first << " fails=" << k.second << "\n";
    }
    return viol.empty() ? 0 : 1;
}
