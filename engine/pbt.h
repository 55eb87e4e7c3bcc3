// Property-based testing engine: choice-sequence generation, coverage-guided
// mutation, crash-isolated execution, shrinking and replay.
#ifndef VERIF_PBT_H_
#define VERIF_PBT_H_

#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <limits>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Failure {
    std::string where, msg;
};
struct Discard {};

// Source of every random decision of a case. A case is a pure function of the
// recorded sequence of choices, so shrinking and replaying act on it.
class Gen {
public:
    enum Mode { RANDOM, REPLAY, MUTATE };
    Gen(Mode mode, std::uint64_t seed, const std::vector<std::uint64_t>& in);

    std::uint64_t draw(std::uint64_t n);          // in [0, n); n == 0: 64 bits
    int range(int lo, int hi);                    // inclusive, shrinks to lo
    int integer(int lo, int hi);                  // shrinks to the value next to 0
    bool chance(int num, int den);                // true num/den, shrinks to false
    bool flip() { return draw(2) == 1; }
    std::size_t len(std::size_t lo, std::size_t hi);  // biased to small
    // Mostly like len, now and then far longer: what goes wrong with size.
    std::size_t many(std::size_t lo, std::size_t hi, std::size_t top);
    // Reals. All shrink to simple values.
    double unit();                                // [0,1)
    double real(double lo, double hi);            // mixture of ends, simple, uniform
    double positive(double lo, double hi);        // log-uniform in [lo,hi], lo > 0
    double coord();                               // mixture for geometry: [-100,100]
    double simple();                              // small multiple of 1/4, in [-8,8]
    double nonzero(double lo, double hi);         // |v| log-uniform, random sign
    template <class T> const T& pick(const std::vector<T>& v) {
        return v[(std::size_t)draw(v.size())];
    }
    template <class T> T oneOf(std::initializer_list<T> l) {
        return *(l.begin() + (std::size_t)draw(l.size()));
    }
    template <class T> void shuffle(std::vector<T>& v) {
        for (std::size_t i = v.size(); i > 1; i--) {
            std::size_t j = i - 1 - (std::size_t)draw(i);   // 0 keeps the order
            std::swap(v[i - 1], v[j]);
        }
    }
    std::string ident(std::size_t maxLen = 8);    // [A-Za-z][A-Za-z0-9_]*
    std::string text(const std::string& alphabet, std::size_t lo, std::size_t hi);

    // Description, classification.
    template <class T> Gen& operator<<(const T& v) { log_ << v; return *this; }
    void label(const std::string& l) { labels_.insert(l); }
    void label(bool c, const std::string& l) { if (c) labels_.insert(l); }
    void nontrivial(bool c = true) { if (c) nontrivial_ = true; }
    void discard() { throw Discard(); }

    const std::vector<std::uint64_t>& choices() const { return rec_; }
    std::string log() const { return log_.str(); }
    const std::set<std::string>& labels() const { return labels_; }
    bool isNontrivial() const { return nontrivial_; }

private:
    std::uint64_t next_();
    Mode mode_;
    std::uint64_t s_;
    const std::vector<std::uint64_t> in_;
    std::size_t pos_ = 0;
    std::vector<std::uint64_t> rec_;
    std::ostringstream log_;
    std::set<std::string> labels_;
    bool nontrivial_ = false;
};

typedef void (*PropFn)(Gen&);
struct Prop {
    std::string name, rule;
    int quick, thorough;      // number of cases
    PropFn fn;
};
struct Known {
    std::string key;
    bool (*fails)();          // true: the recorded finding is still there
};
std::vector<Prop>& props();
std::vector<Known>& knowns();
struct RegProp {
    RegProp(const char* n, int q, int t, const char* rule, PropFn f) {
        props().push_back(Prop{n, rule, q, t, f});
    }
};
struct RegKnown {
    RegKnown(const char* k, bool (*f)()) { knowns().push_back(Known{k, f}); }
};

std::string scratch();        // private scratch directory of this process
void excluded(const std::string& what);   // counts a case excluded by construction

inline bool near(double a, double b, double rel, double abs_ = 0.0) {
    if (a == b) return true;
    if (std::isnan(a) || std::isnan(b)) return false;
    double d = std::fabs(a - b);
    return d <= abs_ || d <= rel * std::max(std::fabs(a), std::fabs(b));
}

} // namespace pbt

// PROP(name, quick cases, thorough cases, rule) { body using g }
#define PROP(NAME, Q, T, RULE)                                              \
    static void prop_##NAME(pbt::Gen& g);                                   \
    static pbt::RegProp reg_##NAME(#NAME, Q, T, RULE, prop_##NAME);         \
    static void prop_##NAME(pbt::Gen& g)
#define KNOWN(NAME, KEY)                                                    \
    static bool known_##NAME();                                             \
    static pbt::RegKnown regk_##NAME(KEY, known_##NAME);                    \
    static bool known_##NAME()

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define FAIL(MSG)                                                           \
    do { std::ostringstream o_; o_.precision(17); o_ << MSG;                \
         throw pbt::Failure{__FILE__ ":" PBT_STR(__LINE__), o_.str()}; } while (0)
#define CHECK(C, MSG)                                                       \
    do { if (!(C)) FAIL("not (" #C "): " << MSG); } while (0)
#define CHECK_EQ(A, B, MSG)                                                 \
    do { auto a_ = (A); auto b_ = (B);                                      \
         if (!(a_ == b_)) FAIL(#A " = " << a_ << ", expected " #B " = "     \
                               << b_ << ": " << MSG); } while (0)
#define CHECK_NEAR(A, B, REL, ABS, MSG)                                     \
    do { double a_ = (A), b_ = (B);                                         \
         if (!pbt::near(a_, b_, REL, ABS))                                  \
             FAIL(#A " = " << a_ << ", expected " #B " = " << b_ << ": "    \
                  << MSG); } while (0)
#define CHECK_THROWS(STMT, MSG)                                             \
    do { bool t_ = false; try { STMT; } catch (const std::exception&) {     \
         t_ = true; }                                                       \
         if (!t_) FAIL("no error from " #STMT ": " << MSG); } while (0)
#define CHECK_NOTHROW(STMT, MSG)                                            \
    do { try { STMT; } catch (const std::exception& e_) {                   \
         FAIL("unexpected error from " #STMT ": " << e_.what() << ": "      \
              << MSG); } } while (0)

#endif
