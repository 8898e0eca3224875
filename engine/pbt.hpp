// Property-based testing engine used by every check in /verif.
//
// A case is a pure function of a sequence of integer choices.  Random
// generation draws the choices from a PRNG seeded by (VERIF_SEED, property,
// sub-check, case index); replay and shrinking feed a recorded sequence back.
// Cases are executed in forked workers, so a crash, a failed assert(), a
// sanitizer report or a hang of the code under test is an ordinary failing
// case that is shrunk and saved like any other.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP

#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <ostream>
#include <sstream>
#include <streambuf>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Fail {                      // a violated oracle
    std::string label, msg;
    Fail(const std::string& l, const std::string& m) : label(l), msg(m) {}
};
struct Discard {};                 // precondition not met; not counted

class Gen {
public:
    // Random mode: 'seed' drives the choices.
    // Replay mode: choices are taken from (in, n); 0 when exhausted.
    Gen(uint64_t seed, uint64_t* rec, size_t cap, volatile uint64_t* rec_n);
    Gen(const uint64_t* in, size_t n, uint64_t* rec, size_t cap, volatile uint64_t* rec_n);

    uint64_t draw(uint64_t n);               // uniform in [0, n)

    int  i(int lo, int hi) { return lo + (int) draw((uint64_t)((int64_t)hi - lo) + 1); }
    bool b() { return draw(2) == 1; }
    // True with probability num/den; shrinks to false.
    bool p(int num, int den) { return draw(den) >= (uint64_t)(den - num); }
    // Mixture of "nice" fractions and full-precision values; shrinks to lo.
    double real(double lo, double hi);
    // Uniform in log space; shrinks to lo.
    double logreal(double lo, double hi) { return lo * std::exp(real(0.0, std::log(hi / lo))); }
    // Small dyadic rational k/2^s in [lo, hi].
    double dyadic(double lo, double hi, int steps) { return lo + (hi - lo) * ((double) draw(steps + 1) / steps); }
    template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
    template <class T> T oneof(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }
    // size biased towards small values, in [lo, hi]
    int size(int lo, int hi);
    std::vector<int> perm(int n);
    // strictly increasing coordinates x[0..n], x[0] = start
    std::vector<double> increasing(int n, double start, double dmin, double dmax);

    size_t used() const { return pos_; }
    std::vector<uint64_t> recorded() const { return rec_ && rec_n_ ? std::vector<uint64_t>(rec_, rec_ + *rec_n_) : std::vector<uint64_t>(); }
private:
    uint64_t next();
    bool replay_;
    uint64_t s_[4];
    const uint64_t* in_; size_t in_n_;
    uint64_t* rec_; size_t cap_; volatile uint64_t* rec_n_;
    size_t pos_;
};

// Stream buffer over a fixed array (shared memory, so that a description survives a crash of the case).
class FixedBuf : public std::streambuf {
public:
    FixedBuf() : p_(own_), cap_(sizeof own_), n_(0) { own_[0] = 0; }
    void use(char* p, size_t cap) { p_ = p; cap_ = cap; n_ = 0; p_[0] = 0; }
    std::string str() const { return std::string(p_, n_); }
protected:
    int overflow(int c) { char ch = (char) c; xsputn(&ch, 1); return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char* s, std::streamsize k)
    {
        const size_t m = std::min<size_t>((size_t) k, cap_ - 1 - n_);
        std::memcpy(p_ + n_, s, m); n_ += m; p_[n_] = 0;
        return k;
    }
private:
    char* p_; size_t cap_, n_;
    char own_[4096];
};

class Ctx {
public:
    Ctx() : nontrivial_(false), want_desc_(false), desc_(&buf_) {}
    void label(const char* name) { labels_[name] = 1; }
    void label(const std::string& name) { labels_[name] = 1; }
    void label(const std::string& name, bool c) { if (c) labels_[name] = 1; }
    void nontrivial(bool b = true) { if (b) nontrivial_ = true; }
    // Human-readable description of the generated case (for samples and replays).
    std::ostream& desc() { return desc_; }
    bool wantDesc() const { return want_desc_; }

    void fail(const char* label, const char* fmt, ...) __attribute__((format(printf, 3, 4), noreturn));
    void check(bool ok, const char* label, const char* fmt, ...) __attribute__((format(printf, 4, 5)));
    // |a - b| <= rtol * max(|a|, |b|, scale)
    void close(double a, double b, double rtol, double scale, const char* label, const char* fmt, ...)
        __attribute__((format(printf, 7, 8)));

    std::map<std::string, int> labels_;
    bool nontrivial_, want_desc_;
    FixedBuf buf_;
    std::ostream desc_;
};

struct Sub {
    const char* name;
    int weight;                       // relative number of cases
    std::function<void(Gen&, Ctx&)> fn;
};

struct Spec {
    const char* property;
    const char* rule;                 // how cases are made / what is non-trivial
    std::vector<std::string> assumptions;
    long quick, thorough;             // total number of cases per tier
    std::vector<Sub> subs;
};

// Defined by each harness.
Spec spec();

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
// Private scratch directory (created on demand, removed at the end).
const std::string& scratch();

} // namespace pbt
#endif
