#include "pbt.hpp"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

extern "C" size_t __sanitizer_get_current_allocated_bytes();

extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
           "max_allocation_size_mb=4000:hard_rss_limit_mb=6000:handle_abort=1:print_summary=1:"
           "malloc_fill_byte=190:max_malloc_fill_size=1048576:detect_stack_use_after_return=0";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1"; }

namespace pbt {

// ---------------------------------------------------------------- Gen
static uint64_t splitmix(uint64_t& x)
{
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint64_t hash_str(const char* s)
{
    uint64_t h = 1469598103934665603ull;
    for (; *s; ++s) { h ^= (unsigned char) *s; h *= 1099511628211ull; }
    return h;
}

Gen::Gen(uint64_t seed, uint64_t* rec, size_t cap, volatile uint64_t* rec_n)
    : replay_(false), in_(0), in_n_(0), rec_(rec), cap_(cap), rec_n_(rec_n), pos_(0)
{
    for (int k = 0; k < 4; ++k) s_[k] = splitmix(seed);
    if (rec_n_) *rec_n_ = 0;
}
Gen::Gen(const uint64_t* in, size_t n, uint64_t* rec, size_t cap, volatile uint64_t* rec_n)
    : replay_(true), in_(in), in_n_(n), rec_(rec), cap_(cap), rec_n_(rec_n), pos_(0)
{
    std::memset(s_, 0, sizeof s_);
    if (rec_n_) *rec_n_ = 0;
}
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t Gen::next()
{
    const uint64_t result = rotl(s_[1] * 5, 7) * 9, t = s_[1] << 17;
    s_[2] ^= s_[0]; s_[3] ^= s_[1]; s_[1] ^= s_[2]; s_[0] ^= s_[3]; s_[2] ^= t; s_[3] = rotl(s_[3], 45);
    return result;
}
uint64_t Gen::draw(uint64_t n)
{
    uint64_t v;
    if (n == 0) n = 1;
    if (replay_) { v = pos_ < in_n_ ? in_[pos_] % n : 0; }
    else         { v = (uint64_t)(((unsigned __int128) next() * n) >> 64); }
    if (rec_ && pos_ < cap_) { rec_[pos_] = v; *rec_n_ = pos_ + 1; }
    ++pos_;
    if (pos_ > (1u << 22)) throw Discard();
    return v;
}
double Gen::real(double lo, double hi)
{
    const uint64_t m = draw(8);
    if (m < 3) { const uint64_t k = draw(9); return k == 8 ? hi : lo + (hi - lo) * (k / 8.0); }
    return lo + (hi - lo) * ((double) draw(1u << 30) / (double)(1u << 30));
}
int Gen::size(int lo, int hi)
{
    if (hi <= lo) return lo;
    const uint64_t m = draw(4);
    if (m == 0) return lo + (int) draw(std::min(hi - lo, 2) + 1);
    if (m == 1) return lo + (int) draw((hi - lo) / 2 + 1);
    return lo + (int) draw(hi - lo + 1);
}
std::vector<int> Gen::perm(int n)
{
    std::vector<int> p(n);
    for (int k = 0; k < n; ++k) p[k] = k;
    for (int k = 0; k + 1 < n; ++k) std::swap(p[k], p[k + draw(n - k)]);
    return p;
}
std::vector<double> Gen::increasing(int n, double start, double dmin, double dmax)
{
    std::vector<double> x(n + 1, start);
    for (int k = 0; k < n; ++k) x[k + 1] = x[k] + real(dmin, dmax);
    return x;
}

// ---------------------------------------------------------------- Ctx
static std::string vfmt(const char* f, va_list ap)
{
    char buf[4096];
    vsnprintf(buf, sizeof buf, f, ap);
    return buf;
}
std::string fmt(const char* f, ...)
{
    va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s;
}
void Ctx::fail(const char* label, const char* f, ...)
{
    va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
    throw Fail(label, s);
}
void Ctx::check(bool ok, const char* label, const char* f, ...)
{
    if (ok) return;
    va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
    throw Fail(label, s);
}
void Ctx::close(double a, double b, double rtol, double scale, const char* label, const char* f, ...)
{
    const double m = std::max(std::max(std::fabs(a), std::fabs(b)), scale);
    if (std::fabs(a - b) <= rtol * m) return;      // false for NaN
    if (a == b) return;
    va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
    throw Fail(label, s + fmt(": %.17g vs %.17g (diff %.3g, rtol %.1g, scale %.3g)", a, b, a - b, rtol, m));
}

// ---------------------------------------------------------------- scratch
static std::string g_scratch;
const std::string& scratch()
{
    if (g_scratch.empty()) {
        const char* base = getenv("PBT_SCRATCH");
        std::string t = std::string(base ? base : "/tmp") + fmt("/w%d", (int) getpid());
        mkdir(t.c_str(), 0700);
        g_scratch = t;
    }
    return g_scratch;
}

// ---------------------------------------------------------------- execution
enum Status { OK = 0, FAILED = 1, DISCARDED = 2 };
static const size_t CAP = 1u << 20;
static const int NLAB = 16;

struct Slot {                          // shared between parent and a worker
    volatile uint64_t running;         // index + 1 of the running case, 0 if idle
    volatile uint64_t done;            // finished normally
    volatile uint64_t failed_idx;      // index + 1
    volatile uint64_t rec_n;
    volatile uint64_t evals, nontriv, discards;
    char label[256];
    char msg[8192];
    char desc[1 << 16];
    uint64_t rec[CAP];
};

static int g_cpu_limit = 60;
static const bool g_leaks = getenv("PBT_LEAKS") != 0;
static void on_prof(int) { const char m[] = "\nPBT-HANG: case exceeded its CPU limit\n"; (void)!write(2, m, sizeof m - 1); _exit(78); }
static void arm(int s)
{
    struct itimerval it; std::memset(&it, 0, sizeof it); it.it_value.tv_sec = s;
    setitimer(ITIMER_PROF, &it, 0);
}

static const Sub& sub_of(const Spec& sp, uint64_t idx, size_t& which)
{
    int tot = 0;
    for (auto& s : sp.subs) tot += s.weight;
    int r = (int)(idx % tot);
    for (which = 0; which < sp.subs.size(); ++which) {
        r -= sp.subs[which].weight;
        if (r < 0) return sp.subs[which];
    }
    which = 0;
    return sp.subs[0];
}

// Leak mode (PBT_LEAKS): what a passing case keeps allocated when it is run again and again.
static long kept(const Sub& sub, const std::vector<uint64_t>& choices)
{
    size_t at[2] = { 0, 0 };
    for (int k = 0; k < 4; ++k) {
        const size_t a = __sanitizer_get_current_allocated_bytes();
        { Ctx c; c.want_desc_ = false; Gen g(choices.data(), choices.size(), 0, 0, 0); try { sub.fn(g, c); } catch (const Discard&) { return 0; } }
        at[k % 2] = __sanitizer_get_current_allocated_bytes() - a;
    }
    return at[0] == at[1] ? (long) at[0] : 0;
}
static Status run_one(const Sub& sub, Gen& g, Ctx& c, std::string& label, std::string& msg)
{
    try {
        sub.fn(g, c);
        if (g_leaks) { const long n = kept(sub, g.recorded()); if (n > 0) throw Fail("leak", fmt("%ld bytes stay allocated each time this case is run", n)); }
        return OK;
    }
    catch (const Discard&) { return DISCARDED; }
    catch (const Fail& f) { label = f.label; msg = f.msg; return g_leaks && label != "leak" ? DISCARDED : FAILED; }   // in leak mode other oracles are not judged
    catch (const std::exception& e) { label = "unexpected-exception"; msg = e.what(); return FAILED; }
    catch (...) { label = "unexpected-exception"; msg = "non-standard exception"; return FAILED; }
}
static void put(char* dst, size_t cap, const std::string& s)
{
    const size_t n = std::min(cap - 1, s.size()); std::memcpy(dst, s.data(), n); dst[n] = 0;
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static void quiet_fds(const std::string& errlog)
{
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    int e = open(errlog.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
    dup2(e, 2);
    int z = open("/dev/null", O_RDONLY);
    dup2(z, 0);
}
static std::string read_tail(const std::string& fn, size_t n)
{
    std::ifstream f(fn.c_str()); std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str();
    // keep the first interesting line onwards
    for (const char* key : { "ERROR: AddressSanitizer", "runtime error:", "Assertion", "PBT-HANG", "terminate called" }) {
        size_t p = s.find(key);
        if (p != std::string::npos) { s = s.substr(p > 200 ? p - 200 : 0); break; }
    }
    return s.size() > n ? s.substr(0, n) : s;
}
static std::string json_str(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += (char) ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 0x20 || ch >= 0x7f) o += fmt("\\u%04x", ch);
        else o += (char) ch;
    }
    return o + "\"";
}

struct Outcome { Status st; std::string label, msg, desc; std::vector<uint64_t> choices; };

static std::string crash_label(int wst)
{
    if (WIFEXITED(wst) && WEXITSTATUS(wst) == 78) return "hang";
    return "crash";
}

// Run one case in a forked child.  If 'choices' is null the case is generated from 'seed'.
static Outcome run_forked(const Sub& sub, uint64_t seed, const std::vector<uint64_t>* choices, Slot* sl,
                          const std::string& errlog, bool want_desc)
{
    sl->running = 1; sl->done = 0; sl->failed_idx = 0; sl->rec_n = 0; sl->label[0] = sl->msg[0] = sl->desc[0] = 0;
    fflush(0);
    pid_t p = fork();
    if (p == 0) {
        quiet_fds(errlog);
        signal(SIGPROF, on_prof);
        arm(g_cpu_limit);
        Ctx c; c.want_desc_ = want_desc;
        c.buf_.use(sl->desc, sizeof sl->desc);
        std::string label, msg;
        Status st;
        if (choices) { Gen g(choices->data(), choices->size(), sl->rec, CAP, &sl->rec_n); st = run_one(sub, g, c, label, msg); }
        else         { Gen g(seed, sl->rec, CAP, &sl->rec_n);                              st = run_one(sub, g, c, label, msg); }
        put(sl->label, sizeof sl->label, label); put(sl->msg, sizeof sl->msg, msg);
        sl->done = 1 + st;
        _exit(0);
    }
    int wst = 0;
    while (waitpid(p, &wst, 0) < 0 && errno == EINTR) {}
    Outcome o;
    o.choices.assign(sl->rec, sl->rec + std::min<uint64_t>((uint64_t) sl->rec_n, CAP));
    if (sl->done) { o.st = (Status)(sl->done - 1); o.label = sl->label; o.msg = sl->msg; o.desc = sl->desc; }
    else { o.st = FAILED; o.label = crash_label(wst); o.msg = read_tail(errlog, 3000); o.desc = sl->desc; }
    return o;
}

static uint64_t case_seed_fwd(const Spec& sp, const Sub& sub, uint64_t seed, uint64_t idx);
// Run the cases first, first + W, ..., last of one worker in one process (for
// failures that need state left behind by earlier cases).
static Outcome run_history(const Spec& sp, uint64_t seed, uint64_t first, uint64_t last, int W, const std::string& only,
                           Slot* sl, const std::string& errlog)
{
    sl->done = 0; sl->label[0] = sl->msg[0] = sl->desc[0] = 0;
    fflush(0);
    pid_t p = fork();
    if (p == 0) {
        quiet_fds(errlog);
        signal(SIGPROF, on_prof);
        const int w = (int)(first % W);
        for (uint64_t idx = first; idx <= last; idx += W) {
            size_t which;
            const Sub& sub = sub_of(sp, idx / W + (uint64_t) w * 7, which);
            if (!only.empty() && only != sub.name) continue;
            Ctx c; c.want_desc_ = idx == last;
            c.buf_.use(sl->desc, sizeof sl->desc);
            std::string label, msg;
            arm(g_cpu_limit);
            Gen g(case_seed_fwd(sp, sub, seed, idx), sl->rec, CAP, &sl->rec_n);
            if (run_one(sub, g, c, label, msg) == FAILED) {
                put(sl->label, sizeof sl->label, label); put(sl->msg, sizeof sl->msg, msg);
                sl->done = 1 + FAILED;
                _exit(0);
            }
        }
        sl->done = 1 + OK;
        _exit(0);
    }
    int wst = 0;
    while (waitpid(p, &wst, 0) < 0 && errno == EINTR) {}
    Outcome o;
    if (sl->done) { o.st = (Status)(sl->done - 1); o.label = sl->label; o.msg = sl->msg; o.desc = sl->desc; }
    else { o.st = FAILED; o.label = crash_label(wst); o.msg = read_tail(errlog, 3000); o.desc = sl->desc; }
    return o;
}

static uint64_t case_seed(const Spec& sp, const Sub& sub, uint64_t seed, uint64_t idx)
{
    uint64_t x = seed * 0x9e3779b97f4a7c15ull ^ hash_str(sp.property) ^ (hash_str(sub.name) << 1) ^ (idx * 0xd1342543de82ef95ull);
    splitmix(x); return splitmix(x);
}

static uint64_t case_seed_fwd(const Spec& sp, const Sub& sub, uint64_t seed, uint64_t idx) { return case_seed(sp, sub, seed, idx); }

// Integrated shrinking on the choice sequence.
static Outcome shrink(const Sub& sub, Outcome best, Slot* sl, const std::string& errlog, double budget, int& runs)
{
    const double t0 = now();
    runs = 0;
    auto attempt = [&](const std::vector<uint64_t>& cand) -> bool {
        if (now() - t0 > budget || runs > 4000) return false;
        ++runs;
        Outcome o = run_forked(sub, 0, &cand, sl, errlog, false);
        if (o.st != FAILED || o.label != best.label) return false;
        // normalised sequence: what was really consumed
        if (o.choices.size() > cand.size()) o.choices.resize(cand.size());
        while (!o.choices.empty() && o.choices.back() == 0) o.choices.pop_back();
        if (o.choices.size() > best.choices.size()) return false;
        if (o.choices.size() == best.choices.size() && !(o.choices < best.choices)) return false;
        best = o;
        return true;
    };
    while (!best.choices.empty() && best.choices.back() == 0) best.choices.pop_back();
    bool progress = true;
    while (progress && now() - t0 < budget && runs <= 4000) {
        progress = false;
        for (size_t len = std::max<size_t>(best.choices.size() / 2, 1);; len /= 2) {           // delete blocks
            for (size_t k = best.choices.size() >= len ? best.choices.size() - len : 0;; --k) {
                if (k + len <= best.choices.size()) {
                    std::vector<uint64_t> c = best.choices;
                    c.erase(c.begin() + k, c.begin() + k + len);
                    if (attempt(c)) progress = true;
                }
                if (k == 0 || now() - t0 > budget) break;
                if (len > 4 && k >= len) k -= len - 1;
            }
            if (len <= 1) break;
        }
        for (size_t len = std::max<size_t>(best.choices.size() / 2, 1);; len /= 2) {           // zero blocks
            for (size_t k = 0; k + len <= best.choices.size(); k += len) {
                std::vector<uint64_t> c = best.choices;
                bool z = true;
                for (size_t q = k; q < k + len; ++q) { z = z && c[q] == 0; c[q] = 0; }
                if (!z && attempt(c)) progress = true;
            }
            if (len <= 1 || now() - t0 > budget) break;
        }
        for (size_t k = 0; k < best.choices.size(); ++k) {                                     // minimise values
            if (now() - t0 > budget) break;
            uint64_t lo = 0;
            while (k < best.choices.size() && lo < best.choices[k]) {
                const uint64_t mid = lo + (best.choices[k] - lo) / 2;
                std::vector<uint64_t> c = best.choices; c[k] = mid;
                if (attempt(c)) { progress = true; if (k >= best.choices.size() || best.choices[k] > mid) break; }
                else lo = mid + 1;
                if (now() - t0 > budget || runs > 4000) break;
            }
        }
    }
    return best;
}

static int usage() { fprintf(stderr, "usage: harness run|replay ...\n"); return 2; }

struct Known { std::string label, what; };

} // namespace pbt

using namespace pbt;

// Output protocol (read by run.py): one JSON object on the file given by --out.
int main(int argc, char** argv)
{
    if (argc < 2) return usage();
    std::map<std::string, std::string> opt;
    for (int k = 2; k + 1 < argc; k += 2) opt[argv[k]] = argv[k + 1];
    Spec sp = spec();
    const std::string mode = argv[1];
    const std::string work = opt.count("--work") ? opt["--work"] : "/tmp";
    setenv("PBT_SCRATCH", work.c_str(), 1);
    if (opt.count("--cpu")) g_cpu_limit = atoi(opt["--cpu"].c_str());

    const int W = opt.count("--workers") ? atoi(opt["--workers"].c_str()) : 8;
    Slot* slots = (Slot*) mmap(0, sizeof(Slot) * (W + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (slots == MAP_FAILED) { perror("mmap"); return 2; }

    if (mode == "history") {
        Outcome o = run_history(sp, strtoull(opt["--seed"].c_str(), 0, 10), strtoull(opt["--first"].c_str(), 0, 10),
                                strtoull(opt["--last"].c_str(), 0, 10), atoi(opt["--stride"].c_str()), opt["--only"], &slots[W], work + "/err.replay");
        printf("%s\nlabel: %s\nmessage: %s\ncase: %s\n", o.st == FAILED ? "FAILED" : "PASSED", o.label.c_str(), o.msg.c_str(), o.desc.c_str());
        return o.st == FAILED ? 1 : 0;
    }
    if (mode == "replay") {
        // --sub NAME --choices "1 2 3"
        std::vector<uint64_t> ch; std::stringstream ss(opt["--choices"]); uint64_t v; while (ss >> v) ch.push_back(v);
        if (opt.count("--file")) { ch.clear(); std::ifstream f(opt["--file"].c_str()); while (f >> v) ch.push_back(v); }
        for (auto& s : sp.subs) if (opt["--sub"] == s.name) {
            Outcome o = run_forked(s, 0, &ch, &slots[W], work + "/err.replay", true);
            printf("%s\nlabel: %s\nmessage: %s\ncase: %s\n", o.st == FAILED ? "FAILED" : o.st == OK ? "PASSED" : "DISCARDED",
                   o.label.c_str(), o.msg.c_str(), o.desc.c_str());
            return o.st == FAILED ? 1 : 0;
        }
        fprintf(stderr, "no such sub-check\n");
        return 2;
    }
    if (mode != "run") return usage();

    const uint64_t seed = strtoull(opt["--seed"].c_str(), 0, 10);
    const bool thorough = opt["--tier"] == "thorough";
    uint64_t N = thorough ? sp.thorough : sp.quick;
    if (opt.count("--cases")) N = strtoull(opt["--cases"].c_str(), 0, 10);
    const double budget = opt.count("--budget") ? atof(opt["--budget"].c_str()) : (thorough ? 1500 : 300);
    std::string only = opt.count("--sub") ? opt["--sub"] : "";

    const double t0 = now();
    std::vector<pid_t> pids(W);
    for (int w = 0; w < W; ++w) {
        fflush(0);
        pid_t p = fork();
        if (p == 0) {
            Slot& sl = slots[w];
            const std::string errlog = work + fmt("/err.%d", w);
            quiet_fds(errlog);
            signal(SIGPROF, on_prof);
            std::map<std::string, uint64_t> lab;
            std::map<std::string, std::pair<uint64_t, uint64_t> > persub;
            std::unordered_set<uint64_t> distinct;
            std::vector<std::string> samples;
            std::map<std::string, int> samples_of;
            struct stat sb;
            for (uint64_t idx = w; idx < N; idx += W) {
                // idx / W spreads the sub-checks evenly over the workers
                size_t which;
                const Sub& sub = sub_of(sp, idx / W + (uint64_t) w * 7, which);
                if (!only.empty() && only != sub.name) continue;
                if ((idx / W) % 16 == 0 && now() - t0 > budget) { lab["__budget_hit"] = 1; break; }
                if ((idx / W) % 64 == 0 && fstat(2, &sb) == 0 && sb.st_size > (1 << 20)) (void)!ftruncate(2, 0);
                Ctx c;
                c.want_desc_ = samples_of[sub.name] < 2;
                std::string label, msg;
                sl.running = idx + 1;
                arm(g_cpu_limit);
                Gen g(case_seed(sp, sub, seed, idx), sl.rec, CAP, &sl.rec_n);
                Status st = run_one(sub, g, c, label, msg);
                arm(0);
                if (st == DISCARDED) { sl.discards = sl.discards + 1; sl.running = 0; continue; }
                sl.evals = sl.evals + 1;
                if (st == FAILED) { put(sl.label, sizeof sl.label, label); sl.failed_idx = idx + 1; _exit(1); }
                sl.running = 0;
                persub[sub.name].first++;
                for (auto& l : c.labels_) lab[std::string(sub.name) + "/" + l.first]++;
                if (c.nontrivial_) {
                    sl.nontriv = sl.nontriv + 1;
                    persub[sub.name].second++;
                    uint64_t h = hash_str(sub.name);
                    for (uint64_t k = 0; k < std::min<uint64_t>((uint64_t) sl.rec_n, CAP); ++k) { h ^= sl.rec[k] + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 1099511628211ull; }
                    distinct.insert(h);
                    if (c.want_desc_ && samples_of[sub.name] < 2 && !c.buf_.str().empty() && w < 2) {
                        samples_of[sub.name]++;
                        samples.push_back(fmt("[%s #%llu] ", sub.name, (unsigned long long) idx) + c.buf_.str().substr(0, 600));
                    }
                }
            }
            std::ofstream o((work + fmt("/stat.%d", w)).c_str());
            for (auto& l : lab) o << "L " << l.second << " " << l.first << "\n";
            for (auto& l : persub) o << "P " << l.second.first << " " << l.second.second << " " << l.first << "\n";
            for (auto& s : samples) o << "S " << json_str(s) << "\n";
            for (uint64_t h : distinct) o << "H " << h << "\n";
            o.close();
            sl.done = 1;
            _exit(0);
        }
        pids[w] = p;
    }
    bool failed = false; uint64_t fidx = ~0ull;
    int left = W;
    std::vector<bool> gone(W, false);
    while (left > 0) {
        int wst; pid_t p = waitpid(-1, &wst, 0);
        if (p < 0) { if (errno == EINTR) continue; break; }
        for (int w = 0; w < W; ++w) if (pids[w] == p && !gone[w]) {
            gone[w] = true; --left;
            if (slots[w].done) continue;
            if (failed && WIFSIGNALED(wst) && WTERMSIG(wst) == SIGKILL) continue;   // stopped by us
            failed = true;
            const uint64_t idx = slots[w].failed_idx ? slots[w].failed_idx - 1 : slots[w].running ? slots[w].running - 1 : 0;
            if (idx < fidx) fidx = idx;
            if (failed) for (int q = 0; q < W; ++q) if (!gone[q]) kill(pids[q], SIGKILL);
        }
    }
    std::map<std::string, uint64_t> lab;
    std::map<std::string, std::pair<uint64_t, uint64_t> > persub;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    uint64_t evals = 0, nontriv = 0, disc = 0;
    for (int w = 0; w < W; ++w) {
        evals += slots[w].evals; nontriv += slots[w].nontriv; disc += slots[w].discards;
        std::ifstream f((work + fmt("/stat.%d", w)).c_str());
        std::string ln;
        while (std::getline(f, ln)) {
            std::stringstream ss(ln); char t; ss >> t;
            if (t == 'L') { uint64_t n; std::string s; ss >> n; ss.ignore(1); std::getline(ss, s); lab[s] += n; }
            else if (t == 'P') { uint64_t n, m; std::string s; ss >> n >> m; ss.ignore(1); std::getline(ss, s); persub[s].first += n; persub[s].second += m; }
            else if (t == 'S') samples.push_back(ln.substr(2));
            else if (t == 'H') { uint64_t h; ss >> h; distinct.insert(h); }
        }
    }

    std::string viol;
    if (failed) {
        size_t which; const int w = (int)(fidx % W);
        const Sub& sub = sub_of(sp, fidx / W + (uint64_t) w * 7, which);
        Slot* sl = &slots[W];
        const std::string el = work + "/err.shrink";
        Outcome o = run_forked(sub, case_seed(sp, sub, seed, fidx), 0, sl, el, false);
        if (o.st == FAILED) {
            int runs = 0;
            const double sb = opt.count("--shrink") ? atof(opt["--shrink"].c_str()) : 40;
            Outcome best = shrink(sub, o, sl, el, o.label == "hang" ? 0 : sb, runs);
            int again = 0;
            for (int k = 0; k < 3; ++k) { Outcome r = run_forked(sub, 0, &best.choices, sl, el, true); if (r.st == FAILED) { ++again; best.label = r.label; best.msg = r.msg; best.desc = r.desc; } if (o.label == "hang") { again = 3; break; } }
            if (again < 3) {   // fall back on the unshrunk case
                again = 0;
                for (int k = 0; k < 3; ++k) { Outcome r = run_forked(sub, 0, &o.choices, sl, el, true); if (r.st == FAILED) { ++again; best = r; best.choices = o.choices; } }
            }
            std::stringstream ss;
            ss << "{\"sub\": " << json_str(sub.name) << ", \"index\": " << fidx << ", \"seed\": " << seed << ", \"confirmed\": " << again
               << ", \"shrink_runs\": " << runs << ", \"label\": " << json_str(best.label) << ", \"message\": " << json_str(best.msg)
               << ", \"case\": " << json_str(best.desc) << ", \"choices\": [";
            for (size_t k = 0; k < best.choices.size(); ++k) ss << (k ? "," : "") << best.choices[k];
            ss << "]}";
            viol = ss.str();
        } else {
            // The failure needs the history of the cases before it: find the shortest suffix that reproduces it.
            int again = 0; uint64_t first = w; Outcome r;
            for (uint64_t k = 1;; k *= 2) {
                first = fidx >= k * W ? fidx - k * W : w;
                r = run_history(sp, seed, first, fidx, W, only, sl, el);
                if (r.st == FAILED || first == (uint64_t) w) break;
            }
            for (int k = 0; k < 3 && r.st == FAILED; ++k) { r = run_history(sp, seed, first, fidx, W, only, sl, el); if (r.st == FAILED) ++again; }
            std::stringstream ss;
            ss << "{\"sub\": " << json_str(sub.name) << ", \"index\": " << fidx << ", \"seed\": " << seed << ", \"confirmed\": " << again
               << ", \"history\": [" << first << ", " << fidx << ", " << W << "], \"only\": " << json_str(only)
               << ", \"label\": " << json_str(r.label) << ", \"message\": " << json_str(r.msg) << ", \"case\": " << json_str(r.desc) << ", \"choices\": []}";
            viol = ss.str();
        }
    }

    std::ofstream o(opt["--out"].c_str());
    o << "{\"property\": " << json_str(sp.property) << ", \"rule\": " << json_str(sp.rule) << ", \"requested\": " << N
      << ", \"evaluations\": " << evals << ", \"nontrivial\": " << nontriv << ", \"distinct_nontrivial\": " << distinct.size()
      << ", \"discarded\": " << disc << ", \"wall_s\": " << now() - t0 << ",\n \"assumptions\": [";
    for (size_t k = 0; k < sp.assumptions.size(); ++k) o << (k ? ", " : "") << json_str(sp.assumptions[k]);
    o << "],\n \"subs\": {";
    bool first = true;
    for (auto& l : persub) { o << (first ? "" : ", ") << json_str(l.first) << ": {\"evaluations\": " << l.second.first << ", \"nontrivial\": " << l.second.second << "}"; first = false; }
    o << "},\n \"labels\": {";
    first = true;
    for (auto& l : lab) { o << (first ? "" : ", ") << json_str(l.first) << ": " << l.second; first = false; }
    o << "},\n \"samples\": [";
    for (size_t k = 0; k < samples.size(); ++k) o << (k ? ", " : "") << samples[k];
    o << "],\n \"violation\": " << (viol.empty() ? "null" : viol) << "}\n";
    o.close();
    return 0;
}
