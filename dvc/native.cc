/**
 * native.cc -- native meaning of the contract language.
 *
 * Used only after the verifier has rejected (or could not decide) an
 * obligation: runs the same contract on the real code, guided by the
 * verifier's countermodel, to obtain a concrete failing input; and to replay
 * such an input.
 *
 *   native CONTRACT search SECONDS SEED OUT [MODEL]
 *   native CONTRACT replay FILE
 *
 * exit 0: no failure, 3: failure (OUT written), 4: every run was discarded
 */
#include "vp.h"
#include <dlfcn.h>
#include <unistd.h>
#include <cfloat>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace {
struct skip {};
struct failed {};
typedef std::map<std::string, double> vals;
vals replay_, model_, used_;
std::vector<std::string> order_;
std::map<std::string, int> count_;
bool replaying_ = false;
const char* out_ = nullptr;
std::string contract_, label_;
uint64_t rng_ = 88172645463325252ULL, fnseed_ = 1;
std::map<std::string, long> met_;
uint64_t rnd() {
    rng_ ^= rng_ << 13; rng_ ^= rng_ >> 7; rng_ ^= rng_ << 17;
    return rng_ * 2685821657736338717ULL;
}
double u01() { return (double)(rnd() >> 11) / 9007199254740992.0; }
int use_model_ = 0;  // 0 none, 1 all, 2 mixed

void dump(const char* why) {
    FILE* f = out_ ? fopen(out_, "w") : nullptr;
    for (int k = 0; k < 2; ++k) {
        FILE* o = k ? stdout : f;
        if (!o) continue;
        fprintf(o, "# contract %s\n# failed: %s\nfnseed %llu\n", contract_.c_str(), why, (unsigned long long)fnseed_);
        size_t n = 0;
        for (auto& s : order_) {
            if (k && ++n > 60) { fprintf(o, "...\n"); break; }
            fprintf(o, "%s %.17g\n", s.c_str(), used_[s]);
        }
        fflush(o);
    }
    if (f) fclose(f);
}
void on_death() { dump(("memory error or crash: " + label_).c_str()); }
[[noreturn]] void fail(const std::string& l, double a, double b, int n) {
    char buf[400];
    if (n) snprintf(buf, sizeof buf, "%s: %.17g vs %.17g", l.c_str(), a, b);
    else snprintf(buf, sizeof buf, "%s", l.c_str());
    dump(buf);
    throw failed();
}
std::string unique(const char* name) {
    int k = count_[name]++;
    return k ? std::string(name) + "#" + std::to_string(k) : std::string(name);
}
double note(const std::string& n, double v) {
    if (!used_.count(n)) order_.push_back(n);
    used_[n] = v;
    return v;
}
double draw(const std::string& n, double lo, double hi) {
    if (replaying_) {
        auto i = replay_.find(n);
        return note(n, i == replay_.end() ? 0.5 * (lo + hi) : i->second);
    }
    auto m = model_.find(n);
    if (m != model_.end() && (use_model_ == 1 || (use_model_ == 2 && u01() < 0.6))) return note(n, m->second);
    double r = u01(), v;
    if (r < 0.60) v = lo + (hi - lo) * u01();
    else if (r < 0.64) v = lo;
    else if (r < 0.68) v = hi;
    else if (r < 0.72) v = (lo <= 0 && hi >= 0) ? 0.0 : lo + (hi - lo) * u01();
    else if (r < 0.76) v = (lo <= 1 && hi >= 1) ? 1.0 : lo + (hi - lo) * u01();
    else if (r < 0.88) {  // round number
        double w = lo + (hi - lo) * u01();
        double q = std::pow(10.0, std::floor(std::log10((hi - lo) / 10 + 1e-300)));
        v = std::floor(w / q) * q;
        if (v < lo || v > hi) v = w;
    } else if (!order_.empty()) {  // (nearly) equal to an earlier input
        v = used_[order_[rnd() % order_.size()]];
        if (u01() < 0.3) v += (hi - lo) * 1e-7 * (u01() - 0.5);
        if (u01() < 0.2) v = -v;
        if (!(v >= lo && v <= hi)) v = lo + (hi - lo) * u01();
    } else v = lo + (hi - lo) * u01();
    return note(n, v);
}
uint64_t hash(uint64_t h, uint64_t x) {
    h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33;
    return h;
}
double any(const char* fn, std::vector<double> a) {
    uint64_t h = hash(fnseed_, 7);
    for (const char* c = fn; *c; ++c) h = hash(h, (uint64_t)*c);
    if (a.empty()) return 2.0 * (double)(h >> 11) / 9007199254740992.0 - 1.0;
    // smooth arbitrary function of the arguments
    double v = 0;
    for (int k = 0; k < 4; ++k) {
        h = hash(h, k);
        double ph = (double)(h & 0xffff) / 8192.0;
        for (double x : a) {
            h = hash(h, 3);
            double s = ((double)(h & 0xffff) / 65536.0 + 0.1);
            ph += s * (std::fabs(x) > 1e4 ? x * 1e-4 : x);
        }
        v += std::sin(ph);
    }
    return 0.5 * v;
}
bool approx(double a, double b, double rel, double abs) {
    if (a == b) return true;
    if (std::isnan(a) && std::isnan(b)) return true;
    double d = std::fabs(a - b);
    if (!(d == d)) return false;
    if (std::isinf(d)) return false;
    return d <= rel * std::fmax(std::fabs(a), std::fabs(b)) + abs;
}
void load(const char* file, vals& v) {
    FILE* f = fopen(file, "r");
    if (!f) return;
    char line[1000], name[900];
    double x;
    while (fgets(line, sizeof line, f)) {
        if (line[0] == '#') continue;
        if (sscanf(line, "%899s %lf", name, &x) == 2) v[name] = x;
    }
    fclose(f);
}
}  // namespace

extern "C" {
double vp_double(const char* name, double lo, double hi) { return draw(unique(name), lo, hi); }
int64_t vp_int(const char* name, int64_t lo, int64_t hi) {
    std::string n = unique(name);
    if (hi < lo) throw skip();
    int64_t v;
    if (replaying_) {
        auto i = replay_.find(n);
        v = i == replay_.end() ? lo : (int64_t)i->second;
        if (v < lo || v > hi) throw skip();
    } else {
        auto m = model_.find(n);
        if (m != model_.end() && m->second >= (double)lo && m->second <= (double)hi && (use_model_ == 1 || (use_model_ == 2 && u01() < 0.6)))
            v = (int64_t)m->second;
        else {
            double r = u01();
            uint64_t span = (uint64_t)(hi - lo);
            if (span > 40 && r < 0.7) span = 40;  // small first
            v = r > 0.9 ? hi : lo + (int64_t)(rnd() % (span + 1));
            if (v > lo + 4000) v = lo + (int64_t)(rnd() % 4001);
        }
    }
    note(n, (double)v);
    return v;
}
bool vp_bool(const char* name) { return vp_int(name, 0, 1) != 0; }
int64_t vp_choice(const char* name, int64_t n) { return vp_int(name, 0, n - 1); }
void vp_doubles(const char* name, double* p, size_t n, double lo, double hi) {
    std::string b = unique(name);
    if (n > 100000) throw skip();
    for (size_t i = 0; i < n; ++i) p[i] = draw(b + "[" + std::to_string(i) + "]", lo, hi);
}
void vp_requires(bool c) { if (!c) throw skip(); }
void vp_ensures(const char* l, bool c) { ++met_[l]; if (!c) fail(l, 0, 0, 0); }
void vp_lemma(const char* l, bool c) { (void)l; if (!c) throw skip(); }
void vp_fact(const char* l, bool c) { (void)l; (void)c; }
void vp_unreachable(const char* l) { fail(std::string("reached: ") + l, 0, 0, 0); }
void vp_cover(const char* l) { ++met_[l]; }
void vp_equal(const char* l, double a, double b) { ++met_[l]; if (!approx(a, b, 1e-6, 1e-9)) fail(l, a, b, 1); }
void vp_equals(const char* l, double a, double b, double scale) {
    ++met_[l]; if (!approx(a, b, 1e-6, 1e-6 * std::fabs(scale))) fail(l, a, b, 1);
}
void vp_near(const char* l, double a, double b, double tol) { ++met_[l]; if (!approx(a, b, 1e-6, tol * (1 + 1e-6))) fail(l, a, b, 1); }
void vp_le(const char* l, double a, double b) {
    ++met_[l];
    if (std::isnan(a) || std::isnan(b) || (a > b && !approx(a, b, 1e-6, 1e-9))) fail(l, a, b, 1);
}
double vp_opaque(double x) { return x; }
double vp_let(double x) { return x; }
double vp_any0(const char* f) { return any(f, {}); }
double vp_any1(const char* f, double a) { return any(f, {a}); }
double vp_any2(const char* f, double a, double b) { return any(f, {a, b}); }
double vp_any3(const char* f, double a, double b, double c) { return any(f, {a, b, c}); }
double vp_any4(const char* f, double a, double b, double c, double d) { return any(f, {a, b, c, d}); }
int vp_symbolic(void) { return 0; }
void vp_show(const char* n, double x) { if (replaying_) fprintf(stderr, "  %s = %.17g\n", n, x); }
}

static int once(void (*fn)()) {  // 0 ok, 1 skipped, 3 failed
    used_.clear(); order_.clear(); count_.clear();
    label_ = "";
    try { fn(); }
    catch (skip&) { return 1; }
    catch (failed&) { return 3; }
    catch (std::exception& e) { dump((std::string("uncaught exception ") + e.what()).c_str()); return 3; }
    catch (...) { dump("uncaught exception"); return 3; }
    return 0;
}

int main(int argc, char** argv) {
    if (argc < 4) return 2;
    contract_ = argv[1];
    void (*fn)() = (void (*)())dlsym(nullptr, ("vp_contract_" + contract_).c_str());
    if (!fn) { fprintf(stderr, "no contract %s\n", argv[1]); return 2; }
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
    if (!strcmp(argv[2], "replay")) {
        load(argv[3], replay_);
        if (replay_.count("fnseed")) fnseed_ = (uint64_t)replay_["fnseed"];
        replaying_ = true;
        int r = once(fn);
        printf("replay %s: %s\n", argv[1], r == 3 ? "FAILED" : r == 1 ? "discarded" : "passed");
        fflush(stdout);
        _exit(r == 3 ? 3 : 0);
    }
    double secs = atof(argv[3]);
    rng_ ^= strtoull(argv[4], 0, 10) * 0x9e3779b97f4a7c15ULL;
    for (int i = 0; i < 10; ++i) rnd();
    out_ = argv[5];
    if (argc > 6) load(argv[6], model_);
    long runs = 0, ok = 0;
    struct timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    while (true) {
        fnseed_ = runs < 3 ? 1 + runs : (rnd() & 0xfffff) + 1;
        use_model_ = model_.empty() ? 0 : runs < 3 ? 1 : (runs % 2 ? 2 : 0);
        int r = once(fn);
        ++runs;
        if (r == 3) { printf("runs %ld\n", runs); fflush(stdout); _exit(3); }
        if (r == 0) ++ok;
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if ((double)(t1.tv_sec - t0.tv_sec) + 1e-9 * (double)(t1.tv_nsec - t0.tv_nsec) > secs) break;
    }
    printf("runs %ld accepted %ld\n", runs, ok);
    fflush(stdout);
    _exit(ok ? 0 : 4);
}
