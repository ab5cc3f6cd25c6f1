/**
 * vp.h -- contract language of the /verif deductive checker.
 *
 * A contract file is an ordinary C++ translation unit that includes the real
 * headers of /repo and states, per function of the library, a contract:
 *
 *     VP_CONTRACT(name) { inputs; requires; call of the real function; ensures }
 *
 * The same file is compiled twice, on every run, from /repo's current sources:
 *  - to LLVM bitcode together with the real .cc files; dvc generates one
 *    verification condition per ensures() / memory access / callee precondition
 *    on every path and discharges it for ALL inputs (inputs are symbolic);
 *  - natively, where inputs come from a replay file or a random generator.
 *    The native build is used only to turn a failed obligation into a
 *    concrete failing input of the real code.
 */
#pragma once
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

extern "C" {
/* symbolic inputs; in the native build drawn from [lo,hi] (hints only, not a
 * precondition) */
double vp_double(const char* name, double lo, double hi);
int64_t vp_int(const char* name, int64_t lo, int64_t hi); /* lo<=v<=hi IS a precondition */
/* fill p[0..n) with arbitrary reals. n may be symbolic */
void vp_doubles(const char* name, double* p, size_t n, double lo, double hi);
/* precondition: discards executions where c is false */
void vp_requires(bool c);
/* proof obligation */
void vp_ensures(const char* label, bool c);
/* proof obligation a==b (reals); natively: relative tolerance */
void vp_equal(const char* label, double a, double b);
/* proof obligation |a-b| <= tol, exact bound is over the reals */
void vp_near(const char* label, double a, double b, double tol);
/* proof obligation a<=b; natively with rounding slack */
void vp_le(const char* label, double a, double b);
/* the path may not get here */
void vp_unreachable(const char* label);
/* a true fact of real analysis handed to the solver (trusted lemma; listed in
 * the evidence).  Natively checked with a tolerance-free assert-like reject. */
void vp_fact(const char* lemma, bool c);
/* reachability witness: at least one path must reach this (vacuity guard) */
void vp_cover(const char* label);
/* a value the compiler knows nothing about; identity */
double vp_opaque(double x);
/* names a value: proofs first treat it as opaque, then unfold it */
double vp_let(double x);
/* prove, then use as a hypothesis for what follows */
void vp_lemma(const char* label, bool c);
/* an arbitrary but fixed function of the arguments: what a caller may assume of
 * an abstract interface (profile, boundary, ...) */
double vp_any0(const char* fn);
double vp_any1(const char* fn, double a);
double vp_any2(const char* fn, double a, double b);
double vp_any3(const char* fn, double a, double b, double c);
double vp_any4(const char* fn, double a, double b, double c, double d);
/* one of 0..n-1, each value explored separately */
int64_t vp_choice(const char* name, int64_t n);
/* 1 in dvc, 0 natively */
int vp_symbolic(void);
/* vp_equal whose native comparison tolerates 1e-6*scale absolute rounding */
void vp_equals(const char* label, double a, double b, double scale);
bool vp_bool(const char* name);
void vp_show(const char* name, double x);
}
#define VP_CONTRACT(name) extern "C" void vp_contract_##name(void)

/** Universally quantified index in [0,n). */
static inline size_t vp_index(const char* name, size_t n) {
    size_t k = (size_t)vp_int(name, 0, (int64_t)n - 1);
    vp_requires(k < n);
    return k;
}
