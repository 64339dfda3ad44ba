// Harness API.  The same harness is linked with the symbolic runtime (exploration) and with
// replay.cc (uninstrumented replay of one assignment).
#pragma once
extern "C" {
int vp_int(const char* name, int lo, int hi);                 // any integer in [lo,hi]
long vp_long(const char* name, long lo, long hi);
bool vp_bool(const char* name);
double vp_grid(const char* name, int lo, int hi, int fracbits);  // k*2^-fracbits, k in [lo,hi]: exact floating point
float vp_gridf(const char* name, int lo, int hi, int fracbits);
double vp_real(const char* name, double lo, double hi);        // any real in [lo,hi] (idealised arithmetic)
int vp_choice(const char* name, int n);                        // enumerated completely: one path set per value
void vp_assume(bool c);
void vp_assert_(bool c, const char* id);
void vp_reach(const char* label);                              // vacuity witness
void vp_observe(const char* name, double v);                   // compared between exploration and native replay
void vp_note(const char* text);                                // attached to a counterexample
int vp_conc(int v);                                            // enumerate the value completely
// combinators that build one formula instead of branching (for oracles)
bool vp_and(bool a, bool b);
bool vp_or(bool a, bool b);
double vp_ite(bool c, double a, double b);
int vp_itei(bool c, int a, int b);
extern unsigned long vp_hash_salt;                             // selects the iteration order of absl hash tables
void vp_property();                                            // the harness body (defined by the harness)
}
#define vp_assert(c, id) vp_assert_((c), (id))
// all-of accumulator: vp_all ok; ok &= cond; vp_assert(ok, "...")
static inline bool vp_not(bool a) { return a == false; }
struct vp_all { bool v = true; vp_all& operator&=(bool c) { v = vp_and(v, c); return *this; } operator bool() const { return v; } };
