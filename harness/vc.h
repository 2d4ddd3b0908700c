// vc.h -- specification vocabulary shared by the proof build (LLVM IR -> irvc)
// and the native build (the same harness run against the real libraries).
#ifndef VC_H_
#define VC_H_
#include <cstdint>
#include <cstddef>
#include <cstdlib>
#include <string>

extern "C" {
// Nondeterministic values. In the proof build: fresh universally quantified
// symbols. In the native build: drawn from a replay file or a seeded RNG.
int64_t vcx_any_int(const char* name, int64_t lo, int64_t hi);
double vcx_any_real(const char* name);
bool vcx_any_bool(const char* name);
void vcx_assume(bool c);
void vcx_assert(bool c, const char* label);
void vcx_check(bool c, const char* label);  // CHECK in the code under proof
void vcx_unsupported(const char* why);
void* vcx_alloc(uint64_t elem_size, const char* name);  // unbounded typed array
void vcx_array_of(const void* p, uint64_t elem_size);   // layout of not yet accessed objects
void* vcx_newobj(uint64_t size, const char* family);    // heap object
void vcx_copy_all(void* dst, const void* src);          // whole-array copy
void vcx_fill_all(void* dst, const void* elem, uint64_t elem_size);
void vcx_havoc(void* p, uint64_t size);
bool vcx_forall(int64_t lo, int64_t hi, bool (*f)(void*, int64_t), void* c);
bool vcx_exists(int64_t lo, int64_t hi, bool (*f)(void*, int64_t), void* c);
bool vcx_forall_real(bool (*f)(void*, double), void* c);
void* vcx_local(const char* name, const char* type);    // in loop invariants
bool vcx_has_local(const char* name, const char* type);
int64_t vcx_outer_iter();   // iterations so far of the enclosing loop
int64_t vcx_iter();                                      // iterations so far
void vcx_hint_flat(int64_t x, int64_t y, int64_t stride, int64_t rows);  // lemma instances, see irvc.py
void vcx_hint_mul(int64_t a, int64_t b);  // sign rules of the product
bool vcx_pure(bool (*f)(void*), void* c);   // f() as one term, all its paths merged
void vcx_hint_trig(double x, double y);   // addition theorems at x+y, symmetry at -x
void vcx_hint_angle(double x, double y);  // (-pi, pi] is determined by sine and cosine
void vcx_define(bool c);                   // instance of a specification function's definition
void vcx_cover(const char* label);
int64_t vcx_choose(bool (*f)(void*, int64_t), void* c);  // some x with f(x)
// uninterpreted functions usable in specifications
int64_t vcx_uf1(const char* name, int64_t a);
int64_t vcx_uf2(const char* name, int64_t a, int64_t b);
int64_t vcx_uf3(const char* name, int64_t a, int64_t b, int64_t c);
int64_t vcx_ufi_r1(const char* name, double a);
int64_t vcx_ufi_r2(const char* name, double a, double b);
int64_t vcx_ufi_r3(const char* name, double a, double b, double c);
double vcx_ufr_r1(const char* name, double a);
double vcx_ufr_r2(const char* name, double a, double b);
double vcx_ufr_r3(const char* name, double a, double b, double c);
double vcx_ufr1(const char* name, int64_t a);
double vcx_ufr2(const char* name, int64_t a, int64_t b);
double vcx_ufr3(const char* name, int64_t a, int64_t b, int64_t c);
}

#ifndef VC_NATIVE
#define vc_assume(c) vcx_assume(c)
#define vc_assert(c, label) vcx_assert((c), label)
namespace vc {
template <class F>
inline bool forall(int64_t lo, int64_t hi, const F& f) {
  return vcx_forall(lo, hi, [](void* c, int64_t i) -> bool { return (*static_cast<const F*>(c))(i); }, const_cast<F*>(&f));
}
template <class F>
inline bool exists(int64_t lo, int64_t hi, const F& f) {
  return vcx_exists(lo, hi, [](void* c, int64_t i) -> bool { return (*static_cast<const F*>(c))(i); }, const_cast<F*>(&f));
}
template <class F>
inline bool pure(const F& f) {
  return vcx_pure([](void* c) -> bool { return (*static_cast<const F*>(c))(); }, const_cast<F*>(&f));
}
template <class F>
inline int64_t choose(const F& f) {
  return vcx_choose([](void* c, int64_t i) -> bool { return (*static_cast<const F*>(c))(i); }, const_cast<F*>(&f));
}
inline int any_int(const char* n, int64_t lo = -2147483648LL, int64_t hi = 2147483647LL) { return static_cast<int>(vcx_any_int(n, lo, hi)); }
inline int64_t any_i64(const char* n, int64_t lo = -(1LL << 62), int64_t hi = (1LL << 62)) { return vcx_any_int(n, lo, hi); }
inline bool any_bool(const char* n) { return vcx_any_bool(n); }
inline double any_real(const char* n) { return vcx_any_real(n); }
inline float any_float(const char* n) { return static_cast<float>(vcx_any_real(n)); }
template <class T> T* any_obj(const char* n) { return static_cast<T*>(vcx_alloc(sizeof(T), n)); }
template <class T> T& local(const char* name, const char* type) { return *static_cast<T*>(vcx_local(name, type)); }
}  // namespace vc
#define VC_HARNESS(name) extern "C" void vc_h_##name()
// Loop invariant for loop `ord` (source order) of the function whose demangled
// name contains the key given in the spec; referenced from spec.json.
#define VC_INV(name) extern "C" bool vc_inv_##name()
#endif
#define vc_implies(a, b) (!(a) || (b))
#endif
