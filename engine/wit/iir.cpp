// Instantiations of the recursive filters; nothing here is ever executed.
#include "dsp/buffer.hpp"
#include "dsp/iir.hpp"
#include <new>
#include <deque>
#define C extern "C"
using F = dsp::iir::IIRFilter<double>;
using P = dsp::iir::SinglePole<double>;
C void wit_iir_process(F &f, const double *in, int n, double *out) { f.process(in, n, out); }
C void wit_iir_inplace(F &f, double *io, int n) { f.process(io, n); }
C void wit_iir_reserve(F &f) { f.reserve(); }
C void wit_iir_asize(F &f, int n) { f.set_asize(n); }
C void wit_iir_bsize(F &f, int n) { f.set_bsize(n); }
C int wit_iir_get_asize(const F &f) { return f.get_asize(); }
C int wit_iir_get_bsize(const F &f) { return f.get_bsize(); }
C void wit_iir_set_a(F &f, int i, double v) { f.set_a(i, v); }
C void wit_iir_set_b(F &f, int i, double v) { f.set_b(i, v); }
C double wit_iir_get_a(const F &f, int i) { return f.get_a(i); }
C double wit_iir_get_b(const F &f, int i) { return f.get_b(i); }
C void wit_iir_ctor(void *p, int a, int b) { new (p) F(a, b); }
C double *wit_iir_abegin(F &f) { return &*f.abegin(); }
C double *wit_iir_bbegin(F &f) { return &*f.bbegin(); }
C double *wit_iir_aend(F &f) { return &*f.aend(); }
C double *wit_iir_bend(F &f) { return &*f.bend(); }
C void wit_sp_generate(P &f) { f.P::generate_coefficients(); }
C void wit_sp_type(P &f, int t) { f.set_type(static_cast<dsp::consts::FilterType>(t)); }
C double wit_sp_fhigh(const P &f) { return f.get_frac_high(); }
C double wit_sp_flow(const P &f) { return f.get_frac_low(); }
C void wit_sp_set_fhigh(P &f, double v) { f.set_frac_high(v); }
C void wit_sp_set_flow(P &f, double v) { f.set_frac_low(v); }
C double wit_sp_high(const P &f) { return f.get_freq_high(); }
C double wit_sp_low(const P &f) { return f.get_freq_low(); }
C void wit_sp_set_high(P &f, double v) { f.set_freq_high(v); }
C void wit_sp_set_low(P &f, double v) { f.set_freq_low(v); }
C int wit_sp_rate(const P &f) { return f.get_sample_rate(); }
C void wit_sp_set_rate(P &f, int v) { f.set_sample_rate(v); }
C double wit_iir_single(double in, std::deque<double> &x, std::deque<double> &y, const double *a, const double *b, int n, int m) { return dsp::iir::iir_recursive_single(in, x, y, a, b, n, m); }
C void wit_sp_ctor(void *p) { new (p) P(); }
C int wit_sp_asize(const P &f) { return f.get_asize(); }
C int wit_sp_bsize(const P &f) { return f.get_bsize(); }
C double wit_sp_get_a(const P &f, int i) { return f.get_a(i); }
C double wit_sp_get_b(const P &f, int i) { return f.get_b(i); }
