// Instantiations of the convolution filters; nothing here is ever executed.
#include "filter_module.hpp"
#include <new>
#define C extern "C"
using F = SincFilter<>;
using B = AudioBuffer;
struct Plain : BaseConvFilter<Plain> {};
C void wit_cf_ctor(void *p) { new (p) Plain(); }
C void wit_sf_ctor(void *p) { new (p) F(); }
C void wit_cf_start(Plain &f) { f.start(); }
C void wit_sf_start(F &f) { f.start(); }
C void wit_cf_process(Plain &f) { f.process(); }
C void wit_sf_process(F &f) { f.process(); }
C void wit_sf_generate(F &f) { f.generate_kernel(); }
C void wit_cf_in(BaseModule &f, B &b) { f.set_buffer(std::move(b)); }
C B *wit_cf_out(BaseModule &f) { auto &&r = f.BaseModule::get_buffer(); return &r; }
C BaseModule *wit_cf_base(Plain &f) { return &f; }
C BaseModule *wit_sf_base(F &f) { return &f; }
C void wit_cf_kernel(Plain &f, B *k) { f.set_kernel(BufferPointer(k)); }
C B *wit_cf_get(Plain &f) { return f.get_kernel().release(); }
C B *wit_sf_get(F &f) { return f.get_kernel().release(); }
C void wit_sf_type(F &f, int t) { f.set_type(static_cast<dsp::consts::FilterType>(t)); }
C int wit_sf_get_type(const F &f) { return static_cast<int>(f.get_type()); }
C void wit_sf_f0(F &f, double v) { f.set_start_freq(v); }
C void wit_sf_f1(F &f, double v) { f.set_stop_freq(v); }
C double wit_sf_get_f0(const F &f) { return f.get_start_freq(); }
C double wit_sf_get_f1(const F &f) { return f.get_stop_freq(); }
C void wit_sf_size(F &f, int n) { f.set_size(n); }
C int wit_sf_get_size(const F &f) { return f.get_size(); }
C void wit_sf_rate(F &f, double r) { f.get_info()->sample_rate = r; }
C int wit_lowpass() { return static_cast<int>(dsp::consts::FilterType::LowPass); }
C int wit_highpass() { return static_cast<int>(dsp::consts::FilterType::HighPass); }
C int wit_bandpass() { return static_cast<int>(dsp::consts::FilterType::BandPass); }
C int wit_bandreject() { return static_cast<int>(dsp::consts::FilterType::BandReject); }
C void wit_B_ctor(void *p, int n, int c) { new (p) B(n, c); }
C void wit_B_ctorr(void *p, int n, int c, double r) { new (p) B(n, c, r); }
C double *wit_B_data(B &b) { return &b.at(0); }
C std::size_t wit_B_size(const B &b) { return b.size(); }
C std::size_t wit_B_channels(const B &b) { return b.channels(); }
C double wit_B_rate(const B &b) { return b.get_samplerate(); }
