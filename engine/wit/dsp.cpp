// Instantiations of convolution, Fourier, kernel and matrix functions; nothing here is ever executed.
#include "audio_buffer.hpp"
#include "dsp/buffer.hpp"
#include "dsp/conv.hpp"
#include "dsp/ft.hpp"
#include "dsp/kernel.hpp"
#include "dsp/matrix.hpp"
#include "dsp/util.hpp"
#include "dsp/window.hpp"
#include <new>
#define C extern "C"
using Z = std::complex<double>;
using V = std::vector<double>::iterator;
using VZ = std::vector<Z>::iterator;
using B = dsp::buff::Buffer<double>;
static V it(double *p) { return V(p); }
static VZ it(Z *p) { return VZ(p); }
// convolution
C int wit_length_i(int a, int b) { return dsp::conv::length_conv(a, b); }
C int wit_length_u(std::size_t a, std::size_t b) { return dsp::conv::length_conv(a, b); }
C void wit_conv_in(const double *x, std::size_t n, const double *h, std::size_t m, double *o) { dsp::conv::input_conv(x, n, h, m, o); }
C void wit_conv_inv(double *x, std::size_t n, double *h, std::size_t m, double *o) { dsp::conv::input_conv(it(x), n, it(h), m, it(o)); }
C void wit_conv_in2(const double *x, const double *xe, const double *h, const double *he, double *o) { dsp::conv::input_conv(x, xe, h, he, o); }
C void wit_conv_out(const double *x, std::size_t n, const double *h, std::size_t m, double *o) { dsp::conv::output_conv(x, n, h, m, o); }
C void wit_conv_outv(double *x, std::size_t n, double *h, std::size_t m, double *o) { dsp::conv::output_conv(it(x), n, it(h), m, it(o)); }
C void wit_conv_out2(const double *x, const double *xe, const double *h, const double *he, double *o) { dsp::conv::output_conv(x, xe, h, he, o); }
C void wit_conv_inb(B &x, B &h, B &o) { dsp::conv::input_conv(x.ibegin(), x.size(), h.ibegin(), h.size(), o.ibegin()); }
C void wit_conv_outb(B &x, B &h, B &o) { dsp::conv::output_conv(x.ibegin(), x.size(), h.ibegin(), h.size(), o.ibegin()); }
C B *wit_conv_inp(B *x, B *h) { return dsp::conv::input_conv(BufferPointer(x), BufferPointer(h)).release(); }
C B *wit_conv_outp(B *x, B *h) { return dsp::conv::output_conv(BufferPointer(x), BufferPointer(h)).release(); }
C void wit_conv_fft(double *x, int n, double *h, int m, double *o) { dsp::conv::conv_fft(it(x), n, it(h), m, it(o)); }
// Fourier
C std::size_t wit_len_ft(std::size_t n) { return dsp::ft::length_ft(n); }
C std::size_t wit_len_ift(std::size_t n) { return dsp::ft::length_ift(n); }
C double wit_index_freq(std::size_t i, std::size_t n, double r) { return dsp::ft::index_freq(i, n, r); }
C double wit_cos_basis(int p, int t, double f) { return dsp::ft::cos_basis(p, t, f); }
C double wit_sin_basis(int p, int t, double f) { return dsp::ft::sin_basis(p, t, f); }
C void wit_dft(double *x, std::size_t n, Z *o) { dsp::ft::dft(x, n, o); }
C void wit_dftv(double *x, std::size_t n, Z *o) { dsp::ft::dft(it(x), n, it(o)); }
C void wit_inv_dft(Z *x, std::size_t n, double *o) { dsp::ft::inv_dft(x, n, o); }
C void wit_inv_dftv(Z *x, std::size_t n, double *o) { dsp::ft::inv_dft(it(x), n, it(o)); }
C void wit_fft_c(Z *x, int n, Z *o) { dsp::ft::fft_c_radix2(x, n, o); }
C void wit_fft_cs(Z *x, int n, Z *o, int stride, int sign) { dsp::ft::fft_c_radix2(x, n, o, stride, sign); }
C void wit_fft_cv(Z *x, int n, Z *o) { dsp::ft::fft_c_radix2(it(x), n, it(o)); }
C void wit_ifft_c(Z *x, int n, Z *o) { dsp::ft::ifft_c_radix2(x, n, o); }
C void wit_ifft_cs(Z *x, int n, Z *o, int stride) { dsp::ft::ifft_c_radix2(x, n, o, stride); }
C void wit_ifft_cv(Z *x, int n, Z *o) { dsp::ft::ifft_c_radix2(it(x), n, it(o)); }
C void wit_fft_ci(Z *x, int n) { dsp::ft::fft_c_radix2(x, n); }
C void wit_fft_civ(Z *x, int n) { dsp::ft::fft_c_radix2(it(x), n); }
C void wit_ifft_ci(Z *x, int n) { dsp::ft::ifft_c_radix2(x, n); }
C void wit_fft_r(double *x, int n, Z *o) { dsp::ft::fft_r_radix2(x, n, o); }
C void wit_fft_rv(double *x, int n, Z *o) { dsp::ft::fft_r_radix2(it(x), n, it(o)); }
C void wit_ifft_r(Z *x, int n, double *o) { dsp::ft::ifft_r_radix2(x, n, o); }
C void wit_ifft_rv(Z *x, int n, double *o) { dsp::ft::ifft_r_radix2(it(x), n, it(o)); }
// helpers
C void wit_bit_reverse(int n, Z *x) { dsp::util::bit_reverse(n, x); }
C void wit_bit_reversed(int n, double *x) { dsp::util::bit_reverse(n, x); }
C void wit_multiply(int n, double *x, double *y, double *o) { dsp::util::multiply_signals(n, x, y, o); }
C void wit_multiplyz(int n, Z *x, Z *y, Z *o) { dsp::util::multiply_signals(n, x, y, o); }
C void wit_real_naive(double *x, int n, Z *o) { dsp::util::real_complex_naive(x, n, o); }
C void wit_real_eop(double *x, int n, Z *o) { dsp::util::real_eop_complex(x, n, o); }
C double wit_dot(const double *a, const double *b, int n) { return dsp::mat::dot_product(a, b, n); }
C int wit_doti(const int *a, const int *b, int n) { return dsp::mat::dot_product(a, b, n); }
C long wit_dotl(const long *a, const long *b, int n) { return dsp::mat::dot_product(a, b, n); }
C void wit_mult(const B &a, const B &b, B &o) { dsp::mat::matrix_mult(a, b, o); }
C void wit_B_ctor(void *p, int n, int c) { new (p) B(n, c); }
// windows and kernels
C double wit_sinc(double x) { return dsp::util::sinc(x); }
C double wit_w_rect(int i, int n) { return dsp::win::window_rectangle(i, n); }
C double wit_w_hann(int i, int n) { return dsp::win::window_hann(i, n); }
C double wit_w_hanna(int i, int n, double a) { return dsp::win::window_hann(i, n, a); }
C double wit_w_hamming(int i, int n) { return dsp::win::window_hamming(i, n); }
C double wit_w_hamminga(int i, int n, double a) { return dsp::win::window_hamming(i, n, a); }
C double wit_w_blackmanc(int i, int n) { return dsp::win::window_blackmanc(i, n); }
C double wit_w_blackmanca(int i, int n, double a) { return dsp::win::window_blackmanc(i, n, a); }
C double wit_w_blackman(int i, int n) { return dsp::win::window_blackman(i, n); }
C void wit_inversion(double *k, int n) { dsp::kern::spectral_inversion(k, n); }
C void wit_reversal(double *k, int n) { dsp::kern::spectral_reversal(k, n); }
C void wit_sinc_kernel(double f, int n, double *o) { dsp::kern::sinc_kernel(f, n, o); }
C void wit_sinc_kernelw(double f, int n, double *o, double (*w)(int, int)) { dsp::kern::sinc_kernel(f, n, o, w); }
C void wit_sinc_kernelb(double f, B &o) { dsp::kern::sinc_kernel(f, o.size(), o.ibegin()); }
// buffers
C double *wit_B_data(B &b) { return &b.at(0); }
C std::size_t wit_B_size(const B &b) { return b.size(); }
C std::size_t wit_B_channels(const B &b) { return b.channels(); }
