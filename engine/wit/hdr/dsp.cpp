// Instantiations of the signal processing functions on the kinds of iterators they are documented for; compiled, never executed.
#include "audio_buffer.hpp"
#include "dsp/buffer.hpp"
#include "dsp/conv.hpp"
#include "dsp/ft.hpp"
#include "dsp/kernel.hpp"
#include "dsp/matrix.hpp"
#include "dsp/util.hpp"
#include "dsp/window.hpp"
#include <complex>
#include <deque>
#include <vector>
template <class I, class O> void convs(I x, O o) {
    dsp::conv::input_conv(x, std::size_t(4), x, std::size_t(3), o);
    dsp::conv::output_conv(x, std::size_t(4), x, std::size_t(3), o);
    dsp::conv::input_conv(x, x, x, x, o);
    dsp::conv::output_conv(x, x, x, x, o);
    dsp::conv::conv_fft(x, 4, x, 3, o);
}
template <class R, class Z> void fts(R x, Z z) {
    dsp::ft::dft(x, 4, z);
    dsp::ft::inv_dft(z, 4, x);
    dsp::ft::fft_c_radix2(z, 4, z);
    dsp::ft::ifft_c_radix2(z, 4, z);
    dsp::ft::fft_c_radix2(z, 4);
    dsp::ft::ifft_c_radix2(z, 4);
    dsp::ft::fft_r_radix2(x, 4, z);
    dsp::ft::ifft_r_radix2(z, 4, x);
    dsp::util::bit_reverse(4, z);
    dsp::util::multiply_signals(4, z, z, z);
    dsp::util::multiply_signals(4, x, x, x);
    dsp::util::real_complex_naive(x, 4, z);
    dsp::util::real_eop_complex(x, 4, z);
}
template <class K> void kernels(K k) {
    dsp::kern::spectral_inversion(k, 5);
    dsp::kern::spectral_reversal(k, 5);
    dsp::kern::sinc_kernel(0.25, 5, k);
    dsp::kern::sinc_kernel(0.25, 5, k, dsp::win::window_rectangle);
}
void all(double *p, std::vector<double> &v, std::deque<double> &d, AudioBuffer &b, std::complex<double> *z, std::vector<std::complex<double>> &vz, std::deque<std::complex<double>> &dz) {
    convs(p, p); convs(v.begin(), v.begin()); convs(d.begin(), d.begin()); convs(b.ibegin(), b.ibegin()); convs(b.sbegin(), b.sbegin()); convs(p, v.begin());
    fts(p, z); fts(v.begin(), vz.begin()); fts(d.begin(), dz.begin());
    kernels(p); kernels(v.begin()); kernels(d.begin()); kernels(b.ibegin());
    (void)dsp::mat::dot_product(p, p, 4); (void)dsp::mat::dot_product(v.begin(), d.begin(), 4);
    dsp::buff::Buffer<double> q; dsp::buff::Buffer<float> f; dsp::buff::Buffer<int> i;
    dsp::mat::matrix_mult(q, q, q); dsp::mat::matrix_mult(f, f, f); dsp::mat::matrix_mult(i, f, q);
}
