// Complete instantiations of the recursive filters; compiled, never executed.
#include "dsp/iir.hpp"
#include <deque>
#include <vector>
template class dsp::iir::IIRFilter<double>;
template class dsp::iir::IIRFilter<float>;
template class dsp::iir::BaseIIRImplementation<double>;
template class dsp::iir::SinglePole<double>;
template class dsp::iir::SinglePole<float>;
template std::complex<double> dsp::iir::freq_response(double, const std::vector<double> &, const std::vector<double> &);
