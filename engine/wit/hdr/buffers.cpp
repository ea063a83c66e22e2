// Complete instantiations of the buffer templates; compiled, never executed.
#include "audio_buffer.hpp"
#include "dsp/buffer.hpp"
#include <complex>
#include <cstdint>
template class dsp::buff::Buffer<double>;
template class dsp::buff::Buffer<float>;
template class dsp::buff::Buffer<int>;
template class dsp::buff::Buffer<int64_t>;
template class dsp::buff::Buffer<std::complex<double>>;
template class dsp::buff::StaticBuffer<double, 1>;
template class dsp::buff::StaticBuffer<double, 4>;
template class dsp::buff::StaticBuffer<float, 7>;
template class dsp::buff::BaseBuffer<std::vector<double>>;
template class dsp::buff::RingBuffer<double>;
template class dsp::buff::RingBuffer<float>;
template class dsp::buff::BaseBuffer<std::vector<double>>::SeqIterator<false>;
template class dsp::buff::BaseBuffer<std::vector<double>>::SeqIterator<true>;
template class dsp::buff::BaseBuffer<std::vector<double>>::InterIterator<false>;
template class dsp::buff::BaseBuffer<std::vector<double>>::InterIterator<true>;
template class dsp::buff::BaseBuffer<std::array<double, 4>>::SeqIterator<true>;
template class dsp::buff::BaseBuffer<std::array<double, 4>>::InterIterator<true>;
template class dsp::buff::RingBuffer<double>::RingIterator<double, false>;
