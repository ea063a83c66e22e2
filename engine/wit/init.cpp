// Default initialisation and deletion of everything the headers let a user create; compiled, never executed.
#include "amp_module.hpp"
#include "chrono.hpp"
#include "envelope.hpp"
#include "filter_module.hpp"
#include "fund_oscillator.hpp"
#include "io/alsa_module.hpp"
#include "io/mstream.hpp"
#include "io/wav.hpp"
#include "meta_audio.hpp"
#include "module_mixer.hpp"
#include "module_param.hpp"
#include "parallel.hpp"
#include "sink_module.hpp"
#include "source_module.hpp"
#include "dsp/iir.hpp"
#include "dsp/filt.hpp"
#include "utils.hpp"
#include <new>
template <class T> void wit_init(void *p) { new (p) T; }
template void wit_init<AudioModule<>>(void *); template void wit_init<AudioModule<void, ConstModule>>(void *);
template void wit_init<SourceModule>(void *); template void wit_init<SinkModule<>>(void *); template void wit_init<PeriodSink>(void *); template void wit_init<SinkModule<ConstModule>>(void *);
template void wit_init<ModuleInfo>(void *); template void wit_init<ChainInfo>(void *);
template void wit_init<SineOscillator>(void *); template void wit_init<SquareOscillator>(void *); template void wit_init<SawtoothOscillator>(void *); template void wit_init<TriangleOscillator>(void *);
template void wit_init<ModSineOscillator>(void *); template void wit_init<ModSquareOscillator>(void *); template void wit_init<ModSawtoothOscillator>(void *); template void wit_init<ModTriangleOscillator>(void *);
template void wit_init<ConstantEnvelope>(void *); template void wit_init<SetValue>(void *); template void wit_init<ExponentialRamp>(void *); template void wit_init<LinearRamp>(void *);
template void wit_init<ChainEnvelope>(void *); template void wit_init<ADSREnvelope>(void *); template void wit_init<DurationEnvelope>(void *);
template void wit_init<ConstModule>(void *); template void wit_init<AmplitudeScale<>>(void *); template void wit_init<AmplitudeAdd<>>(void *); template void wit_init<AmplitudeAdd<AmplitudeScale<ConstModule>>>(void *);
template void wit_init<SincFilter<>>(void *); template void wit_init<SincFilter<ConstModule>>(void *);
template void wit_init<ModuleMixDown>(void *); template void wit_init<ModuleMixUp>(void *); template void wit_init<MultiMix>(void *);
template void wit_init<ModuleParam>(void *); template void wit_init<ParamModule<2>>(void *); template void wit_init<ParamSource<2>>(void *); template void wit_init<ParamSink<2>>(void *);
template void wit_init<Counter>(void *); template void wit_init<LatencyModule>(void *); template void wit_init<BufferModule>(void *); template void wit_init<UniformBuffer>(void *);
template void wit_init<ParallelModule>(void *); template void wit_init<ChainTimer>(void *);
template void wit_init<ALSASink>(void *); template void wit_init<ALSABase>(void *); template void wit_init<DeviceInfo>(void *);
template void wit_init<CharIStream>(void *); template void wit_init<CharOStream>(void *); template void wit_init<FIStream>(void *); template void wit_init<FOStream>(void *);
template void wit_init<WavHeader>(void *); template void wit_init<WavFormat>(void *); template void wit_init<WaveReader>(void *); template void wit_init<WaveWriter>(void *); template void wit_init<WaveSource>(void *);
template void wit_init<BaseWave>(void *); template void wit_init<ChunkHeader>(void *); template void wit_init<dsp::filt::FilterParams>(void *);
template void wit_init<dsp::iir::IIRFilter<double>>(void *); template void wit_init<dsp::iir::SinglePole<double>>(void *);
template void wit_init<AudioBuffer>(void *); template void wit_init<dsp::buff::StaticBuffer<double, 4>>(void *); template void wit_init<dsp::buff::RingBuffer<double>>(void *);
template void wit_init<Collection<BaseModule>>(void *);
template void wit_init<dsp::buff::BaseBuffer<std::vector<double>>::SeqIterator<false>>(void *); template void wit_init<dsp::buff::BaseBuffer<std::vector<double>>::InterIterator<true>>(void *);
#include <type_traits>
template <class T> void wit_copy(T *p, const T &o) { new (p) T(o); }
template <class T> void wit_move(T *p, T &o) { new (p) T(static_cast<T &&>(o)); }
template <class T> void wit_cassign(T *p, const T &o) { *p = o; }
template <class T> void wit_massign(T *p, T &o) { *p = static_cast<T &&>(o); }
// instantiates what the type offers
template <class T> void wit_special(T *p, T &o) {
    if constexpr (std::is_copy_constructible_v<T>) wit_copy<T>(p, o);
    if constexpr (std::is_move_constructible_v<T>) wit_move<T>(p, o);
    if constexpr (std::is_copy_assignable_v<T>) wit_cassign<T>(p, o);
    if constexpr (std::is_move_assignable_v<T>) wit_massign<T>(p, o);
}
template void wit_special<ModuleInfo>(ModuleInfo *, ModuleInfo &);
template void wit_special<ChainInfo>(ChainInfo *, ChainInfo &);
template void wit_special<ChainTimer>(ChainTimer *, ChainTimer &);
template void wit_special<SineOscillator>(SineOscillator *, SineOscillator &);
template void wit_special<SquareOscillator>(SquareOscillator *, SquareOscillator &);
template void wit_special<SawtoothOscillator>(SawtoothOscillator *, SawtoothOscillator &);
template void wit_special<TriangleOscillator>(TriangleOscillator *, TriangleOscillator &);
template void wit_special<ConstantEnvelope>(ConstantEnvelope *, ConstantEnvelope &);
template void wit_special<SetValue>(SetValue *, SetValue &);
template void wit_special<ExponentialRamp>(ExponentialRamp *, ExponentialRamp &);
template void wit_special<LinearRamp>(LinearRamp *, LinearRamp &);
template void wit_special<ConstModule>(ConstModule *, ConstModule &);
template void wit_special<AmplitudeScale<>>(AmplitudeScale<> *, AmplitudeScale<> &);
template void wit_special<AmplitudeAdd<>>(AmplitudeAdd<> *, AmplitudeAdd<> &);
template void wit_special<SinkModule<>>(SinkModule<> *, SinkModule<> &);
template void wit_special<PeriodSink>(PeriodSink *, PeriodSink &);
template void wit_special<ModuleMixDown>(ModuleMixDown *, ModuleMixDown &);
template void wit_special<ModuleMixUp>(ModuleMixUp *, ModuleMixUp &);
template void wit_special<MultiMix>(MultiMix *, MultiMix &);
template void wit_special<Counter>(Counter *, Counter &);
template void wit_special<LatencyModule>(LatencyModule *, LatencyModule &);
template void wit_special<BufferModule>(BufferModule *, BufferModule &);
template void wit_special<UniformBuffer>(UniformBuffer *, UniformBuffer &);
template void wit_special<DeviceInfo>(DeviceInfo *, DeviceInfo &);
template void wit_special<CharIStream>(CharIStream *, CharIStream &);
template void wit_special<CharOStream>(CharOStream *, CharOStream &);
template void wit_special<WavHeader>(WavHeader *, WavHeader &);
template void wit_special<WavFormat>(WavFormat *, WavFormat &);
template void wit_special<ChunkHeader>(ChunkHeader *, ChunkHeader &);
template void wit_special<UnknownChunk>(UnknownChunk *, UnknownChunk &);
template void wit_special<BaseWave>(BaseWave *, BaseWave &);
template void wit_special<WaveReader>(WaveReader *, WaveReader &);
template void wit_special<WaveWriter>(WaveWriter *, WaveWriter &);
template void wit_special<WaveSource>(WaveSource *, WaveSource &);
template void wit_special<dsp::filt::FilterParams>(dsp::filt::FilterParams *, dsp::filt::FilterParams &);
template void wit_special<dsp::iir::IIRFilter<double>>(dsp::iir::IIRFilter<double> *, dsp::iir::IIRFilter<double> &);
template void wit_special<dsp::iir::SinglePole<double>>(dsp::iir::SinglePole<double> *, dsp::iir::SinglePole<double> &);
template void wit_special<AudioBuffer>(AudioBuffer *, AudioBuffer &);
template void wit_special<dsp::buff::StaticBuffer<double,4>>(dsp::buff::StaticBuffer<double,4> *, dsp::buff::StaticBuffer<double,4> &);
template void wit_special<dsp::buff::RingBuffer<double>>(dsp::buff::RingBuffer<double> *, dsp::buff::RingBuffer<double> &);
template void wit_special<dsp::buff::BaseBuffer<std::vector<double>>::SeqIterator<false>>(dsp::buff::BaseBuffer<std::vector<double>>::SeqIterator<false> *, dsp::buff::BaseBuffer<std::vector<double>>::SeqIterator<false> &);
template void wit_special<dsp::buff::BaseBuffer<std::vector<double>>::InterIterator<true>>(dsp::buff::BaseBuffer<std::vector<double>>::InterIterator<true> *, dsp::buff::BaseBuffer<std::vector<double>>::InterIterator<true> &);
template void wit_special<ParamModule<2>>(ParamModule<2> *, ParamModule<2> &);
template void wit_special<ALSASink>(ALSASink *, ALSASink &);
template void wit_special<DurationEnvelope>(DurationEnvelope *, DurationEnvelope &);
template void wit_special<FIStream>(FIStream *, FIStream &);
template void wit_special<FOStream>(FOStream *, FOStream &);
template void wit_move<ChainEnvelope>(ChainEnvelope *, ChainEnvelope &); template void wit_massign<ChainEnvelope>(ChainEnvelope *, ChainEnvelope &);
template void wit_move<ADSREnvelope>(ADSREnvelope *, ADSREnvelope &); template void wit_massign<ADSREnvelope>(ADSREnvelope *, ADSREnvelope &);
template void wit_special<SincFilter<>>(SincFilter<> *, SincFilter<> &);
template void wit_special<ModuleParam>(ModuleParam *, ModuleParam &);
template void wit_move<Collection<BaseModule>>(Collection<BaseModule> *, Collection<BaseModule> &); template void wit_massign<Collection<BaseModule>>(Collection<BaseModule> *, Collection<BaseModule> &);
template void wit_special<ModSineOscillator>(ModSineOscillator *, ModSineOscillator &);
