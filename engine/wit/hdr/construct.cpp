// Every module class, stream, file class and helper the headers offer can be constructed; compiled, never executed.
#include "amp_module.hpp"
#include "chrono.hpp"
#include "envelope.hpp"
#include "filter_module.hpp"
#include "fund_oscillator.hpp"
#include "io/alsa_module.hpp"
#include "io/mstream.hpp"
#include "io/wav.hpp"
#include "meta_audio.hpp"
#include "module_mixer.hpp"
#include "module_param.hpp"
#include "parallel.hpp"
#include "sink_module.hpp"
#include "source_module.hpp"
#include "dsp/iir.hpp"
#include "dsp/filt.hpp"
#include <type_traits>
template <class T> consteval void ok() { static_assert(!std::is_abstract_v<T>, "abstract"); static_assert(std::is_default_constructible_v<T>, "not default constructible"); static_assert(std::is_destructible_v<T>, "not destructible"); }
template <class T, class... A> consteval void from() { static_assert(std::is_constructible_v<T, A...>, "not constructible from these arguments"); }
template <class T> void make() { ok<T>(); T *p = new T(); delete p; }
void all() {
    make<SineOscillator>(); make<SquareOscillator>(); make<SawtoothOscillator>(); make<TriangleOscillator>();
    make<ModSineOscillator>(); make<ModSquareOscillator>(); make<ModSawtoothOscillator>(); make<ModTriangleOscillator>();
    make<ConstantEnvelope>(); make<SetValue>(); make<ExponentialRamp>(); make<LinearRamp>(); make<ChainEnvelope>(); make<ADSREnvelope>();
    make<ConstModule>(); make<AmplitudeScale<>>(); make<AmplitudeAdd<>>(); make<SincFilter<>>(); make<SinkModule<>>(); make<PeriodSink>();
    make<ModuleMixDown>(); make<ModuleMixUp>(); make<MultiMix>(); make<ModuleParam>(); make<ParamModule<1>>(); make<ParamSource<1>>(); make<ParamSink<1>>();
    make<Counter>(); make<LatencyModule>(); make<BufferModule>(); make<UniformBuffer>(); make<ParallelModule>(); make<ChainTimer>();
    make<ALSASink>(); make<ALSABase>(); make<DeviceInfo>();
    make<CharIStream>(); make<CharOStream>(); make<FIStream>(); make<FOStream>();
    make<WavHeader>(); make<WavFormat>(); make<WaveReader>(); make<WaveWriter>(); make<WaveSource>();
    make<dsp::iir::IIRFilter<double>>(); make<dsp::iir::SinglePole<double>>(); make<AudioBuffer>();
    from<SineOscillator, double>(); from<UnknownChunk, uint32_t>(); from<WaveReader, BaseMIStream *>(); from<WaveWriter, BaseMOStream *>(); from<AudioBuffer, int, int>(); from<AudioBuffer, int, int, double>();
}
