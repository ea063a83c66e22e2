// Instantiations of the public templates, so that their bodies exist in the analysed program.
#include "audio_module.hpp"
#include "sink_module.hpp"
#include "source_module.hpp"
#include "module_param.hpp"
#include "module_mixer.hpp"
#include "parallel.hpp"
#include "amp_module.hpp"
#include "meta_audio.hpp"
#include "filter_module.hpp"
#include "base_oscillator.hpp"
#include "fund_oscillator.hpp"
namespace wit {
// A statically linked backward module and an explicit child: the devirtualised branches.
class Src : public SourceModule { public: void process() override; void meta_process() override; void meta_start() override; void meta_stop() override;
    void meta_finish() override; void meta_info_sync() override; AudioBuffer &&get_buffer() override; using BaseModule::forward; void forward(BaseModule *) override; };  // bodies deliberately opaque
class Mid : public AudioModule<Mid, Src> { public: void process() override; };
class Mid2 : public AudioModule<Mid2, BaseModule*> { public: void process() override; };
void Src::process() {}  // key function: emits the vtable
template <class T> void *mk() { return new T; }
}
template class AudioModule<void, BaseModule*>;
template class AudioModule<wit::Mid2, BaseModule*>;
template class AudioModule<void, wit::Src>;
template class AudioModule<wit::Mid, wit::Src>;
template class SinkModule<BaseModule*>;
template class SinkModule<wit::Src>;
template class BaseParamModule<3>;
template class ParamModule<3>;
template class ParamSink<3>;
template class ParamSource<3>;
template class BaseAmplitude<void, BaseModule*>;
template class AmplitudeScale<BaseModule*>;
template class AmplitudeAdd<BaseModule*>;
template class BaseFilter<void, BaseModule*>;
template class BaseConvFilter<void, BaseModule*>;
template class SincFilter<BaseModule*>;
template void *wit::mk<ParallelModule>();
template void *wit::mk<MultiMix>();
template void *wit::mk<ModuleMixDown>();
template void *wit::mk<ModuleMixUp>();
template void *wit::mk<PeriodSink>();
template void *wit::mk<ModuleParam>();
template void *wit::mk<BaseOscillator>();
template void *wit::mk<BaseModulatedOscillator>();
template void *wit::mk<Counter>();
template void *wit::mk<LatencyModule>();
template void *wit::mk<BufferModule>();
template void *wit::mk<UniformBuffer>();
template void *wit::mk<ConstModule>();
template void *wit::mk<AudioModule<void, BaseModule*>>();
template void *wit::mk<wit::Mid2>();
template void *wit::mk<AudioModule<void, wit::Src>>();
template void *wit::mk<wit::Mid>();
template void *wit::mk<SinkModule<BaseModule*>>();
template void *wit::mk<SinkModule<wit::Src>>();
template void *wit::mk<ParamModule<3>>();
template void *wit::mk<ParamSink<3>>();
template void *wit::mk<ParamSource<3>>();
template void *wit::mk<AmplitudeScale<BaseModule*>>();
template void *wit::mk<AmplitudeAdd<BaseModule*>>();
template void *wit::mk<SincFilter<BaseModule*>>();
// Public accessors, compiled on their own so that the fields behind them can be located whatever they are called.
extern "C" {
BaseModule::State wit_get_state(BaseModule *m) { return m->get_state(); }
ChainInfo *wit_get_chain_info(BaseModule *m) { return m->get_chain_info(); }
ModuleInfo *wit_get_info(BaseModule *m) { return m->get_info(); }
BaseModule *wit_base_forward(BaseModule *m) { return m->BaseModule::forward(); }
AudioBuffer *wit_base_buffer(BaseModule *m) { AudioBuffer &&r = m->BaseModule::get_buffer(); return &r; }
void wit_set_buffer(BaseModule *m, AudioBuffer *b) { m->set_buffer(std::move(*b)); }
void wit_reserve(BaseModule *m) { m->reserve(); }
void wit_reserve2(BaseModule *m, int a, int b) { m->reserve(a, b); }
void wit_base_ctor(void *p) { struct X : BaseModule { void meta_process() override {} void meta_start() override {} void meta_stop() override {} void meta_finish() override {} void info_sync() override {} void meta_info_sync() override {} }; new (p) X; }
BaseModule *wit_backward(AudioModule<> *m) { return &m->backward(); }
}
#include "meta.hpp"
extern "C" {
int wit_period(PeriodSink *s) { return s->get_period(); }
// positive control: forgets the channel count and sample rate
void wit_ctl_partial_handoff(BaseModule *m, AudioBuffer *b) { static_cast<std::vector<double> &>(m->buff.buff) = std::move(b->buff); m->buff.set_channels(1); }
}
#include <new>
extern "C" {
void wit_sink_make(void *p) { new (p) SinkModule<>; }
void wit_sink_copy(void *p, const SinkModule<> *o) { new (p) SinkModule<>(*o); }
void wit_sink_move(void *p, SinkModule<> *o) { new (p) SinkModule<>(std::move(*o)); }
void wit_sink_assign(SinkModule<> *p, const SinkModule<> *o) { *p = *o; }
void wit_sink_moveassign(SinkModule<> *p, SinkModule<> *o) { *p = std::move(*o); }
}
#include "chrono.hpp"
extern "C" {
int wit_cnt_processed(Counter *c) { return c->processed(); }
int wit_cnt_samples(Counter *c) { return c->samples(); }
void wit_cnt_reset(Counter *c) { c->Counter::reset(); }
int64_t wit_lat_start(LatencyModule *c) { return c->get_start_time(); }
int64_t wit_lat_time(LatencyModule *c) { return c->time(); }
int64_t wit_lat_total_time(LatencyModule *c) { return c->total_time(); }
int64_t wit_lat_latency(LatencyModule *c) { return c->latency(); }
int64_t wit_lat_sum(LatencyModule *c) { return c->sum_latency(); }
int64_t wit_lat_total_latency(LatencyModule *c) { return c->total_latency(); }
int64_t wit_lat_expected(LatencyModule *c) { return c->expected(); }
int64_t wit_lat_avg_time(LatencyModule *c) { return c->average_time(); }
int64_t wit_lat_avg_latency(LatencyModule *c) { return c->average_latency(); }
int64_t wit_lat_elapsed(LatencyModule *c) { return c->elapsed(); }
void wit_lat_reset(LatencyModule *c) { c->reset(); }
void wit_lat_process(LatencyModule *c) { c->LatencyModule::process(); }
int wit_tm_sample(ChainTimer *t) { return t->get_sample(); }
int wit_tm_channels(ChainTimer *t) { return t->get_channels(); }
int64_t wit_tm_npf(ChainTimer *t) { return t->get_npf(); }
int64_t wit_tm_time(ChainTimer *t) { return t->get_time(); }
int64_t wit_tm_time1(ChainTimer *t, int s) { return t->get_time(s); }
int64_t wit_tm_time2(ChainTimer *t, int s, int c) { return t->get_time(s, c); }
void wit_tm_set_sample(ChainTimer *t, int s) { t->set_sample(s); }
void wit_tm_set_channels(ChainTimer *t, int s) { t->set_channels(s); }
void wit_tm_set_npf(ChainTimer *t, int64_t s) { t->set_npf(s); }
void wit_tm_set_rate(ChainTimer *t, int s) { t->set_samplerate(s); }
int wit_tm_rate(ChainTimer *t) { return t->get_samplerate(); }
void wit_tm_inc(ChainTimer *t) { t->inc_sample(); }
void wit_tm_add(ChainTimer *t, int s) { t->add_sample(s); }
void wit_tm_reset(ChainTimer *t) { t->reset(); }
}
extern "C" {
double wit_osc_phase(BaseOscillator *o) { return o->get_phase(); }
double wit_osc_freq(BaseOscillator *o) { return o->get_frequency(); }
void wit_osc_set_phase(BaseOscillator *o, double v) { o->set_phase(v); }
void wit_osc_inc_phase(BaseOscillator *o, double v) { o->inc_phase(v); }
void wit_osc_set_freq(BaseOscillator *o, double v) { o->set_frequency(v); }
double wit_mosc_phase(BaseModulatedOscillator *o) { return o->get_phase(); }
ModuleParam *wit_mosc_freq(BaseModulatedOscillator *o) { return o->get_frequency(); }
void wit_mosc_set_phase(BaseModulatedOscillator *o, double v) { o->set_phase(v); }
void wit_mosc_inc_phase(BaseModulatedOscillator *o, double v) { o->inc_phase(v); }
}
extern "C" {
std::size_t wit_par_get_max(const ParallelModule *p) { return p->max_size(); }
void wit_par_set_max(ParallelModule *p, std::size_t n) { p->max_size(n); }
std::size_t wit_par_size(const ParallelModule *p) { return p->size(); }
}
#include "envelope.hpp"
extern "C" {
int64_t wit_env_t0(BaseEnvelope *e) { return e->get_start_time(); }
int64_t wit_env_t1(BaseEnvelope *e) { return e->get_stop_time(); }
double wit_env_v0(BaseEnvelope *e) { return e->get_start_value(); }
double wit_env_v1(BaseEnvelope *e) { return e->get_stop_value(); }
void wit_env_set_t0(BaseEnvelope *e, int64_t v) { e->set_start_time(v); }
void wit_env_set_t1(BaseEnvelope *e, int64_t v) { e->set_stop_time(v); }
void wit_env_set_v0(BaseEnvelope *e, double v) { e->set_start_value(v); }
void wit_env_set_v1(BaseEnvelope *e, double v) { e->set_stop_value(v); }
ChainTimer *wit_env_timer(BaseEnvelope *e) { return e->get_timer(); }
int64_t wit_env_time(BaseEnvelope *e) { return e->get_time(); }
int64_t wit_env_time_inc(BaseEnvelope *e) { return e->get_time_inc(); }
int64_t wit_env_remaining(BaseEnvelope *e) { return e->remaining_samples(); }
int64_t wit_env_time_diff(BaseEnvelope *e) { return e->time_diff(); }
double wit_env_val_diff(BaseEnvelope *e) { return e->val_diff(); }
double wit_env_val_divide(BaseEnvelope *e) { return e->val_divide(); }
int64_t wit_dur_get(DurationEnvelope *e) { return e->get_duration(); }
BaseEnvelope *wit_dur_env(DurationEnvelope *e) { return e->get_envelope(); }
void wit_dur_set(DurationEnvelope *e, int64_t v) { e->set_duration(v); }
void wit_dur_set_env(DurationEnvelope *e, BaseEnvelope *v) { e->set_envelope(v); }
BaseEnvelope *wit_chain_current(ChainEnvelope *e) { return e->get_current(); }
int64_t wit_adsr_attack(ADSREnvelope *e) { return e->get_attack(); }
int64_t wit_adsr_decay(ADSREnvelope *e) { return e->get_decay(); }
double wit_adsr_sustain(ADSREnvelope *e) { return e->get_sustain(); }
int64_t wit_adsr_release(ADSREnvelope *e) { return e->get_release(); }
void wit_adsr_ctor(void *p, int64_t a, int64_t d, double s, int64_t r) { new (p) ADSREnvelope(a, d, s, r); }
}
extern "C" {
double wit_amp_value(AmplitudeScale<> *a) { return a->get_value(); }
void wit_amp_set(AmplitudeScale<> *a, double v) { a->set_value(v); }
void wit_amp_scale_ctor(void *p, double v) { new (p) AmplitudeScale<>(v); }
void wit_amp_add_ctor(void *p, double v) { new (p) AmplitudeAdd<>(v); }
void wit_amp_default(void *p) { new (p) AmplitudeAdd<>; }
}
