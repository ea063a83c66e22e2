// Complete instantiations of the module templates; compiled, never executed.
#include "amp_module.hpp"
#include "audio_module.hpp"
#include "filter_module.hpp"
#include "module_param.hpp"
#include "sink_module.hpp"
#include "source_module.hpp"
#include "utils.hpp"
template class AudioModule<>;
template class AudioModule<void, ConstModule>;
template class AmplitudeScale<>;
template class AmplitudeAdd<>;
template class AmplitudeScale<ConstModule>;
template class AmplitudeAdd<AmplitudeScale<ConstModule>>;
template class BaseAmplitude<>;
template class BaseFilter<>;
template class BaseConvFilter<>;
template class SincFilter<>;
template class SincFilter<ConstModule>;
template class SinkModule<>;
template class SinkModule<ConstModule>;
template class SinkModule<AmplitudeScale<ConstModule>>;
template class Collection<BaseModule>;
template class BaseParamModule<1>;
template class BaseParamModule<4>;
template class ParamModule<2>;
template class ParamSource<2>;
template class ParamSink<2>;
