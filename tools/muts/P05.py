MUTS=[
('bug','static phase',[('src/fund_oscillator.cpp','    this->reserve();','    static int blocks = 0;\n    if (blocks++ == 0) { this->inc_phase(0); }\n    this->reserve();')]),
('bug','shared scratch',[('src/envelope.cpp','    this->reserve();','    static double last = 0;\n    if (this->get_stop_value() != last) { last = this->get_stop_value(); this->set_start_value(last); }\n    this->reserve();')]),
('bug','dither',[('src/audio_buffer.cpp','int16_t mf_int16(double val) {','#include <cstdlib>\nint16_t mf_int16(double val) {\n    val += (std::rand() % 2) * 1e-9;')]),
('bug','cached kernel in header',[('include/maec/dsp/kernel.hpp','#pragma once','#pragma once\n#include <vector>\ninline std::vector<double> kernel_cache;\ninline double cached(int i) { if (kernel_cache.empty()) kernel_cache.resize(8, 1.0); kernel_cache[i] += 1; return kernel_cache[i]; }')]),
('bug','thread local',[('src/audio_buffer.cpp','uint16_t mf_uint16(double val) {','uint16_t mf_uint16(double val) {\n    thread_local double error = 0;\n    val += error;\n    error = val * 1e-9;')]),
('bug','counter of modules',[('src/base_module.cpp','void BaseModule::start() {','static int started = 0;\nint modules_started() { return started; }\nvoid BaseModule::start() {\n    ++started;')]),
('bug','static member',[('include/maec/base_oscillator.hpp','class BaseOscillator : public SourceModule {','class BaseOscillator : public SourceModule {\npublic:\n    static inline double master = 0;'),('src/fund_oscillator.cpp','    this->reserve();','    this->set_phase(this->get_phase() + BaseOscillator::master);\n    BaseOscillator::master += 1;\n    this->reserve();')]),
('same','static table',[('src/audio_buffer.cpp','int16_t mf_int16(double val) {','#include <cmath>\nint16_t mf_int16(double val) {\n    static const double top = std::nextafter(32768., 0.);\n    if (top < 0) { return 0; }')]),
('same','file constant',[('src/base_module.cpp','void BaseModule::start() {','static const State_t_placeholder = 0;\nvoid BaseModule::start() {')]),
('same','static array',[('src/base_module.cpp','void BaseModule::start() {','static int weights[3] = {1, 2, 3};\nint weight(int i) { return weights[i]; }\nvoid BaseModule::start() {')]),
('same','lock',[('src/base_module.cpp','void BaseModule::start() {','#include <mutex>\nstatic std::mutex gate;\nvoid BaseModule::start() {\n    std::lock_guard<std::mutex> lock(gate);')]),
]
MUTS=[m for m in MUTS if m[1] != 'file constant']
