MUTS=[
('bug','swapped parameters',[('include/maec/base_oscillator.hpp','    BaseOscillator(double freq, double pha) : phase(pha), freq(freq) {}','    BaseOscillator(double freq, double pha) : phase(freq), freq(pha) {}')]),
('bug','parameter dropped',[('include/maec/base_oscillator.hpp','        : ParamSource<1>(&freq), phase(pha), freq(freqv) {}','        : ParamSource<1>(&freq), freq(freqv) {}')]),
('bug','setter narrows',[('include/maec/envelope.hpp','void set_start_time(int64_t startt) { this->start_time = startt; }','void set_start_time(int startt) { this->start_time = startt; }')]),
('bug','setter clamps',[('include/maec/filter_module.hpp','void set_stop_freq(double freq) { this->stop_freq = freq; }','void set_stop_freq(double freq) { this->stop_freq = freq < this->start_freq ? this->start_freq : freq; }')]),
('bug','setter moves its neighbour',[('include/maec/envelope.hpp','void set_attack(int64_t att) { this->attack = att; }','void set_attack(int64_t att) { this->attack = att; if (this->decay < att) { this->decay = att; } }')]),
('bug','getter of another',[('include/maec/base_module.hpp','    ChainInfo* get_chain_info() const { return this->chain; }','    ChainInfo* get_chain_info() const { return this->forwardv ? this->chain : nullptr; }')]),
('bug','info field',[('include/maec/base_module.hpp','''        in_buffer = cinfo.buffer_size;
        out_buffer = cinfo.buffer_size;''','''        in_buffer = cinfo.buffer_size;
        out_buffer = BUFF_SIZE;''')]),
('bug','info constructor',[('include/maec/base_module.hpp','          channels(cinfo.channels) {}','          channels(cinfo.module_num) {}')]),
('bug','hertz',[('include/maec/dsp/iir.hpp','this->freq_low = freq / this->sample_rate;','this->freq_low = freq / (this->sample_rate / 2);')]),
('bug','coefficient',[('include/maec/dsp/iir.hpp','void set_b(int index, T value) { this->bcoes[index] = value; }','void set_b(int index, T value) { this->bcoes[index] = -value; }')]),
('bug','adsr order',[('include/maec/envelope.hpp',': attack(att), decay(dec), sustain(sus), release(rel) {}',': attack(att), decay(rel), sustain(sus), release(dec) {}')]),
('bug','adsr integer sustain',[('include/maec/envelope.hpp','    void set_sustain(double sus) { this->sustain = sus; }','    void set_sustain(float sus) { this->sustain = sus; }')]),
('bug','rate of created buffer',[('src/audio_buffer.cpp','std::make_unique<AudioBuffer>(size, channels, sample_rate)','std::make_unique<AudioBuffer>(size, channels)')]),
('bug','timer add',[('include/maec/chrono.hpp','this->sample += val;','this->sample = val;')]),
('bug','phase wraps',[('include/maec/base_oscillator.hpp','    void set_phase(double phs) { this->phase = phs; }\n\n    /**\n     * @brief Increments the phase by the provided amount','    void set_phase(double phs) { this->phase = phs - static_cast<int>(phs); }\n\n    /**\n     * @brief Increments the phase by the provided amount')]),
('bug','buffer size of reader',[('include/maec/io/wav.hpp','void set_buffer_size(int bsize) { this->buffer_size = bsize; }','void set_buffer_size(int bsize) { this->buffer_size = bsize & ~1; }')]),
('bug','rate setter resets channels',[('include/maec/dsp/buffer.hpp','constexpr void set_samplerate(double rate) { this->sample_rate = rate; }','constexpr void set_samplerate(double rate) { if (rate != this->sample_rate) { this->nchannels = 1; } this->sample_rate = rate; }')]),
('same','body in helper',[('include/maec/base_oscillator.hpp','    void set_frequency(double fre) { this->freq = fre; }','    void set_frequency(double fre) { this->assign(this->freq, fre); }\n    static void assign(double& to, double v) { to = v; }')]),
('same','constructor by setters',[('include/maec/base_oscillator.hpp','    BaseOscillator(double freq, double pha) : phase(pha), freq(freq) {}','    BaseOscillator(double freq, double pha) { this->set_phase(pha); this->set_frequency(freq); }')]),
('same','guarded store',[('include/maec/envelope.hpp','void set_attack(int64_t att) { this->attack = att; }','void set_attack(int64_t att) { if (att != this->attack) { this->attack = att; } }')]),
('same','reorder fields',[('include/maec/base_module.hpp','''        in_buffer = cinfo.buffer_size;
        out_buffer = cinfo.buffer_size;''','''        out_buffer = cinfo.buffer_size;
        in_buffer = out_buffer;''')]),
('same','return through a local',[('include/maec/filter_module.hpp','    double get_stop_freq() const { return this->stop_freq; }','    double get_stop_freq() const {\n        const double f = this->stop_freq;\n        return f;\n    }')]),
('same','add by subtraction of setter',[('include/maec/chrono.hpp','this->sample += val;','this->set_sample(this->get_sample() + val);')]),
]
