MUTS=[
('bug','no initialiser',[('include/maec/base_oscillator.hpp','    /// The current phase of the oscillator\n    double phase = 0;\n\n    /// Frequency Parameter\n    double freq = 0;','    /// The current phase of the oscillator\n    double phase;\n\n    /// Frequency Parameter\n    double freq = 0;')]),
('bug','no initialiser of a counter',[('include/maec/meta_audio.hpp','    int m_samples = 0;','    int m_samples;')]),
('bug','stream index',[('include/maec/io/mstream.hpp','''    /// Vector to store character array in
    std::vector<unsigned char> arr;

    /// Current index of character array
    std::size_t index = 0;

public:

    CharIStream() = default;

    CharIStream(int size) : arr(size) {}''','''    /// Vector to store character array in
    std::vector<unsigned char> arr;

    /// Current index of character array
    std::size_t index;

public:

    CharIStream() : index(0) {}

    CharIStream(int size) : arr(size) {}''')]),
('bug','adsr one constructor',[('include/maec/envelope.hpp','    int64_t release = 0;\n\n    /// Collection','    int64_t release;\n\n    /// Collection'),('include/maec/envelope.hpp','    ADSREnvelope() = default;','    ADSREnvelope() : release(0) {}'),('include/maec/envelope.hpp','decay(dec), sustain(sus), release(rel) {}','decay(dec), sustain(sus) {}')]),
('bug','initialised from itself',[('include/maec/base_oscillator.hpp','    BaseOscillator(double freq) : freq(freq) {}','    BaseOscillator(double freq) : phase(phase), freq(freq) {}')]),
('bug','set on one path',[('include/maec/base_oscillator.hpp','    /// The current phase of the oscillator\n    double phase = 0;\n\n    /// Frequency Parameter\n    double freq = 0;\n\npublic:\n    BaseOscillator() = default;','    /// The current phase of the oscillator\n    double phase;\n\n    /// Frequency Parameter\n    double freq = 0;\n\npublic:\n    BaseOscillator() : phase(0) {}'),('include/maec/base_oscillator.hpp','    BaseOscillator(double freq) : freq(freq) {}','    BaseOscillator(double freq) : freq(freq) { if (freq > 0) { this->phase = 0; } }')]),
('bug','order of members',[('include/maec/filter_module.hpp','    double start_freq = 0;','    double start_freq = stop_freq;')]),
('bug','wrong destructor',[('include/maec/io/mstream.hpp','    virtual ~BaseMStream() = default;','')]),
('bug','copy forgets',[('include/maec/sink_module.hpp','        AudioModule<void, B>::operator=(other);','')]),
('bug','copy forgets chain record',[('include/maec/sink_module.hpp','''        : AudioModule<void, B>(other), chain_instance(other.chain_instance) {''','''        : AudioModule<void, B>(other) {''')]),
('bug','move shares chain record',[('include/maec/sink_module.hpp','''          chain_instance(other.chain_instance) {
        this->set_chain_info(&chain_instance);''','''          chain_instance(other.chain_instance) {''')]),
('bug','move shares parameter',[('include/maec/base_oscillator.hpp','''          phase(other.phase), freq(std::move(other.freq)) {
        this->get_array()->front() = &freq;
    }''','''          phase(other.phase), freq(std::move(other.freq)) {}''')]),
('bug','move forgets phase',[('include/maec/base_oscillator.hpp','''          phase(other.phase), freq(std::move(other.freq)) {''','''          freq(std::move(other.freq)) {''')]),
('bug','move of constant',[('include/maec/module_param.hpp','''        if (this->const_mod) {
            this->const_mod->forward(this);
        }''','')]),
('bug','assign drops value',[('include/maec/module_param.hpp','''        this->value = other.value;
        this->const_mod = std''','''        this->const_mod = std''')]),
('bug','member-wise copy',[('include/maec/chrono.hpp','class ChainTimer {','class ChainTimer {\npublic:\n    ChainTimer(const ChainTimer& o) : channels(o.channels), sample(o.sample) {}\n')]),
('same','initialisers in constructor',[('include/maec/base_oscillator.hpp','    /// The current phase of the oscillator\n    double phase = 0;\n\n    /// Frequency Parameter\n    double freq = 0;\n\npublic:\n    BaseOscillator() = default;','    /// The current phase of the oscillator\n    double phase;\n\n    /// Frequency Parameter\n    double freq;\n\npublic:\n    BaseOscillator() : BaseOscillator(0, 0) {}'),('include/maec/base_oscillator.hpp','    BaseOscillator(double freq) : freq(freq) {}','    BaseOscillator(double freq) { this->phase = 0; this->set_frequency(freq); }')]),
('same','helper',[('include/maec/meta_audio.hpp','    int m_processed = 0;','    int m_processed;'),('include/maec/meta_audio.hpp','    int m_samples = 0;\n\npublic:','    int m_samples;\n\npublic:\n    Counter() { this->reset(); }\n')]),
('same','written out copy',[('include/maec/base_oscillator.hpp','public:\n    BaseOscillator() = default;','public:\n    BaseOscillator() = default;\n    BaseOscillator(const BaseOscillator& o) : SourceModule(o), phase(o.phase), freq(o.freq) {}\n    BaseOscillator& operator=(const BaseOscillator& o) {\n        if (this == &o) return *this;\n        SourceModule::operator=(o);\n        phase = o.get_phase();\n        freq = o.freq;\n        return *this;\n    }\n')]),
('same','conditional value',[('include/maec/base_oscillator.hpp','    BaseOscillator(double freq) : freq(freq) {}','    BaseOscillator(double freq) { if (freq > 0) { this->freq = freq; } else { this->freq = freq; } }')]),
('same','swap the order',[('include/maec/module_param.hpp','''        this->value = other.value;
        this->const_mod = std::move(other.const_mod);
        this->claim_constant();''','''        this->const_mod = std::move(other.const_mod);
        this->claim_constant();
        this->value = other.value;''')]),
('same','member added',[('include/maec/base_oscillator.hpp','    /// Frequency Parameter\n    double freq = 0;','    /// Frequency Parameter\n    double freq = 0;\n    std::array<int, 3> spare{};\n    const char* label = "osc";')]),
]
