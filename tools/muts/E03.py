O='src/fund_oscillator.cpp'; H='include/maec/base_oscillator.hpp'
SQ='(modf((this->get_frequency() * this->get_phase() /'
MUTS=[
('bug','sq-le',[(O,'&placeholder) < 0.5)','&placeholder) <= 0.5)')]),
('bug','int-rate',[(O,'this->get_phase() /\n                                        this->buff.get_samplerate()','static_cast<int>(this->get_phase() /\n                                        this->buff.get_samplerate())')]),
('bug','pi',[(O,'2.0 * std::numbers::pi_v<double>','2.0 * 3.14159')]),
('bug','info-inbuf',[(O,'''        this->inc_phase(1);
''','''        this->inc_phase(this->buff.channels());
''')]),
('bug','tri-quarter',[(O,'temp = (0.5 - temp) * 4.0;','temp = (0.75 - temp) * 4.0;')]),
('bug','saw-nohalf',[(O,'2.0 * modf((this->get_phase() + 0.5)','2.0 * modf((this->get_phase() + 0.25)')]),
('bug','mod-first',[(O,'auto freqv = fdata.at(iter.get_index());','auto freqv = fdata.at(0);')]),
('bug','mod-int',[(O,'this->inc_phase(freqv * (1 / sampler));','this->inc_phase(static_cast<int>(freqv) * (1 / sampler));')]),
('bug','mod-idx+1',[(O,'''        *iter = sin(this->get_phase() * TWO_PI);''','''        this->inc_phase(0.0 * 1); if (iter.get_index() == 0 && this->get_phase() > 1.0) this->set_phase(0);
        *iter = sin(this->get_phase() * TWO_PI);''')]),
('bug','reset-phase',[(O,'    this->reserve();','    this->reserve();\n    if (this->get_phase() > this->get_info()->sample_rate) this->set_phase(0);')]),
('bug','freq-before',[(O,'auto fdata = this->get_frequency()->get();','auto fdata = AudioBuffer(this->get_frequency()->get_buffer());')]),
('same','promote',[(O,'''    this->reserve();
''','''    this->reserve();
    double ph = this->get_phase();
'''),(O,'''        *iter = sin(static_cast<double>(TWO_PI * this->get_frequency() *
                                        this->get_phase() /
                                        this->buff.get_samplerate()));''','''        *iter = sin(TWO_PI * (this->get_frequency() / this->buff.get_samplerate()) * ph);'''),(O,'this->inc_phase(1);\n    }','ph += 1.0;\n    }\n    this->set_phase(ph);')]),
('same','floor',[(O,'''(modf((this->get_frequency() * this->get_phase() /
                       this->buff.get_samplerate()),
                      &placeholder) < 0.5)''','''([](double x) { return x - std::floor(x); }(this->get_frequency() * this->get_phase() / this->buff.get_samplerate()) < 0.5)''')]),
('same','fmod',[(O,'modf(this->get_phase(), &placeholder) < 0.5','std::fmod(this->get_phase(), 1.0) < 0.5')]),
('same','flip',[(O,'''&placeholder) < 0.5)
                    ? 1.0
                    : -1.0;''','''&placeholder) >= 0.5)
                    ? -1.0
                    : 1.0;''')]),
('same','helper',[(O,'void SquareOscillator::process() {','static double square_at(double u) { if (u < 0.5) { return 1.0; } return -1.0; }\nvoid SquareOscillator::process() {'),(O,'*iter = (modf(this->get_phase(), &placeholder) < 0.5) ? 1.0 : -1.0;','*iter = square_at(modf(this->get_phase(), &placeholder));')]),
('same','tri-ifs',[(O,'        double temp = modf','        double temp = 0.0; temp += modf')]),
('same','div',[(O,'this->inc_phase(freqv * (1 / sampler));','this->inc_phase(freqv / sampler);')]),
('same','incfirst',[(O,'''        auto freqv = fdata.at(iter.get_index());''','''        const auto freqv = fdata.at(static_cast<int>(iter.get_index()));''')]),
('same','ref',[(O,'auto fdata = this->get_frequency()->get();','const auto fdata = AudioBuffer(this->get_frequency()->get());')]),
('same','anglelocal',[(O,'''        *iter = sin(this->get_phase() * TWO_PI);''','''        const double angle = this->get_phase() * TWO_PI; *iter = std::sin(angle);''')]),
]
