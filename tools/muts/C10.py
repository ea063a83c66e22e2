O='src/fund_oscillator.cpp'; M='src/meta_audio.cpp'
LOOP='''    for (auto iter = this->buff.ibegin();
         static_cast<unsigned int>(iter.get_index()) < this->buff.size();
         ++iter) {
'''
import re
src=open('/repo/'+O).read()
i=src.index('SineOscillator::process'); sine=src[i:src.index('SquareOscillator::process')]
MUTS=[
('bug','no-reserve',[(O,'    this->reserve();','')]),
('bug','cap',[(O,'static_cast<unsigned int>(iter.get_index()) < this->buff.size()','static_cast<int>(iter.get_index()) < this->get_info()->out_buffer')]),
('bug','const-first-channel',[(M,'std::fill(this->buff.sbegin(), this->buff.send(), this->value);','std::fill_n(this->buff.ibegin(), this->get_info()->out_buffer, this->value);')]),
('bug','const-inbuf',[(M,'    // Create a new buffer:\n\n    this->reserve();\n\n    // Fill the buffer','    this->reserve(this->get_info()->in_buffer, this->get_info()->channels);\n\n    // Fill the buffer')]),
('bug','skip-last',[(M,'std::fill(this->buff.sbegin(), this->buff.send(), this->value);','std::fill(this->buff.sbegin(), this->buff.send() - 1, this->value);')]),
('bug','move-repeat',[(M,'this->buff = *(this->gbuff);','this->buff = std::move(*(this->gbuff));')]),
('bug','resize-only',[(M,'    // Create a new buffer:\n\n    this->reserve();\n\n    // Fill the buffer','    this->buff.resize(this->get_info()->out_buffer * this->get_info()->channels);\n\n    // Fill the buffer')]),
('bug','reserve-empty',[(M,'    // Create a new buffer:\n\n    this->reserve();\n\n    // Fill the buffer','    if (this->buff.size() == 0) this->reserve();\n\n    // Fill the buffer')]),
('same','fill-linear',[(M,'std::fill(this->buff.sbegin(), this->buff.send(), this->value);','std::fill(this->buff.ibegin(), this->buff.iend(), this->value);')]),
('same','fill-loop',[(M,'std::fill(this->buff.sbegin(), this->buff.send(), this->value);','for (auto& x : this->buff) { x = this->value; }')]),
('same','fill-vec',[(M,'std::fill(this->buff.sbegin(), this->buff.send(), this->value);','for (std::size_t i = 0; i < this->buff.size(); ++i) { this->buff.at(i) = this->value; }')]),
('same','fill-nest',[(M,'std::fill(this->buff.sbegin(), this->buff.send(), this->value);','const int nch = this->buff.channels(); const int fr = this->get_info()->out_buffer; for (int i = 0; i < fr; ++i) for (int c = 0; c < nch; ++c) this->buff.at(i * nch + c) = this->value;')]),
('bug','reserve2',[(M,'    // Create a new buffer:\n\n    this->reserve();\n\n    // Fill the buffer','    this->reserve(this->get_info()->out_buffer, this->get_info()->channels);\n\n    // Fill the buffer')]),
('same','new-buffer',[(M,'    // Create a new buffer:\n\n    this->reserve();\n\n    // Fill the buffer','    this->buff = AudioBuffer(this->get_info()->out_buffer, this->get_info()->channels, this->get_info()->sample_rate);\n\n    // Fill the buffer')]),
('same','osc-index',[(O,LOOP,'''    for (auto iter = this->buff.ibegin(); iter != this->buff.iend(); ++iter) {
''')]),
('same','osc-size-local',[(O,LOOP,'''    const std::size_t total = this->buff.size();
    auto iter = this->buff.ibegin();
    for (std::size_t i = 0; i < total; ++i, ++iter) {
''')]),
('same','osc-rangefor',[(O,LOOP,'''    for (auto& s : this->buff) { auto* iter = &s;
''')]),
('same','buf-local',[(M,'this->buff = *(this->gbuff);','const AudioBuffer& good = *(this->gbuff); this->buff = good;')]),
]
