H='include/maec/dsp/iir.hpp'
B='include/maec/dsp/buffer.hpp'
def r(old,new,f=H): return [(f,old,new)]
MUTS=[
('bug','b-first',r('outputs[index - 1 - i] * bcoes[i]','outputs[index - 1 - (i == 0 ? 0 : i - 1)] * bcoes[i]')),
('bug','a-off',r('inputs[index - i] * acoes[i]','inputs[index - i] * acoes[i == 3 ? 2 : i]')),
('bug','hist-short',r('std::max(this->acoes.size(), this->bcoes.size()), 1);','std::max(this->acoes.size(), this->bcoes.size() > 2 ? this->bcoes.size() - 1 : this->bcoes.size()), 1);')),
('bug','index-int',r('index = inputs.size();\n','index = inputs.size() + 1;\n')),
('bug','index-nowrap',r('if (index == 2 * inputs.size())','if (index > 2 * inputs.size())')),
('bug','ring-rem',r('return rem < 0 ? rem + size : rem;','return rem < 0 ? -rem : rem;',B)),
('bug','ring-iter',r('return this->buff->buff.data() + this->buff->normalize_index(index);','return this->buff->buff.data() + (index < 0 ? this->buff->normalize_index(index) : index % static_cast<int>(this->buff->size() + (index > 8)));',B)),
('bug','bsize',r('''        this->bcoes.resize(size);
''','''        this->bcoes.resize(size);
        if (static_cast<std::size_t>(size) > this->acoes.size()) return;
''')),
('bug','single-pop',r('output_container.pop_back();','if (output_container.size() > 4) output_container.pop_back();')),
('bug','single-b',r('output_container[i] * bco[i]','output_container[i] * bco[i] * (i > 1 ? -1 : 1)')),
('bug','pole-high',r('this->set_a(1, -(1 + xval) / 2);','this->set_a(1, -(1 - xval) / 2);')),
('bug','pole-low',r('double xval = this->frac_to_x(this->get_frac_high());','double xval = this->frac_to_x(this->get_frac_low());')),
('bug','pole-pi',r('std::exp(-2 * std::numbers::pi_v<double> * freq)','std::exp(-2 * freq)')),
('bug','low-set',r('this->freq_low = freq / this->sample_rate;','this->freq_low = freq / (this->sample_rate / 2 * 2 + 1);')),
('same','local',r('''        for (int i = 0; i < acoes.size(); ++i) {
''','''        const auto n = acoes.size();
        for (std::size_t i = 0; i < n; i++) {
''')),
('same','ringif',r('return rem < 0 ? rem + size : rem;','return (rem + size) % size;',B)),
('same','inidx',r('if (index == 2 * inputs.size()) {','if (index >= inputs.size() * 2) {')),
('same','modulo',r('''        if (index == 2 * inputs.size()) {

            index = inputs.size();
        }
''','''        index = inputs.size() + index % inputs.size();
''')),
('same','order',r('''        this->acoes.resize(size);
        this->reserve();''','''        if (this->acoes.size() != static_cast<std::size_t>(size)) this->acoes.resize(size);
        this->reserve();''')),
('same','poleelse',r('''        if (this->get_type() == dsp::consts::FilterType::HighPass) {''','''        else if (this->get_type() == dsp::consts::FilterType::HighPass) {''')),
('same','acc',r('final_value += input_container[i] * aco[i];','const T part = aco[i] * input_container[i];\n        final_value = part + final_value;')),
]
