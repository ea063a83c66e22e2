B='include/maec/dsp/buffer.hpp'
MUTS=[
('bug','at of constant writable',[(B,'''    constexpr const_reference at(int value) const { return this->buff[value]; }''','''    constexpr reference at(int value) const {
        return const_cast<reference>(this->buff[value]);
    }''')]),
('bug','begin on constant',[(B,'''    constexpr BaseBuffer::InterIterator<> begin() { return this->ibegin(); }''','''    constexpr BaseBuffer::InterIterator<> begin() const { return const_cast<BaseBuffer*>(this)->ibegin(); }''')]),
('bug','channels setter constant',[(B,'''    constexpr void set_channels(std::size_t nchannels) {''','''    constexpr void set_channels(std::size_t nchannels) const {'''),(B,'    std::size_t nchannels = 1;','    mutable std::size_t nchannels = 1;')]),
('bug','iterator ignores constness',[(B,'''    using value_type = typename dsp::util::ChooseType<IsConst, const T, T>::type;''','''    using value_type = T;'''),(B,'''    constexpr BaseBuffer::InterIterator<true> icbegin() const {''','''    constexpr BaseBuffer::InterIterator<> icbegin() {''')]),
('bug','category weaker',[(B,'using iterator_category = std::random_access_iterator_tag;','using iterator_category = std::forward_iterator_tag;')]),
('bug','move may throw',[(B,'    constexpr Buffer(Buffer&&) noexcept = default;','    constexpr Buffer(Buffer&& o) : BaseBuffer<std::vector<T>>(std::move(o)) {}')]),
('bug','not copyable',[(B,'    constexpr Buffer(const Buffer&) = default;','    constexpr Buffer(const Buffer&) = delete;')]),
('bug','constant iterator to changeable',[(B,'''    constexpr explicit BaseBuffer(const B& vect''','''    constexpr explicit BaseBuffer(const B& vect''')]),
('bug','lazy cache',[('include/maec/envelope.hpp','    double get_stop_value() const { return this->value_stop; }','    double get_stop_value() const { const_cast<BaseEnvelope*>(this)->value_start += 0; this->touched = this->value_start; return this->value_stop; }\n    mutable double touched = 0;')]),
('bug','getter advances',[('include/maec/base_oscillator.hpp','    double get_phase() const { return this->phase; }','    double get_phase() const { auto* me = const_cast<double*>(&this->phase); return (*me)++; }')]),
('bug','matrix sets input',[('include/maec/dsp/matrix.hpp','    const int rows = static_cast<int>(buf1.channels());','    const_cast<dsp::buff::Buffer<T>&>(buf1).set_channels(1);\n    const int rows = static_cast<int>(buf1.channels());')]),
('same','getter by local',[('include/maec/base_oscillator.hpp','    double get_phase() const { return this->phase; }','    double get_phase() const { const double& p = this->phase; double copy = p; copy += 0; return copy; }')]),
('same','at through data',[(B,'''    constexpr const_reference at(int value) const { return this->buff[value]; }''','''    constexpr const_reference at(int value) const { return *(this->buff.data() + value); }''')]),
('same','at by shared cast',[(B,'''    constexpr reference at(int value) { return this->buff[value]; }''','''    constexpr reference at(int value) {
        return const_cast<reference>(std::as_const(*this).at(value));
    }'''),(B,'#include <vector>','#include <vector>\n#include <utility>')]),
]
MUTS=[m for m in MUTS if m[2][0][1]!=m[2][0][2]]
