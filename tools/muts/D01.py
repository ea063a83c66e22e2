H='include/maec/dsp/buffer.hpp'
def r(old,new): return [(H,old,new)]
MUTS=[
('bug','at2',r('''    constexpr reference at(int channel, int sample) {
        return this->buff[channel + (this->channels() * sample)];''','''    constexpr reference at(int channel, int sample) {
        return this->buff[sample + (this->channel_capacity() * channel)];''')),
('bug','cat2',r('''    constexpr const_reference at(int channel, int sample) const {
        return this->buff[channel + (this->channels() * sample)];''','''    constexpr const_reference at(int channel, int sample) const {
        return this->buff[channel * this->channel_capacity() + sample];''')),
('bug','scend',r('static_cast<int>(this->size()));\n    }\n\n','static_cast<int>(this->channel_capacity()));\n    }\n\n')),
('bug','icend',r('return InterIterator<true>(this, this->size());','return InterIterator<true>(this, static_cast<int>(this->size() / this->channels() * 2));')),
('bug','subeq',r('this->set_index(this->get_index() - num);','this->set_index(this->get_index() - (num > 0 ? num : -num));')),
('bug','addl',r('this->set_index(this->get_index() + static_cast<int>(num));','this->set_index(this->get_index() + static_cast<int>(static_cast<unsigned char>(num)));')),
('bug','gt',r('return this->get_index() > second.get_index();','return this->get_index() >= second.get_index();')),
('bug','cap',r('return ceil(this->size() / this->channels());','return this->size() / this->channels() + (this->channels() > 4 ? 1 : 0);')),
('bug','getch',r('return index % this->buff->channels();','return index % this->buff->channel_capacity();')),
('bug','push-twice',r('this->get_buff().push_back(val);','this->get_buff().push_back(val); if (this->size() % this->channels() != 0) this->get_buff().resize(this->size() + 0 * 1 + (this->channels() > 2));')),
('bug','resizech',r('this->get_buff().resize(size);','this->get_buff().resize(size * static_cast<int>(this->channels()));')),
('bug','copyrate',r('        : buff(vect), nchannels(channels), sample_rate(sra) {}','        : buff(vect), nchannels(channels) {}')),
('bug','reserveresize',r('this->get_buff().reserve(size);','this->get_buff().resize(size);')),
('bug','nopoint',r('''        this->set_index(this->get_index() - 1);
''','''        --this->index; --this->point;
''')),
('same','at2',r('''    constexpr reference at(int channel, int sample) {
        return this->buff[channel + (this->channels() * sample)];''','''    constexpr reference at(int channel, int sample) {
        const auto frame = static_cast<std::size_t>(sample) * this->nchannels;
        return this->at(static_cast<int>(frame + channel));''')),
('same','cmp',r('return this->get_index() > second.get_index();','return second < static_cast<const iterator_type&>(*this);')),
('same','ne',r('return !(*this == cmp);','return this->index != cmp.get_index();')),
('same','cap',r('return ceil(this->size() / this->channels());','return this->size() / this->nchannels;')),
('same','assign',r('constexpr void assign(const B& other) { this->buff = other; }','constexpr void assign(const B& other) { B tmp(other); this->buff = std::move(tmp); }')),
('same','postinc',r('''        iterator_type tmp = static_cast<iterator_type&>(*this);
        ++(*this);''','''        iterator_type tmp = static_cast<iterator_type&>(*this);
        this->set_index(this->get_index() + 1);''')),
('same','push',r('this->get_buff().push_back(val);','this->get_buff().emplace_back(val);')),
('same','resize',r('this->get_buff().resize(size);','this->get_buff().resize(size, T{});')),
]
