M='src/module_mixer.cpp'
MUTS=[
('bug','minus',[(M,'fbuff.at(i) += b.at(i)','fbuff.at(i) -= b.at(i)')]),
('bug','assign',[(M,'fbuff.at(i) += b.at(i)','fbuff.at(i) = b.at(i)')]),
('bug','from1',[(M,'for (std::size_t i = 0; i < msize','for (std::size_t i = 1; i < msize')]),
('bug','short',[(M,'i < msize; ++i','i + 1 < msize; ++i')]),
('bug','shift',[(M,'+= b.at(i)','+= b.at(msize - 1 - i)')]),
('bug','mono',[(M,'AudioBuffer(this->get_info()->out_buffer, this->get_info()->channels','AudioBuffer(this->get_info()->out_buffer, 1')]),
('bug','inbuf',[(M,'AudioBuffer(this->get_info()->out_buffer','AudioBuffer(this->get_info()->in_buffer')]),
('bug','skipfirst',[(M,'for (const auto& b : this->buffs) {','for (std::size_t q = 1; q < this->buffs.size(); ++q) { const auto& b = this->buffs[q];')]),
('bug','skipquiet',[(M,'fbuff.at(i) += b.at(i)','if (b.at(i) > 0) fbuff.at(i) += b.at(i)')]),
('bug','avg',[(M,'fbuff.at(i) += b.at(i)','fbuff.at(i) += b.at(i) / this->buffs.size()')]),
('bug','upmove',[(M,'tbuff = this->buff;','tbuff = std::move(this->buff);')]),
('bug','upfmt',[(M,'tbuff = this->buff;','tbuff.resize(this->buff.size()); std::copy(this->buff.sbegin(), this->buff.send(), tbuff.sbegin());')]),
('bug','upself',[(M,'return std::move(tbuff);','return std::move(this->buff);')]),
('bug','nofwd',[(M,'    AudioModule<>::forward(mod);\n','')]),
('bug','dup',[(M,'    this->out.push_back(mod);','    this->out.push_back(mod); if (out.size() == 3) this->out.push_back(mod);')]),
('same','ptr',[(M,'''        for (std::size_t i = 0; i < msize; ++i) {

            fbuff.at(i) += b.at(i);
''','''        auto p = fbuff.ibegin(); auto q = b.icbegin();
        for (std::size_t i = 0; i < msize; ++i, ++p, ++q) {

            *p = *q + *p;
''')]),
('same','index',[(M,'for (const auto& b : this->buffs) {','for (std::size_t q = 0; q < this->buffs.size(); ++q) { const auto& b = this->buffs[q];')]),
('same','tern',[(M,'auto msize = std::min(b.size(), fbuff.size());','auto msize = b.size() < fbuff.size() ? b.size() : fbuff.size();')]),
('same','down',[(M,'for (std::size_t i = 0; i < msize; ++i) {','for (std::size_t k = msize; k > 0; --k) { auto i = k - 1;')]),
('same','locals',[(M,'''    auto fbuff =
        AudioBuffer(this->get_info()->out_buffer, this->get_info()->channels,
                    this->get_info()->sample_rate);''','''    const auto& inf = *this->get_info();
    AudioBuffer fbuff(inf.out_buffer, inf.channels, inf.sample_rate);''')]),
('same','transform',[(M,'''        for (std::size_t i = 0; i < msize; ++i) {

            fbuff.at(i) += b.at(i);

            // *(fbuff.sbegin() + iter) += *iter;
        }''','''        std::transform(fbuff.ibegin(), fbuff.ibegin() + msize, b.icbegin(), fbuff.ibegin(), [](double x, double y) { return x + y; });''')]),
('same','while',[(M,'for (std::size_t i = 0; i < msize; ++i) {','std::size_t i = 0; while (i < msize) {'),(M,'            // *(fbuff.sbegin() + iter) += *iter;','            i++;')]),
('same','helper',[(M,'void ModuleMixDown::process() {','static void addto(AudioBuffer& fbuff, const AudioBuffer& b) { auto msize = std::min(b.size(), fbuff.size()); for (std::size_t i = 0; i < msize; ++i) { fbuff.at(i) += b.at(i); } }\nvoid ModuleMixDown::process() {'),(M,'''        auto msize = std::min(b.size(), fbuff.size());

        for (std::size_t i = 0; i < msize; ++i) {

            fbuff.at(i) += b.at(i);

            // *(fbuff.sbegin() + iter) += *iter;
        }
    }

    // Set''','''        addto(fbuff, b);
    }

    // Set''')]),
]
import chaincommon
MUTS=MUTS+chaincommon.SAME
