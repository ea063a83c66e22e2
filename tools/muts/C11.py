M='src/meta_audio.cpp'
LOOPA=open('/repo/'+M).read()
i=LOOPA.index('    while (this->index < total) {'); j=LOOPA.index('    // Finally, set our index back')
WH=LOOPA[i:j]
MUTS=[
('bug','no-min-in',[(M,'std::min(total - this->index,\n                     static_cast<int>(this->ibuff.size()) - this->iindex);','total - this->index;')]),
('bug','iindex-reset',[(M,'    this->index = 0;\n}','    this->index = 0;\n    this->iindex = 0;\n}')]),
('bug','no-iindex-reset',[(M,'            this->iindex = 0;\n\n            // Nothing','            // Nothing')]),
('bug','iindex-one',[(M,'            this->iindex = 0;\n\n            // Nothing','            this->iindex = 1;\n\n            // Nothing')]),
('bug','early-refill',[(M,'this->iindex >= static_cast<int>(this->ibuff.size())','this->iindex + total > static_cast<int>(this->ibuff.size())')]),
('bug','index-kept',[(M,'    this->index = 0;\n}','}')]),
('bug','stop-after-refill',[(M,'            if (this->ibuff.size() == 0) {\n                break;','            if (this->ibuff.size() < static_cast<std::size_t>(total)) {\n                break;')]),
('bug','dest',[(M,'this->buff.ibegin() + this->index);','this->buff.ibegin() + this->iindex);')]),
('bug','src',[(M,'this->ibuff.ibegin() + this->iindex, remaining','this->ibuff.ibegin(), remaining')]),
('bug','frames',[(M,'const int total = static_cast<int>(this->buff.size());','const int total = this->get_info()->out_buffer;')]),
('bug','double-pull',[(M,'            this->backward().meta_process();','            this->backward().meta_process();\n            this->backward().meta_process();')]),
('bug','stale-size',[(M,'''        // Determine if in buffer''','''        int avail = static_cast<int>(this->ibuff.size());
        // Determine'''),(M,'static_cast<int>(this->ibuff.size()) - this->iindex);','avail - this->iindex);')]),
('same','elementwise',[(M,'''        std::copy_n(this->ibuff.ibegin() + this->iindex, remaining,
                    this->buff.ibegin() + this->index);''','''        for (int k = 0; k < remaining; ++k) {
            this->buff.at(this->index + k) = this->ibuff.at(this->iindex + k);
        }''')]),
('same','copy-range',[(M,'''        std::copy_n(this->ibuff.ibegin() + this->iindex, remaining,
                    this->buff.ibegin() + this->index);''','''        auto from = this->ibuff.ibegin() + this->iindex;
        std::copy(from, from + remaining, this->buff.ibegin() + this->index);''')]),
('same','neq',[(M,'while (this->index < total) {','for (; this->index < total;) {')]),
('same','index-first',[(M,'        this->iindex += remaining;\n        this->index += remaining;','        this->index += remaining;\n        this->iindex += remaining;')]),
('same','reset-first',[(M,'    this->reserve();\n\n    // We fill','    this->reserve();\n    this->index = 0;\n    // We fill')]),
('same','nozerocheck',[(M,'this->ibuff.size() == 0 ||\n            this->iindex','this->iindex')]),
('same','single',[(M,WH,'''    while (this->index < total) {
        if (this->iindex >= static_cast<int>(this->ibuff.size())) {
            this->backward().meta_process();
            this->ibuff = this->backward().get_buffer();
            this->iindex = 0;
            if (this->ibuff.size() == 0) {
                break;
            }
        }
        this->buff.at(this->index) = this->ibuff.at(this->iindex);
        ++this->iindex;
        ++this->index;
    }
''')]),
('same','local-index',[(M,WH,'''    int at = this->index;
    while (at < total) {
        if (this->iindex >= static_cast<int>(this->ibuff.size())) {
            this->backward().meta_process();
            this->ibuff = this->backward().get_buffer();
            this->iindex = 0;
            if (this->ibuff.size() == 0) {
                break;
            }
        }
        const int remaining = std::min(total - at, static_cast<int>(this->ibuff.size()) - this->iindex);
        std::copy_n(this->ibuff.ibegin() + this->iindex, remaining, this->buff.ibegin() + at);
        this->iindex += remaining;
        at += remaining;
    }
''')]),
('same','helper',[(M,'void UniformBuffer::process() {','static int left(const AudioBuffer& b, int at) { return static_cast<int>(b.size()) - at; }\nvoid UniformBuffer::process() {'),(M,'static_cast<int>(this->ibuff.size()) - this->iindex);','left(this->ibuff, this->iindex));')]),
]
