M='src/meta_audio.cpp'; H='include/maec/meta_audio.hpp'; T='include/maec/chrono.hpp'
MUTS=[
('bug','chan-mult',[(M,'static_cast<int>(this->buff.size());\n}','static_cast<int>(this->buff.size()) * this->buff.channels();\n}')]),
('bug','no-inc',[(M,'this->m_processed++;','if (this->buff.size() != 0) { this->m_processed++; }')]),
('bug','clock-after-buffer',[(M,'    // Get stop time:\n\n    const int64_t stop = get_time();\n',''),(M,'    // Update the counter statistics:','    const int64_t stop = get_time();')]),
('bug','latency-total',[(M,'this->total_operation_latency += this->operation_latency;','this->total_operation_latency += this->operation_time;')]),
('bug','rate-once',[(M,'    this->timer.set_samplerate(static_cast<int>(this->buff.get_samplerate()));','    if (this->processed() <= 1) this->timer.set_samplerate(static_cast<int>(this->buff.get_samplerate()));')]),
('bug','reset-forgets',[(M,'    this->total_operation_time = 0;\n','')]),
('bug','reset-start',[(M,'this->start_time = get_time();','this->start_time = 0;')]),
('bug','avg-elapsed',[(H,'return this->total_operation_latency / this->processed();','return this->total_operation_time / this->processed();')]),
('bug','avg-noguard',[(H,'''        if (this->processed() == 0) {
            return 0;
        }

        return this->total_operation_time''','''        return this->total_operation_time''')]),
('bug','narrow',[(H,'int64_t elapsed() const { return get_time() - this->start_time; }','int64_t elapsed() const { return static_cast<int>(get_time() - this->start_time); }')]),
('bug','narrow2',[(M,'this->operation_time = stop - start;','this->operation_time = static_cast<int>(stop - start);')]),
('bug','expected-now',[(H,'return this->timer.get_time(); }','return this->timer.get_time(this->timer.get_sample()); }')]),
('same','locals',[(M,'    this->operation_time = stop - start;\n\n    // Add to the total:\n\n    this->total_operation_time += this->operation_time;','    const int64_t took = stop - start;\n    this->total_operation_time += took;\n    this->operation_time = took;')]),
('same','count-order',[(M,'    this->m_processed++;\n','    this->m_processed = 1 + this->m_processed;\n')]),
('same','avg-ternary',[(H,'''        if (this->processed() == 0) {
            return 0;
        }

        return this->total_operation_time / this->processed();''','''        const auto n = this->processed();
        return n != 0 ? this->total_operation_time / n : 0;''')]),
('same','helper',[(H,'    void process() override {}','    void process() override {}\n    int64_t mean(int64_t total) const { const int n = this->processed(); if (n == 0) return 0; return total / n; }'),(H,'''        if (this->processed() == 0) {
            return 0;
        }

        return this->total_operation_time / this->processed();''','''        return mean(this->total_operation_time);''')]),
('same','helper-cpp',[(H,'    void meta_process() override;\n\n','    void meta_process() override;\n    void account(int64_t took);\n'),(M,'void LatencyModule::meta_process() {','void LatencyModule::account(int64_t took) {\n    this->operation_time = took;\n    this->total_operation_time += took;\n}\nvoid LatencyModule::meta_process() {'),(M,'    this->operation_time = stop - start;\n\n    // Add to the total:\n\n    this->total_operation_time += this->operation_time;','    this->account(stop - start);')]),
('same','inline-count',[(M,'    const int64_t start = get_time();','    const auto start = get_time();')]),
]
