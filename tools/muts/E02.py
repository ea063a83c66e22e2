S='src/envelope.cpp'; H='include/maec/envelope.hpp'
MUTS=[
('bug','const-stop',[(S,'this->buff.send(), this->get_start_value());','this->buff.send(), this->get_stop_value());')]),
('bug','const-frames',[(S,'this->get_timer()->add_sample(static_cast<int>(this->buff.size()));','this->get_timer()->add_sample(static_cast<int>(this->buff.size()) - 1);')]),
('bug','set-clamp1',[(S,'std::clamp<int64_t>(this->remaining_samples(), 0,','std::clamp<int64_t>(this->remaining_samples(), 1,')]),
('bug','set-noclamp',[(S,'''        std::clamp<int64_t>(this->remaining_samples(), 0,
                            static_cast<int64_t>(size));''','''        std::max<int64_t>(this->remaining_samples(), 0);''')]),
('bug','set-plus1',[(S,'std::clamp<int64_t>(this->remaining_samples(), 0,','std::clamp<int64_t>(this->remaining_samples() + 1, 0,')]),
('bug','set-swap',[(S,'std::fill_n(this->buff.ibegin() + initial, after, this->get_stop_value());','std::fill_n(this->buff.ibegin() + initial, after, this->get_start_value());')]),
('bug','lin-start',[(S,'static_cast<double>(this->get_time_inc() -\n                                                    this->get_start_time()) /','static_cast<double>(this->get_time_inc()) /')]),
('bug','lin-int',[(S,'''            this->val_diff() * (static_cast<double>(this->get_time_inc() -
                                                    this->get_start_time()) /
                                static_cast<double>(this->time_diff()));''','''            this->val_diff() * static_cast<double>((this->get_time_inc() -
                                                    this->get_start_time()) /
                                this->time_diff());''')]),
('bug','lin-after',[(S,'static_cast<double>(this->get_time_inc() -\n                                                    this->get_start_time()) /','static_cast<double>((this->get_timer()->inc_sample(), this->get_time()) -\n                                                    this->get_start_time()) /')]),
('bug','exp-stop',[(S,'static_cast<double>(this->time_diff()));\n    }\n}\n\nvoid LinearRamp','static_cast<double>(this->get_stop_time()));\n    }\n}\n\nvoid LinearRamp')]),
('bug','exp-two',[(S,'*iter = this->get_start_value() *','this->get_timer()->inc_sample();\n*iter = this->get_start_value() *')]),
('bug','inc-two',[(S,'    this->timer.inc_sample();','    this->timer.add_sample(2);')]),
('bug','remaining-abs',[(H,'return (this->get_stop_time() - this->get_timer()->get_time()) /','return (this->get_stop_time() - this->get_start_time()) /')]),
('bug','divide-zero',[(H,'(this->value_start != 0 ? this->value_start : SMALL);','this->value_start;')]),
('bug','diff-rev',[(H,'return this->value_stop - this->value_start;','return this->value_start - this->value_stop;')]),
('bug','dur-stop',[(S,'this->get_time() + this->duration','this->duration')]),
('bug','dur-nostart',[(S,'    this->env->start();','')]),
('bug','dur-order',[(S,'    this->env->set_start_time(this->get_time());','    this->env->start();\n    this->env->set_start_time(this->get_time());'),(S,'    // Next, start the enclosed envelope:\n\n    this->env->start();','')]),
('bug','chain-min0',[(S,'            num = std::max(num, 1);','            num = std::max(num, 0);')]),
('bug','chain-gt',[(S,'this->get_time() >= this->current->get_stop_time()','this->get_time() > this->current->get_stop_time()')]),
('bug','chain-notimer',[(S,'        this->get_timer()->add_sample(num);','')]),
('bug','chain-proc',[(S,'tbuff.ibegin() + processed);','tbuff.ibegin());')]),
('bug','chain-nocap',[(S,'''            num = std::min(
                num, static_cast<int>(this->current->remaining_samples()));''','''            num = static_cast<int>(this->current->remaining_samples());''')]),
('bug','chain-infinite',[(S,'if (this->current->get_stop_time() >= 0) {','if (this->current->get_stop_time() > 0) {')]),
('bug','chain-size-after',[(S,'        this->current->get_info()->out_buffer = num;\n',''),(S,'        auto cbuff = this->current->get_buffer();','        this->current->get_info()->out_buffer = num;\n        auto cbuff = this->current->get_buffer();')]),
('bug','chain-early-out',[(S,'while (processed < this->get_info()->out_buffer) {','while (processed < this->get_info()->out_buffer - 1) {')]),
('bug','chain-switch-before',[(S,'        // Update the timer:\n\n        this->get_timer()->add_sample(num);\n',''),(S,'            this->next_envelope();\n        }','            this->next_envelope();\n        }\n        this->get_timer()->add_sample(num);')]),
('bug','next-notimer',[(S,'    *(this->current->get_timer()) = *(this->get_timer());','')]),
('bug','next-sample-only',[(S,'    *(this->current->get_timer()) = *(this->get_timer());','    this->current->get_timer()->set_sample(this->get_timer()->get_sample());')]),
('bug','next-post',[(S,'this->envs[++(this->env_index)]','this->envs[(this->env_index)++]')]),
('bug','gap-startv',[(S,'interp->set_start_value(this->envs[index - 1]->get_stop_value());','interp->set_start_value(this->envs[index - 1]->get_start_value());')]),
('bug','gap-stop',[(S,'interp->set_stop_time(this->envs[index]->get_start_time());','interp->set_stop_time(this->envs[index]->get_stop_time());')]),
('bug','gap-last',[(S,'if (index >= static_cast<int>(this->envs.size())) {','if (index > static_cast<int>(this->envs.size())) {')]),
('bug','gap-cmp',[(S,'if (env->get_stop_time() >=\n','if (env->get_stop_time() >\n')]),
('bug','opt-noinc',[(S,'this->create_internal(++(this->optimized));','this->create_internal(this->optimized + 1);')]),
('bug','adsr-decay',[(S,'dec->set_stop_time(this->attack + this->decay);','dec->set_stop_time(this->decay);')]),
('bug','adsr-sus',[(S,'sus->set_start_value(this->sustain);','sus->set_start_value(1);')]),
('bug','adsr-order',[(S,'this->envs.add_object(dec);\n','this->envs.add_object(dec);\n    ChainEnvelope::start();\n'),(S,'    // Move to the first envelope:\n\n    ChainEnvelope::start();','')]),
('bug','adsr-swap',[(H,': attack(att), decay(dec),',': attack(dec), decay(att),')]),
('same','lin-loop',[(S,'''    for (auto iter = this->buff.ibegin();
         static_cast<unsigned int>(iter.get_index()) < this->buff.size();
         ++iter) {

        // Determine value at current time:

        *iter =
            this->get_start_value() +''','''    for (auto iter = this->buff.ibegin(); iter != this->buff.iend(); ++iter) {

        *iter =
            this->get_start_value() +''')]),
('same','lin-precalc',[(S,'''        *iter =
            this->get_start_value() +
            this->val_diff() * (static_cast<double>(this->get_time_inc() -
                                                    this->get_start_time()) /
                                static_cast<double>(this->time_diff()));''','''        const double frac = static_cast<double>(this->get_time_inc() -
                                                    this->get_start_time()) /
                                static_cast<double>(this->time_diff());
        *iter = (1 - frac) * this->get_start_value() + frac * this->get_stop_value();''')]),
('same','set-loop',[(S,'''    std::fill_n(this->buff.ibegin(), initial, this->get_start_value());

    std::fill_n(this->buff.ibegin() + initial, after, this->get_stop_value());
''','''    for (int64_t i = 0; i < static_cast<int64_t>(size); ++i) {
        this->buff.at(static_cast<int>(i)) = i < initial ? this->get_start_value() : this->get_stop_value();
    }
    (void)after;
''')]),
('same','set-helper',[(S,'''    int64_t initial =
        std::clamp<int64_t>(this->remaining_samples(), 0,
                            static_cast<int64_t>(size));''','''    int64_t initial = this->remaining_samples();
    if (initial < 0) { initial = 0; }
    if (initial > static_cast<int64_t>(size)) { initial = static_cast<int64_t>(size); }''')]),
('same','chain-num',[(S,'''        int num = this->get_info()->out_buffer - processed;

        // First, determine the number of samples current envelope will output:

        if (this->current->get_stop_time() >= 0) {

            num = std::min(
                num, static_cast<int>(this->current->remaining_samples()));

            // The stop time may lie within the next sample,
            // always make progress:

            num = std::max(num, 1);
        }''','''        const int left = this->get_info()->out_buffer - processed;
        int num = left;
        const bool ends = this->current->get_stop_time() >= 0;
        if (ends) {
            const int rem = static_cast<int>(this->current->remaining_samples());
            num = rem < 1 ? 1 : (rem < left ? rem : left);
        }''')]),
('same','chain-copyloop',[(S,'std::copy_n(cbuff.ibegin(), num, tbuff.ibegin() + processed);','for (int i = 0; i < num; ++i) { tbuff.at(processed + i) = cbuff.at(i); }')]),
('same','const-loop',[(S,'std::fill(this->buff.sbegin(), this->buff.send(), this->get_start_value());','for (auto it = this->buff.ibegin(); it != this->buff.iend(); ++it) { *it = this->get_start_value(); }')]),
('same','gap-split',[(S,'''    if (index == 0) {

        // Simply use ChainTimer start value:

        interp->set_start_value(this->get_start_value());
        interp->set_start_time(0);
    }

    else {

        // Otherwise, use previous stop value:

        interp->set_start_value(this->envs[index - 1]->get_stop_value());
        interp->set_start_time(this->envs[index - 1]->get_stop_time());
    }''','''    interp->set_start_value(index == 0 ? this->get_start_value() : this->envs[index - 1]->get_stop_value());
    interp->set_start_time(index == 0 ? 0 : this->envs[index - 1]->get_stop_time());''')]),
('same','next-local',[(S,'    this->current = this->envs[++(this->env_index)];','    this->env_index += 1;\n    auto* next = this->envs.at(this->env_index);\n    this->current = next;')]),
('same','adsr-local',[(S,'    dec->set_start_time(this->attack);\n    dec->set_stop_time(this->attack + this->decay);','    const auto end = this->decay + this->attack;\n    dec->set_stop_time(end);\n    dec->set_start_time(this->attack);')]),
('same','adsr-helper',[(S,'void ADSREnvelope::start() {','namespace { void conf(BaseEnvelope* e, double a, double b, int64_t s, int64_t t) { e->set_start_value(a); e->set_stop_value(b); e->set_start_time(s); e->set_stop_time(t); } }\nvoid ADSREnvelope::start() {'),
  (S,'''    att->set_start_value(0);
    att->set_stop_value(1);
    att->set_start_time(0);
    att->set_stop_time(this->attack);''','''    conf(att.get(), 0, 1, 0, this->attack);''')]),
('same','dur-local',[(S,'''    this->env->set_start_time(this->get_time());

    // Next, set the stop time:

    this->env->set_stop_time(this->get_time() + this->duration);''','''    const int64_t now = this->get_time();
    this->env->set_stop_time(now + this->duration);
    this->env->set_start_time(now);''')]),
('same','opt-for',[(S,'''        if (env->get_stop_time() >=
            this->envs[this->optimized + 1]->get_start_time()) {

            // Valid chain! No inserts necessary ...

            this->optimized++;

            continue;
        }

        // Otherwise, create internal envelope:

        this->create_internal(++(this->optimized));''','''        const bool gap = env->get_stop_time() <
            this->envs[this->optimized + 1]->get_start_time();
        ++(this->optimized);
        if (gap) { this->create_internal(this->optimized); }''')]),
]
