"""Behaviour preserving refactorings of the chain code: every check has to stay quiet on each."""
A='include/maec/audio_module.hpp'; X='src/module_mixer.cpp'; XH='include/maec/module_mixer.hpp'; P='include/maec/module_param.hpp'; PC='src/module_param.cpp'
S='include/maec/sink_module.hpp'; SC='src/sink_module.cpp'; R='include/maec/source_module.hpp'; RC='src/source_module.cpp'; B='include/maec/base_module.hpp'; BC='src/base_module.cpp'
F='src/fund_oscillator.cpp'; M='src/meta_audio.cpp'; MH='include/maec/meta_audio.hpp'
SAME=[
('same','mixer start index loop',[(X,'''    for (auto* mod : this->in) {

        // Call the meta start of each

        mod->meta_start();
    }''','''    for (std::size_t i = 0; i < this->in.size(); ++i) {
        this->in.at(i)->meta_start();
    }''')]),
('same','mixer stop for_each',[(X,'''    for (auto* mod : this->in) {

        // Call the meta stop of each

        mod->meta_stop();
    }''','''    std::for_each(this->in.begin(), this->in.end(),
                  [](BaseModule* mod) { mod->meta_stop(); });''')]),
('same','mixer finish iterators',[(X,'''    for (auto* mod : this->in) {

        // Call the meta finish of each

        mod->meta_finish();
    }''','''    for (auto it = this->in.begin(); it != this->in.end(); ++it) {
        (*it)->meta_finish();
    }''')]),
('same','mixer sync while',[(X,'''    for (auto* mod : this->in) {

        // Call the info sync of each

        mod->meta_info_sync();
    }''','''    std::size_t done = 0;
    while (done < this->in.size()) {
        BaseModule* mod = this->in[done];
        mod->meta_info_sync();
        done++;
    }''')]),
('same','mixer helper template',[(X,'''void ModuleMixDown::meta_process() {''','''namespace {
template <typename L, typename F>
void each(L& list, F fun) {
    for (auto* mod : list) {
        fun(mod);
    }
}
}  // namespace

void ModuleMixDown::meta_process() {'''),(X,'''    for (auto* mod : this->in) {

        // Call the meta start of each

        mod->meta_start();
    }''','''    each(this->in, [](auto* mod) { mod->meta_start(); });'''),(X,'''    for (auto* mod : this->in) {

        // Call the meta stop of each

        mod->meta_stop();
    }''','''    each(this->in, [](auto* mod) { mod->meta_stop(); });''')]),
('same','mixer member pointer helper',[(X,'''void ModuleMixDown::meta_process() {''','''static void call_all(const std::vector<BaseModule*>& list,
                     void (BaseModule::*what)()) {
    for (auto* mod : list) {
        (mod->*what)();
    }
}

void ModuleMixDown::meta_process() {'''),(X,'''    for (auto* mod : this->in) {

        // Call the meta start of each

        mod->meta_start();
    }''','''    call_all(this->in, &BaseModule::meta_start);'''),(X,'''    for (auto* mod : this->in) {

        // Call the meta stop of each

        mod->meta_stop();
    }''','''    call_all(this->in, &BaseModule::meta_stop);''')]),
('same','mixer state through base',[(X,'    AudioModule<>::start();','    BaseModule::start();'),(X,'    AudioModule<>::stop();','    BaseModule::stop();')]),
('same','mixer process buffers by emplace',[(X,'''        mod->meta_process();

        // Add the buffer to our own:

        this->buffs.push_back(std::move(mod->get_buffer()));''','''        BaseModule& input = *mod;
        input.meta_process();
        this->buffs.emplace_back(input.get_buffer());''')]),
('same','mixer process local list',[(X,'''    this->buffs.clear();
    this->buffs.reserve(this->in.size());

    for (auto* mod : this->in) {

        // Call the meta process method of each module:

        mod->meta_process();

        // Add the buffer to our own:

        this->buffs.push_back(std::move(mod->get_buffer()));
    }
''','''    std::vector<AudioBuffer> fresh;
    fresh.reserve(this->in.size());

    for (auto* mod : this->in) {
        mod->meta_process();
        fresh.push_back(mod->get_buffer());
    }
    this->buffs = std::move(fresh);
''')]),
('same','mixer no reserve',[(X,'    this->buffs.reserve(this->in.size());\n','')]),
('same','mixer resize',[(X,'''    this->buffs.clear();
    this->buffs.reserve(this->in.size());

    for (auto* mod : this->in) {

        // Call the meta process method of each module:

        mod->meta_process();

        // Add the buffer to our own:

        this->buffs.push_back(std::move(mod->get_buffer()));
    }
''','''    this->buffs.resize(this->in.size());

    for (std::size_t i = 0; i < this->in.size(); ++i) {
        auto* mod = this->in[i];
        mod->meta_process();
        this->buffs[i] = mod->get_buffer();
    }
''')]),
('same','mixer link order',[(X,'''    this->in.push_back(mod);

    // Set the forward module

    mod->forward(this);

    // Sync the chain info
    // TODO: See AudioModule for notes on chain info syncing

    mod->set_chain_info(this->get_chain_info());
''','''    mod->set_chain_info(this->get_chain_info());
    mod->forward(this);
    this->in.emplace_back(mod);
''')]),
('same','mixdown process pointer sum',[(X,'''        auto msize = std::min(b.size(), fbuff.size());

        for (std::size_t i = 0; i < msize; ++i) {''','''        std::size_t msize = fbuff.size();
        if (b.size() < msize) {
            msize = b.size();
        }

        for (std::size_t i = 0; i != msize; i++) {''')]),
('same','mixdown process skips nothing',[(X,'''    auto fbuff =
        AudioBuffer(this->get_info()->out_buffer, this->get_info()->channels,
                    this->get_info()->sample_rate);
''','''    const ModuleInfo& conf = *this->get_info();
    AudioBuffer fbuff(conf.out_buffer, conf.channels, conf.sample_rate);
''')]),
('same','mixdown add helper',[(X,'''void ModuleMixDown::process() {
''','''static void add_to(AudioBuffer& out, const AudioBuffer& from) {
    const std::size_t end = std::min(from.size(), out.size());
    for (std::size_t i = 0; i < end; ++i) {
        out.at(i) = out.at(i) + from.at(i);
    }
}

void ModuleMixDown::process() {
'''),(X,'''        auto msize = std::min(b.size(), fbuff.size());

        for (std::size_t i = 0; i < msize; ++i) {

            fbuff.at(i) += b.at(i);

            // *(fbuff.sbegin() + iter) += *iter;
        }
''','''        add_to(fbuff, b);
''')]),
('same','mixup get copy explicit',[(X,'''    tbuff = this->buff;

    // Finally, return the buffer:

    return std::move(tbuff);''','''    AudioBuffer copy(this->buff);
    tbuff = std::move(copy);
    return static_cast<AudioBuffer&&>(tbuff);''')]),
('same','mixup forward order',[(X,'''    this->out.push_back(mod);

    // Chain information is taken from this module when syncing

    AudioModule<>::forward(mod);''','''    BaseModule::forward(mod);
    this->out.push_back(mod);''')]),
('same','start through local',[(A,'''        this->backward().meta_start();

        // Set our state:
''','''        auto& upstream = this->backward();
        upstream.meta_start();

        // Set our state:
''')]),
('same','stop through accessor free fn',[(A,'''template <typename C = void, maecm B = BaseModule*>
class AudioModule : public BaseModule {
public:''','''template <typename M>
inline void stop_upstream(M& mod) {
    mod.meta_stop();
}

template <typename C = void, maecm B = BaseModule*>
class AudioModule : public BaseModule {
public:'''),(A,'        this->backward().meta_stop();','        stop_upstream(this->backward());')]),
('same','meta_process unified',[(A,'''            backwardv.meta_process();

            // Grab the buffer

            this->set_buffer(backwardv.get_buffer());''','''            auto& up = this->backward();
            up.meta_process();
            AudioBuffer&& got = up.get_buffer();
            this->set_buffer(std::move(got));'''),(A,'''            this->backward().meta_process();

            this->set_buffer(this->backward().get_buffer());''','''            auto& up = this->backward();
            up.meta_process();
            AudioBuffer&& got = up.get_buffer();
            this->set_buffer(std::move(got));''')]),
('same','meta_process helper',[(A,'''    void meta_process()
        override {  // NOLINT''','''    void adopt(BaseModule& from) { this->set_buffer(from.get_buffer()); }

    void meta_process()
        override {  // NOLINT'''),(A,'            this->set_buffer(this->backward().get_buffer());','            this->adopt(this->backward());')]),
('same','meta_process via local buffer',[(A,'            this->set_buffer(this->backward().get_buffer());','            AudioBuffer held = this->backward().get_buffer();\n            this->set_buffer(std::move(held));')]),
('same','base set_buffer swap',[(BC,'    this->buff = std::move(inbuff);','    AudioBuffer taken(std::move(inbuff));\n    this->buff = std::move(taken);')]),
('same','info sync fields',[(A,'        *(this->get_info()) = *(this->forward()->get_info());','''        const ModuleInfo* front = this->forward()->get_info();
        ModuleInfo* mine = this->get_info();
        mine->channels = front->channels;
        mine->sample_rate = front->sample_rate;
        mine->out_buffer = front->out_buffer;
        mine->in_buffer = front->in_buffer;''')]),
('same','info sync set_info',[(A,'        *(this->get_info()) = *(this->forward()->get_info());','        this->set_info(*this->forward()->get_info());')]),
('same','info sync order',[(A,'''        *(this->get_info()) = *(this->forward()->get_info());

        // Also, copy the chain info from the front as well

        this->set_chain_info(this->forward()->get_chain_info());

        // Increment the number of modules in the chain

        this->get_chain_info()->module_num++;''','''        auto* front = this->forward();
        auto* record = front->get_chain_info();
        this->set_chain_info(record);
        record->module_num += 1;
        *(this->get_info()) = *(front->get_info());''')]),
('same','from_chain reuse',[(B,'''        sample_rate = cinfo.sample_rate;
        in_buffer = cinfo.buffer_size;
        out_buffer = cinfo.buffer_size;
        channels = cinfo.channels;
    }''','''        *this = ModuleInfo(cinfo);
    }''')]),
('same','sink sync order',[(S,'''        this->get_info()->from_chain(this->chain_instance);

        // We are the start of the chain, so modules are counted from us:

        this->chain_instance.module_num = 1;''','''        ChainInfo& record = this->chain_instance;
        record.module_num = 1;
        this->get_info()->from_chain(record);''')]),
('same','sink assign helper',[(S,'''    SinkModule& operator=(const SinkModule& other) {
        AudioModule<void, B>::operator=(other);
        this->chain_instance = other.chain_instance;
        this->set_chain_info(&chain_instance);
        return *this;
    }''','''    void take_record(const ChainInfo& from) {
        this->chain_instance = from;
        this->set_chain_info(&this->chain_instance);
    }

    SinkModule& operator=(const SinkModule& other) {
        if (this != &other) {
            AudioModule<void, B>::operator=(other);
            this->take_record(other.chain_instance);
        }
        return *this;
    }''')]),
('same','sink ctor delegates',[(S,'''    SinkModule() {

        // Assign pointer:

        this->set_chain_info(&chain_instance);
    }''','''    void own_record() { this->set_chain_info(&this->chain_instance); }

    SinkModule() : chain_instance() { this->own_record(); }''')]),
('same','period countdown',[(SC,'    for (int i = 0; i < this->periods; ++i) {','    for (int left = this->periods; left > 0; left--) {')]),
('same','period helper',[(SC,'''    for (int i = 0; i < this->periods; ++i) {

        // Call the module behind us:

        this->backward().meta_process();

        // Claim it's buffer

        buff = this->backward().get_buffer();

        // Process ? :

        this->process();
    }''','''    const int count = this->get_period();
    int i = 0;
    while (i < count) {
        ++i;
        AudioModule<>::meta_process();
    }''')]),
('same','period set_buffer',[(SC,'        buff = this->backward().get_buffer();','        this->set_buffer(this->backward().get_buffer());')]),
('same','source calls',[(R,'''        // Set our state:

        BaseModule::finish();

        // Call the user defined finish method:

        this->finish();''','''        SourceModule::BaseModule::finish();
        finish();''')]),
('same','done order',[(BC,'''    this->state_type = State::Finished;

    // Report to the chain that we are done:

    ++(this->chain->module_finish);''','''    ChainInfo& record = *this->chain;
    record.module_finish = record.module_finish + 1;
    this->state_type = State::Finished;''')]),
('same','state setter',[(B,'''private:
    /// The state type of this module:
''','''    void enter(State st) { this->state_type = st; }

private:
    /// The state type of this module:
'''),(BC,'    this->state_type = State::Started;','    this->enter(State::Started);'),(BC,'    this->state_type = State::Stopped;','    this->enter(State::Stopped);')]),
('same','link direct',[(A,'''            this->backwardv = mod;

            // Get the NEW standardized backwards module

            auto& nmod = this->backward();

            // Give them a pointer to ourselves

            nmod.forward(this);

            // Return pointer to backwards value

            return (&this->backward());''','''            mod->forward(this);
            this->backwardv = mod;
            return mod;''')]),
('same','link exchange',[(A,'            this->backwardv = mod;','            (void)std::exchange(this->backwardv, mod);')]),
('same','link inverted condition',[(A,'''        if constexpr (!std::is_same_v<BT, BaseModule*>) {

            // TODO: Fire an assertion warning here

            // Just quit

            return nullptr;
        } else {''','''        if constexpr (not std::is_same_v<BT, BaseModule*>) {
            BaseModule* nothing = nullptr;
            return nothing;
        } else {''')]),
('same','param start index',[(P,'''        for (ModuleParam* param : this->params) {

            // Start the parameter:

            param->meta_start();
        }''','''        for (std::size_t i = 0; i < this->params.size(); ++i) {
            this->params[i]->meta_start();
        }''')]),
('same','param stop int loop',[(P,'''        for (ModuleParam* param : this->params) {

            // Stop the parameter:

            param->meta_stop();
        }''','''        for (int i = 0; i < num; i++) {
            ModuleParam& param = *this->params.at(i);
            param.meta_stop();
        }''')]),
('same','param info array',[(P,'''        for (ModuleParam* param : this->params) {

            param->conf_mod(mod);
        }''','''        auto* list = this->get_array();
        for (auto it = list->begin(); it != list->end(); ++it) {
            (*it)->conf_mod(mod);
        }''')]),
('same','param sync helper',[(P,'''    void meta_info_sync() override {

        // Preform info sync for current module:

        AudioModule::meta_info_sync();

        // Preform param sync:

        this->param_info(this);
    }''','''    void sync_params() { this->param_info(this); }

    void meta_info_sync() override {
        AudioModule::meta_info_sync();
        this->sync_params();
    }''')]),
('same','param conf refs',[(PC,'''    auto* chain_info = this->get_chain_info();
    auto* conf_info = mod->get_info();

    chain_info->buffer_size = conf_info->in_buffer;
    chain_info->channels = conf_info->channels;
    chain_info->sample_rate = conf_info->sample_rate;
''','''    const ModuleInfo& from = *mod->get_info();
    ChainInfo& to = *this->get_chain_info();
    to.sample_rate = from.sample_rate;
    to.channels = from.channels;
    to.buffer_size = from.in_buffer;
''')]),
('same','param conf helper',[(PC,'''void ModuleParam::conf_mod(BaseModule* mod) {''','''namespace {
void copy_conf(ChainInfo* to, const ModuleInfo* from) {
    to->buffer_size = from->in_buffer;
    to->channels = from->channels;
    to->sample_rate = from->sample_rate;
}
}  // namespace

void ModuleParam::conf_mod(BaseModule* mod) {'''),(PC,'''    auto* chain_info = this->get_chain_info();
    auto* conf_info = mod->get_info();

    chain_info->buffer_size = conf_info->in_buffer;
    chain_info->channels = conf_info->channels;
    chain_info->sample_rate = conf_info->sample_rate;
''','''    copy_conf(this->get_chain_info(), mod->get_info());
''')]),
('same','param constant local',[(PC,'''    this->value = val;

    // Set the constant module:

    this->const_mod = std::make_unique<ConstModule>(val);

    this->link(this->const_mod.get());''','''    auto made = std::make_unique<ConstModule>(val);
    this->link(made.get());
    this->const_mod = std::move(made);
    this->value = val;''')]),
('same','reserve through two args',[(BC,'''    buff.set_channels(info.channels);
    buff.set_samplerate(info.sample_rate);

    // Resize the buffer we are working with

    buff.resize(this->info.out_buffer * info.channels);
}''','''    buff.set_samplerate(info.sample_rate);
    this->reserve(info.out_buffer, info.channels);
}''')]),
('same','reserve order',[(BC,'''    buff.set_channels(info.channels);
    buff.set_samplerate(info.sample_rate);

    // Resize the buffer we are working with

    buff.resize(this->info.out_buffer * info.channels);
}''','''    const int total = info.channels * info.out_buffer;
    buff.resize(total);
    buff.set_samplerate(info.sample_rate);
    buff.set_channels(info.channels);
}''')]),
('same','trace statements',[(A,'''        this->backward().meta_start();
''','''        static int seen = 0;
        ++seen;
        this->backward().meta_start();
'''),(BC,'''    this->state_type = State::Started;''','''    [[maybe_unused]] int old = static_cast<int>(this->state_type);
    this->state_type = State::Started;''')]),
('same','const vector copy',[(X,'''    for (auto* mod : this->in) {

        // Call the meta start of each

        mod->meta_start();
    }''','''    const auto inputs = this->in;
    for (auto* mod : inputs) {
        mod->meta_start();
    }''')]),
]
