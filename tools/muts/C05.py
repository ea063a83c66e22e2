from chaincommon import *
MUTS=[
('bug','buffer before process',[(A,'''            this->backward().meta_process();

            this->set_buffer(this->backward().get_buffer());''','''            this->set_buffer(this->backward().get_buffer());
            this->backward().meta_process();''')]),
('bug','no rate',[(BC,'    this->buff = std::move(inbuff);','    const double sr = this->buff.get_samplerate();\n    this->buff = std::move(inbuff);\n    this->buff.set_samplerate(sr);')]),
('bug','grow list',[(X,'''    this->buffs.clear();
    this->buffs.reserve(this->in.size());''','''    if (this->buffs.size() > this->in.size()) this->buffs.clear();'''),(X,'''    // We have consumed the input buffers for this cycle; release them
    this->buffs.clear();''','')]),
('bug','period one less',[(SC,'    for (int i = 0; i < this->periods; ++i) {','    for (int i = this->periods > 8; i < this->periods; ++i) {')]),
('bug','skip empty',[(SC,'        this->process();','        if (buff.size()) this->process();')]),
('bug','mixer twice',[(X,'        mod->meta_process();','        mod->meta_process();\n        if (mod->get_buffer().size() == 0) mod->meta_process();')]),
('bug','source twice',[(RC,'    this->process();','    this->process();\n    if (this->get_state() == State::Created) this->process();')]),
('bug','skip when finished',[(A,'            this->backward().meta_process();\n','            if (this->backward().get_state() != State::Finished) this->backward().meta_process();\n')]),
]+SAME
