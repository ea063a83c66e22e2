from chaincommon import *
MUTS=[
('bug','mixer start skips first',[(X,'''    for (auto* mod : this->in) {

        // Call the meta start of each
''','''    for (auto* mod : std::vector<BaseModule*>(this->in.begin() + (this->in.size() > 2), this->in.end())) {

        // Call the meta start of each
''')]),
('bug','mixer stop twice',[(X,'        mod->meta_stop();','        mod->meta_stop();\n        if (this->in.size() == 1) mod->meta_stop();')]),
('bug','own hook first',[(A,'''        this->backward().meta_stop();
''','''        this->stop();
        this->backward().meta_stop();
'''),(A,'''        // Stop this current module:

        this->stop();
    }

    /**
     * @brief Meta finish''','''    }

    /**
     * @brief Meta finish''')]),
('bug','no hook when started',[(A,'''        BaseModule::start();

        // Start this current module:

        this->start();''','''        const bool again = this->get_state() == State::Started;
        BaseModule::start();

        if (!again) this->start();''')]),
('bug','source no finish',[(R,'        this->finish();','        if (this->get_chain_info()) this->finish();')]),
('bug','finish stops upstream',[(A,'        this->backward().meta_finish();','        this->backward().meta_stop();')]),
('bug','dedupe inputs',[(X,'''        // Call the meta finish of each

        mod->meta_finish();''','''        if (mod->get_state() != State::Finishing) mod->meta_finish();''')]),
]+SAME
