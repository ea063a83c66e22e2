from chaincommon import *
MUTS=[
('bug','order',[(X,'''    this->info_sync();

    // Iterate over each module in the collection

    for (auto* mod : this->in) {

        // Call the info sync of each

        mod->meta_info_sync();
    }''','''    for (auto* mod : this->in) {
        mod->meta_info_sync();
    }
    this->info_sync();''')]),
('bug','no channels',[(B,'''        out_buffer = cinfo.buffer_size;
        channels = cinfo.channels;
    }''','''        out_buffer = cinfo.buffer_size;
    }''')]),
('bug','no restart',[(S,'        this->chain_instance.module_num = 1;','        if (this->chain_instance.module_num == 0) this->chain_instance.module_num = 1;')]),
('bug','only new records',[(A,'        this->get_chain_info()->module_num++;','        if (this->get_chain_info()->module_num < 64) this->get_chain_info()->module_num++;')]),
('bug','keep rate',[(A,'        *(this->get_info()) = *(this->forward()->get_info());','        const double sr = this->get_info()->sample_rate;\n        *(this->get_info()) = *(this->forward()->get_info());\n        if (sr > 48000) this->get_info()->sample_rate = sr;')]),
('bug','out from in',[(A,'        *(this->get_info()) = *(this->forward()->get_info());','        *(this->get_info()) = *(this->forward()->get_info());\n        this->get_info()->out_buffer = this->get_info()->in_buffer;')]),
('bug','record kept',[(A,'        this->set_chain_info(this->forward()->get_chain_info());','        if (!this->get_chain_info()) this->set_chain_info(this->forward()->get_chain_info());')]),
('bug','source no sync',[(R,'    void meta_info_sync() override { this->info_sync(); }','    void meta_info_sync() override { if (!this->get_chain_info()) this->info_sync(); }')]),
]+SAME
