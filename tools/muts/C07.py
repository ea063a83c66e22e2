H='include/maec/module_param.hpp'; S='src/module_param.cpp'
MUTS=[
('bug','channels',[(S,'    chain_info->channels = conf_info->channels;\n','')]),
('bug','swap',[(S,'chain_info->buffer_size = conf_info->in_buffer','chain_info->buffer_size = conf_info->channels')]),
('bug','order',[(S,'    chain_info->sample_rate = conf_info->sample_rate;\n',''),(S,'    this->meta_info_sync();\n}','    this->meta_info_sync();\n    chain_info->sample_rate = conf_info->sample_rate;\n}')]),
('bug','nofwd',[(S,'    this->forward(mod);\n','')]),
('bug','ownonly',[(S,'    this->meta_info_sync();\n}','    this->info_sync();\n}')]),
('bug','noprocess',[(S,'    this->meta_process();\n','    if (this->const_mod == nullptr) this->meta_process();\n')]),
('bug','stale',[(S,'    this->meta_process();\n\n    // Next, return buffer:\n\n    return this->get_buffer();','    auto&& b = this->get_buffer(); this->meta_process();\n return std::move(b);')]),
('bug','first',[(H,'''        for (ModuleParam* param : this->params) {

            // Start the parameter:

            param->meta_start();
        }''','        this->params[0]->meta_start();')]),
('bug','const0',[(S,'std::make_unique<ConstModule>(val)','std::make_unique<ConstModule>()')]),
('bug','nolink',[(S,'    this->link(this->const_mod.get());','    if (!this->const_mod) this->link(this->const_mod.get());')]),
('same','index',[(H,'''        for (ModuleParam* param : this->params) {

            // Start the parameter:

            param->meta_start();
        }''','''        for (std::size_t i = 0; i < params.size(); ++i) {

            auto* q = this->params[i]; q->meta_start();
        }''')]),
('same','reord',[(S,'''    chain_info->buffer_size = conf_info->in_buffer;
    chain_info->channels = conf_info->channels;
    chain_info->sample_rate = conf_info->sample_rate;
''','''    chain_info->sample_rate = conf_info->sample_rate;
    const auto ch = mod->get_info()->channels;
    this->get_chain_info()->channels = ch;
    chain_info->buffer_size = conf_info->in_buffer;
''')]),
('same','linkfirst',[(S,'    this->forward(mod);\n',''),(S,'    // Preform chain info sync:\n','    this->forward(mod);\n')]),
('same','unique',[(S,'std::make_unique<ConstModule>(val)','std::unique_ptr<ConstModule>(new ConstModule(val))')]),
('same','foreach',[(H,'''        for (ModuleParam* param : this->params) {

            param->conf_mod(mod);
        }''','''        auto it = this->params.begin(); while (it != this->params.end()) { (*it)->conf_mod(mod); ++it; }''')]),
]
import chaincommon
MUTS=MUTS+chaincommon.SAME
