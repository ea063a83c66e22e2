A='include/maec/audio_module.hpp'; B='include/maec/base_module.hpp'; M='src/module_mixer.cpp'; S='include/maec/sink_module.hpp'
src=open('/repo/'+A).read()
i=src.index('this->backwardv = mod;')
MUTS=[
('bug','nofwd',[(A,'this->backwardv = mod;','this->backwardv = mod; return mod;')]),
('bug','onlyfirst',[(A,'this->backwardv = mod;','if (!this->backwardv) this->backwardv = mod;')]),
('bug','retself',[(A,'return (&this->backward());','return this;')]),
('bug','mixtwice',[(M,'this->in.push_back(mod);','this->in.push_back(mod); if (mod->forward() == this) this->in.push_back(mod);')]),
('bug','mixdedupe',[(M,'    this->in.push_back(mod);','    if (in.empty() || in.back() != mod) this->in.push_back(mod);')]),
('bug','mixclear',[(M,'    this->in.push_back(mod);','    if (in.size() > 8) in.clear();\n    this->in.push_back(mod);')]),
('bug','mixfwd',[(M,'    mod->forward(this);\n','')]),
('bug','mixfront',[(M,'    mod->forward(this);\n','    in.front()->forward(this);\n')]),
('bug','fwdnull',[(B,'{ forwardv = mod; }','{ if (mod) forwardv = mod; }')]),
('bug','fwdself',[(B,'{ return forwardv; }','{ return forwardv ? forwardv : this; }')]),
('bug','sinkrec',[(S,'        this->set_chain_info(&chain_instance);\n    }\n\n    SinkModule(SinkModule&& other)','    }\n\n    SinkModule(SinkModule&& other)')]),
('bug','static',[(A,'this->backwardv = std::move(mod);','mod.forward(this); this->backwardv = std::move(mod); return &this->backward();')]),
('same','order',[(A,'this->backwardv = mod;','mod->forward(this); this->backwardv = mod; return mod;')]),
('same','mixorder',[(M,'    this->in.push_back(mod);\n',''),(M,'    mod->forward(this);\n','    mod->forward(this);\n    this->in.emplace_back(mod);\n')]),
('same','mixinsert',[(M,'this->in.push_back(mod);','this->in.insert(in.end(), mod);')]),
]
import chaincommon
MUTS=MUTS+chaincommon.SAME
