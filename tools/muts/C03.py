from chaincommon import *
MUTS=[
('bug','done twice',[(A,'        this->done();','        this->done();\n        if (this->get_state() != State::Finished) this->done();'),(BC,'    this->state_type = State::Finished;','    if (this->chain->module_finish) this->state_type = State::Finished;')]),
('bug','no report when finished',[(BC,'    ++(this->chain->module_finish);','    if (this->chain->module_finish < this->chain->module_num) ++(this->chain->module_finish);')]),
('bug','report two',[(BC,'    ++(this->chain->module_finish);','    this->chain->module_finish += this->chain->module_num > 2 ? 2 : 1;')]),
('bug','sync clears',[(S,'        this->chain_instance.module_num = 1;','        this->chain_instance.module_num = 1;\n        this->chain_instance.module_finish = 0;')]),
('bug','wrong counter',[(BC,'    ++(this->chain->module_finish);','    ++(this->chain->module_num);')]),
('bug','only when finishing',[(A,'        this->done();','        if (this->get_state() == State::Finishing) this->done();')]),
]+SAME
