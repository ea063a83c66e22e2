from chaincommon import *
MUTS=[
('bug','state after hook',[(A,'''        BaseModule::start();

        // Start this current module:

        this->start();''','''        this->start();

        BaseModule::start();''')]),
('bug','stop keeps finished',[(BC,'    this->state_type = State::Stopped;','    if (this->state_type != State::Finished) this->state_type = State::Stopped;')]),
('bug','mixer finish state missing',[(X,'''    BaseModule::finish();
''','')]),
('bug','done not finished',[(BC,'    this->state_type = State::Finished;','    this->state_type = State::Finishing;')]),
('bug','created value',[(B,'    State state_type = State::Created;','    State state_type = State::Stopped;')]),
('bug','process starts',[(SC,'        this->process();','        this->process();\n        BaseModule::start();')]),
('bug','source stop state',[(R,'''        BaseModule::stop();

        // Call the user defined stop method:

        this->stop();''','''        this->stop();''')]),
]+SAME
