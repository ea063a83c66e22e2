from parcommon import *
MUTS=SAME+[
('bug','stop-order',[(H,'        this->end_thread();\n\n        AudioModule<>::meta_stop();','        AudioModule<>::meta_stop();')]),
('bug','start-order',[(H,'        this->end_thread();\n\n        AudioModule<>::meta_start();','        AudioModule<>::meta_start();')]),
('bug','consumer-processes',[(H,'''        // Set the buffer to be front of the dequeue
''','''        if (this->done && this->queue.size() == 1) this->backward().meta_process();
''')]),
('bug','dtor',[(H,'~ParallelModule() override { this->end_thread(); }','~ParallelModule() override { done = true; cv.notify_all(); if (thread.joinable()) thread.detach(); }')]),
('bug','worker-sync',[(H,'            this->backward().meta_process();','            if (queue.empty()) this->backward().meta_info_sync();\n            this->backward().meta_process();')]),
('bug','worker-set',[(H,'            queue.emplace_back(std::move(this->backward().get_buffer()));','            this->set_buffer(std::move(this->backward().get_buffer()));\n            queue.emplace_back(this->buff);')]),
('bug','thread-in-sync',[(H,'        this->end_thread();\n\n        AudioModule<>::meta_start();','        this->end_thread();\n        thread = std::thread{&ParallelModule::run_thread, this};\n        AudioModule<>::meta_start();')]),
('bug','stop-join-late',[(H,'        this->end_thread();\n\n        AudioModule<>::meta_stop();','        this->done = true;\n        AudioModule<>::meta_stop();')]),
('bug','stop-flag-only-running',[(H,'        this->end_thread();\n\n        AudioModule<>::meta_stop();','        if (this->get_state() != State::Started) this->end_thread();\n        AudioModule<>::meta_stop();')]),
]
