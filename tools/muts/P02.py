from parcommon import *
MUTS=SAME+[
('bug','stop-unlocked',[(H,ENDT,'')]),
('bug','max-unlocked',[(H,'''            std::lock_guard<std::mutex> lock(qmut);

            qsize = size;''','            qsize = size;')]),
('bug','max-silent',[(H,'        // Notify the thread, there might be space available now\n        cv.notify_all();\n','')]),
('bug','pop-silent',[(H,'        // Unlock and notify producers that space is available.\n        lock.unlock();\n        cv.notify_all();\n','')]),
('bug','push-silent',[(H,'            lock.unlock();\n            cv.notify_all();\n','            lock.unlock();\n')]),
('bug','push-early-notify',[(H,PUSH,'''            cv.notify_all();
            lock.lock();
            queue.emplace_back(std::move(this->backward().get_buffer()));
            lock.unlock();
''')]),
('bug','stop-notify-one',[(H,'        this->cv.notify_all();','        this->cv.notify_one();')]),
('bug','if-wait',[(H,CW,'if (this->queue.empty() && !this->done) { cv.wait(lock); }')]),
('bug','worker-if-wait',[(H,'            cv.wait(lock, [&] { return queue.size() < qsize || done; });','            if (queue.size() >= qsize && !done) { cv.wait(lock); }')]),
('bug','consumer-ignores-stop',[(H,CW,'cv.wait(lock, [&] { return !this->queue.empty(); });')]),
('bug','worker-ignores-stop',[(H,'return queue.size() < qsize || done;','return queue.size() < qsize;')]),
('bug','no-flag-test',[(H,'''            if (done) {
                return;
            }
''','')]),
('bug','notify-when-empty',[(H,'        lock.unlock();\n        cv.notify_all();\n    }','        const bool full = this->queue.size() + 1 == qsize;\n        lock.unlock();\n        if (full) cv.notify_all();\n    }')]),
('bug','push-notify-first-only',[(H,'            // Unlock and notify consumers that there\'s data available.\n            lock.unlock();\n            cv.notify_all();\n','            const bool first = queue.size() == 1;\n            lock.unlock();\n            if (first) cv.notify_one();\n')]),
('bug','stop-no-join',[(H,'                this->thread.join();','                this->thread.detach();')]),
('bug','dtor-default',[(H,'~ParallelModule() override { this->end_thread(); }','~ParallelModule() override = default;')]),
('bug','restart-running',[(H,'        // End the thread of an earlier start, if any\n\n        this->end_thread();\n','')]),
('bug','join-before-notify',[(H,'        // Notify all condition variables\n\n        this->cv.notify_all();\n',''),(H,'                this->thread.join();','                this->thread.join();\n                this->cv.notify_all();')]),
('bug','keep-draining',[(H,'            if (done) {','            if (done && queue.size() >= qsize) {')]),
]
