from parcommon import *
MUTS=SAME+[
('bug','size-unlocked',[(H,SIZE,'std::size_t size() const { return queue.size(); }')]),
('bug','process-locked',[(H,'            lock.unlock();\n\n            // Process the back','            // Process the back'),(H,'            lock.lock();\n\n            queue.empl','            queue.empl')]),
('bug','push-unlocked',[(H,'            lock.lock();\n\n            queue','            queue'),(H,'            lock.unlock();\n            cv.notify_all();\n','            cv.notify_all();\n')]),
('bug','element-after-unlock',[(H,TAKE,'''        AudioBuffer& next = this->queue.front();
        lock.unlock();
        this->set_buffer(std::move(next));
        lock.lock();
        this->queue.pop_front();
        lock.unlock();
        cv.notify_all();
''')]),
('bug','clear-unlocked',[(H,'            std::lock_guard<std::mutex> lock(qmut);\n\n            // Clear the queue','            // Clear the queue')]),
('bug','plain-flag',[(H,'std::atomic<bool> done = false;','bool done = false;'),(H,'''            // If we've been asked to stop, exit the thread.
            if (done) {
                return;
            }

            // Release lock while running potentially-expensive processing.
            lock.unlock();
''','''            // Release lock while running potentially-expensive processing.
            lock.unlock();

            if (done) {
                return;
            }
''')]),
('bug','join-locked',[(H,ENDT,'            std::lock_guard<std::mutex> lock(qmut);\n'),(H,'''            done = true;
        }

        // Notify all condition variables

        this->cv.notify_all();
''','''            done = true;
        // Notify all condition variables

        this->cv.notify_all();
'''),(H,'''                this->thread.detach();
            }
        }
''','''                this->thread.detach();
            }
        }
        }
''')]),
('bug','relock',[(H,'        // Remove the first value in the dequeue\n\n        this->queue.pop_front();','        if (this->size() > 0) this->queue.pop_front();')]),
('bug','worker-count',[(H,'            queue.emplace_back(','            this->buff.set_channels(1);\n            queue.emplace_back(')]) if False else ('bug','empty-peek',[(H,'        std::unique_lock<std::mutex> lock(qmut);\n\n        // Wait until','        if (this->queue.empty() && this->done) return;\n        std::unique_lock<std::mutex> lock(qmut);\n\n        // Wait until')]),
('bug','adopted-leak',[(H,SIZE,'std::size_t size() const { qmut.lock(); const std::size_t n = queue.size(); if (n == 0) return 0; qmut.unlock(); return n; }')]),
]
