H='include/maec/parallel.hpp'
W1='''            // Acquire the lock to check queue size and possibly wait.
            std::unique_lock<std::mutex> lock(qmut);

            // Wait while the queue is full (or until we're asked to stop).
            cv.wait(lock, [&] { return queue.size() < qsize || done; });
'''
PUSH='''            // Re-acquire the lock to push the produced buffer.
            lock.lock();

            queue.emplace_back(std::move(this->backward().get_buffer()));

            // Unlock and notify consumers that there's data available.
            lock.unlock();
            cv.notify_all();
'''
UNL='''            // Release lock while running potentially-expensive processing.
            lock.unlock();

            // Process the backwards module without holding the queue lock.
            this->backward().meta_process();
'''
CW='cv.wait(lock, [&] { return !this->queue.empty() || this->done; });'
EARLY='''        if (this->done && this->queue.empty()) {
            return;
        }
'''
TAKE='''        this->set_buffer(std::move(this->queue.front()));

        // Remove the first value in the dequeue

        this->queue.pop_front();

        // Unlock and notify producers that space is available.
        lock.unlock();
        cv.notify_all();
'''
SPAWN='thread = std::thread{&ParallelModule::run_thread, this};'
DONE='''            // Set the done value to be true

            done = true;
        }
'''
ENDT='''            // Grab the lock so a waiting thread can't miss this change
            std::lock_guard<std::mutex> lock(qmut);

            // Set the done value to be true
'''
SIZE='std::size_t size() const { std::lock_guard<std::mutex> lock(qmut); return queue.size(); }'
SAME=[
('same','lambda-thread',[(H,SPAWN,'thread = std::thread([this] { this->run_thread(); });')]),
('same','while-wait',[(H,'            cv.wait(lock, [&] { return queue.size() < qsize || done; });','            while (!done && queue.size() >= qsize) { cv.wait(lock); }')]),
('same','scoped-blocks',[(H,PUSH,'''            {
                std::lock_guard<std::mutex> guard(qmut);
                queue.push_back(std::move(this->backward().get_buffer()));
            }
            cv.notify_all();
''')]),
('same','notify-locked',[(H,'            lock.unlock();\n            cv.notify_all();\n','            cv.notify_all();\n')]),
('same','scoped-lock',[(H,SIZE,'std::size_t size() const { const std::scoped_lock lock(qmut); const std::size_t n = queue.size(); return n; }')]),
('same','consume-local',[(H,TAKE,'''        AudioBuffer next = std::move(this->queue.front());
        this->queue.pop_front();
        lock.unlock();
        cv.notify_all();
        this->set_buffer(std::move(next));
''')]),
('same','early-invert',[(H,EARLY,'''        if (this->queue.empty()) {
            return;
        }
''')]),
('same','manual-mutex',[(H,ENDT,'''            qmut.lock();
'''),(H,'''            done = true;
        }
''','''            done = true;
            qmut.unlock();
        }
''')]),
('same','notify-one',[(H,'            lock.unlock();\n            cv.notify_all();\n','            lock.unlock();\n            cv.notify_one();\n')]),
('same','helper',[(H,'            queue.emplace_back(std::move(this->backward().get_buffer()));','            this->push(std::move(this->backward().get_buffer()));'),(H,'    void run_thread() {','    void push(AudioBuffer&& b) { queue.emplace_back(std::move(b)); }\n    void run_thread() {')]),
('same','wait-helper',[(H,CW,'cv.wait(lock, [this] { return this->ready(); });'),(H,'    void run_thread() {','    bool ready() const { return done || queue.size() > 0; }\n    void run_thread() {')]),
('same','while-done',[(H,'''            // If we've been asked to stop, exit the thread.
            if (done) {
                return;
            }
''','''            const bool stopping = done.load();
            if (stopping) {
                break;
            }
''')]),
('same','atomic-ops',[(H,'            done = true;\n','            done.store(true);\n')]),
('same','rename',[(H,'std::condition_variable cv;','std::condition_variable space;\n    std::condition_variable& cv = space;')]) if False else ('same','order',[(H,'            this->queue.clear();\n\n            // Set the done value to be false\n            \n            this->done = false;','            this->done = false;\n            this->queue.clear();')]),
('same','swap-thread',[(H,SPAWN,'std::thread worker{&ParallelModule::run_thread, this};\n        thread = std::move(worker);')]),
]
