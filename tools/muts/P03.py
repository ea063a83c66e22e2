from parcommon import *
MUTS=SAME+[
('bug','le',[(H,'queue.size() < qsize ||','queue.size() <= qsize ||')]),
('bug','lifo',[(H,'queue.emplace_back(','queue.emplace_front(')]),
('bug','pop-back',[(H,'this->queue.pop_front();','this->queue.pop_back();')]),
('bug','no-pop-stopped',[(H,'        this->queue.pop_front();','        if (!this->done) this->queue.pop_front();')]),
('bug','drop-on-stop',[(H,'            lock.lock();\n\n            queue.emplace','            lock.lock();\n            if (done) return;\n            queue.emplace')]) ,
('bug','stop-drops',[(H,'if (this->done && this->queue.empty()) {','if (this->done) {')]),
('bug','no-clear',[(H,'            this->queue.clear();','')]),
('bug','stop-clears',[(H,'            done = true;\n','            done = true;\n            this->queue.clear();\n')]),
('bug','flag-kept',[(H,'            this->done = false;','')]),
('bug','split-take',[(H,TAKE,'''        this->set_buffer(std::move(this->queue.front()));
        lock.unlock();
        lock.lock();
        this->queue.pop_front();
        lock.unlock();
        cv.notify_all();
''')]),
('bug','take-samples',[(H,'this->set_buffer(std::move(this->queue.front()));','static_cast<std::vector<double>&>(this->buff.buff) = std::move(this->queue.front().buff);')]) if False else ('bug','take-back',[(H,'std::move(this->queue.front())','std::move(this->queue.back())')]),
('bug','process-twice',[(H,'            this->backward().meta_process();','            this->backward().meta_process();\n            if (queue.size() == 0) this->backward().meta_process();')]),
('bug','own-buffer',[(H,'std::move(this->backward().get_buffer())','std::move(this->get_buffer())')]),
('bug','overwrite-last',[(H,'            queue.emplace_back(','            if (queue.size() >= qsize) queue.pop_front();\n            queue.emplace_back(')]),
('bug','process-first',[(H,W1,''),(H,'            // Release lock while running potentially-expensive processing.\n            lock.unlock();\n',''),(H,'''            if (done) {
                return;
            }
''','''            if (done) {
                return;
            }
            std::unique_lock<std::mutex> lock(qmut, std::defer_lock);
'''),(H,'            lock.lock();\n\n            queue','            lock.lock();\n            cv.wait(lock, [&] { return queue.size() < qsize || done; });\n            queue')]) if False else ('bug','wait-swapped',[(H,'queue.size() < qsize ||','qsize > 0 ||')]),
]
