_F = ['include/maec/parallel.hpp']
_ST = [dict(name='queue', meaning='produced buffers not yet consumed', where='include/maec/parallel.hpp'), dict(name='done', meaning='asks the worker to end', where='include/maec/parallel.hpp'), dict(name='qsize', meaning='maximum number of queued buffers', where='include/maec/parallel.hpp')]
PROPS += [
dict(id='P01', title='Parallel module: shared state is only touched under its lock',
 statement='Whatever the interleaving of the worker thread and the public operations of a parallel module, the buffer queue and every element still inside it are only read or changed while the module\'s mutex is held, and every other field both threads use is atomic or locked at each access. The worker never holds the mutex while it processes the chain behind it, nobody joins the worker while holding it, no thread locks it twice, and every operation has released it when it returns.',
 quantifier=dict(over=['schedules'], text='all interleavings of the worker and any number of calling threads'),
 why_tests_cant='A race or a lock held too long shows only under particular interleavings; the tests run a handful of schedules.',
 anchors=dict(files=_F, state=_ST, mechanism=[dict(name='ParallelModule::run_thread / meta_process / size / start / stop', where='include/maec/parallel.hpp')]),
 technique='disjunctive lock-state dataflow (lockset typestate of guard objects) over every instruction of every thread role',
 level_note='sound for the analysed bodies; exceptions and relinking while running are out of scope'),
dict(id='P02', title='Parallel module: no lost wake-ups, and stopping always ends the worker',
 statement='A thread of a parallel module waits exactly while its condition demands it (worker: the queue is full and not stopped; consumer: the queue is empty and not stopped), re-tests the condition after every wake-up, and every change that can end a wait (a push, a pop, the stop flag, the maximum size) is made under the mutex and followed by a notification that reaches every thread that may wait for it. Stopping, restarting or destroying the module sets the stop flag, wakes the worker and joins it (detaching only when called from the worker itself), and a worker that has seen the flag leaves its loop.',
 quantifier=dict(over=['schedules', 'histories'], text='all interleavings, any sequence of start, stop, consume, resize and destruction'),
 why_tests_cant='A lost wake-up needs the notification to fall between a test and a wait; tests hit that window once in many thousand runs.',
 anchors=dict(files=_F, state=_ST, mechanism=[dict(name='condition variable waits and notifications', where='include/maec/parallel.hpp')]),
 technique='wait-loop shape and exhaustive small-value evaluation of wait conditions; pending-notification typestate combined with the lock-state dataflow; path rule for ending the worker',
 level_note='sound for the analysed bodies under the stated assumptions; fairness of the scheduler is N-class'),
dict(id='P03', title='Parallel module: each buffer is handed over once, in order, bounded',
 statement='Each iteration of the worker processes the module behind exactly once, then takes its buffer and appends exactly that buffer at the back of the queue, and only after it has seen fewer queued buffers than the maximum. Consuming moves the whole front buffer (samples, channel count, sample rate) into the module and removes exactly that element within one critical section, and returns without a buffer only when the module is stopped and the queue is empty; starting empties the queue and clears the stop flag before the worker exists, and nothing else changes the queue.',
 quantifier=dict(over=['schedules', 'histories'], text='all interleavings, any maximum, any number of buffers, restarts'),
 why_tests_cant='Losing the buffer in flight at a stop, or exceeding the maximum by one, depends on the schedule.',
 anchors=dict(files=_F, state=_ST, mechanism=[dict(name='ParallelModule::run_thread', where='include/maec/parallel.hpp'), dict(name='ParallelModule::meta_process', where='include/maec/parallel.hpp')]),
 technique='path enumeration of the worker iteration and the consumer with effect counting and element provenance; small-value evaluation of path conditions',
 level_note='sound for the analysed bodies'),
dict(id='P04', title='Parallel module: the chain behind is processed only by the worker',
 statement='Only the worker thread processes the module behind a parallel module or takes its buffer, it calls nothing else on the chain and writes no field of the parallel module but the queue. Exactly one thread is created by each start, after the chain behind has been started, and a worker that is still running has ended before the chain behind is started or stopped through the parallel module and before the module\'s members are destroyed.',
 quantifier=dict(over=['schedules', 'histories'], text='all interleavings of state operations with the running worker'),
 why_tests_cant='Stopping a source while the worker is inside it only fails when the timing is right.',
 anchors=dict(files=_F, mechanism=[dict(name='ParallelModule::meta_start / meta_stop / ~ParallelModule', where='include/maec/parallel.hpp')]),
 technique='thread-role call-graph partition, effect analysis of the worker, and a path-ordering rule (worker ended before upstream state operation)',
 level_note='sound for the analysed bodies; info_sync and finish during a run are out of scope'),
dict(id='P05', title='Objects share no hidden state between them',
 statement='Nothing in the library keeps state outside the objects the caller made: no variable of static or thread storage changes once it has been initialised, and no function calls into the C library where that keeps a state of its own or changes the whole process. Two chains that share no object therefore never influence each other, whichever threads run them and whatever ran before, and the same operations on freshly made objects give the same results again.',
 quantifier=dict(over=['schedules', 'histories'], text='all programs that use several modules, buffers or transforms, in any order and on any number of threads'),
 why_tests_cant='A cache or scratch variable behind a function gives the right answer in each test that uses one object at a time; it fails when two users interleave, or on the second use with other arguments.',
 anchors=dict(files=['include/maec', 'src'], mechanism=[dict(name='every variable of static or thread storage', where='include/maec, src'), dict(name='every call out of the library', where='include/maec, src')]),
 technique='whole-program query over the compiler\'s intermediate representation: storage class and mutability of every variable, callees of every external call',
 level_note='sound for the linked program (library, all inline functions of the public headers, instantiated templates); state inside ALSA and the standard library is assumed to be per handle or object'),
]
