PROPS += [
dict(id='C01', title='Start, stop and finish reach every module upstream exactly once',
 statement='Starting, stopping or finishing the last module of a chain runs the corresponding hook of every module reachable upstream exactly once per link, on every path. A module hands the request to each upstream neighbour (the single backward module, or every input of a mixer, or nobody for a source) before it runs its own hook.',
 quantifier=dict(over=['programs', 'inputs'], text='all module classes, all chain shapes and lengths, all mixer input counts, all paths through the propagation code'),
 why_tests_cant='Tests build a handful of three-module chains and one two-input mixer; a skipped or doubled neighbour in one class or one input position is not observed.',
 anchors=dict(files=['include/maec/audio_module.hpp', 'include/maec/source_module.hpp', 'src/module_mixer.cpp', 'include/maec/module_param.hpp'],
  mechanism=[dict(name='AudioModule::meta_start/meta_stop/meta_finish', where='include/maec/audio_module.hpp'), dict(name='ModuleMixDown::meta_*', where='src/module_mixer.cpp'), dict(name='SourceModule::meta_*', where='include/maec/source_module.hpp')]),
 technique='path enumeration over the normalised IR of every final overrider, virtual calls resolved by vtable, loop coverage by scalar evolution',
 level_note='sound for the propagation bodies of every class in the repository and instantiated templates; assumes hooks do not relink the chain while it is being traversed'),
dict(id='C02', title='A module reports the lifecycle state it was last asked to enter',
 statement='When a module is started, stopped or finished, the state it reports is already started, stopped or finishing when its own hook begins to run, whatever that hook does, and a module that reports completion is in the finished state. A newly built module reports the created state, and nothing else changes the state.',
 quantifier=dict(over=['programs', 'histories'], text='all module classes, all user overrides of the hooks, all request sequences'),
 why_tests_cant='Tests check the state of a few classes with default hooks; overriding a hook or using another class takes other paths.',
 anchors=dict(files=['include/maec/base_module.hpp', 'src/base_module.cpp', 'include/maec/audio_module.hpp', 'include/maec/source_module.hpp', 'src/module_mixer.cpp'],
  state=[dict(name='BaseModule::state_type', meaning='reported lifecycle state', where='include/maec/base_module.hpp')],
  mechanism=[dict(name='BaseModule::start/stop/finish/done', where='src/base_module.cpp'), dict(name='meta_start/meta_stop/meta_finish', where='include/maec/audio_module.hpp')]),
 technique='typestate: last state write before the own hook on every path of every final overrider, plus a writer scan of the class that owns the private field',
 level_note='sound for the analysed bodies; user code outside the repository can still call the base hooks'),
dict(id='C03', title='Finishing a module is reported to its chain exactly once',
 statement='The default answer to a finish request is exactly one completion report, made on every path. Each completion report adds exactly one to the finish count of the chain the module belongs to, and nothing else changes that count.',
 quantifier=dict(over=['programs', 'histories'], text='all module classes and every path through their finish and completion code'),
 why_tests_cant='No test compares the finish count of a chain with the number of modules in it for more than one or two classes.',
 anchors=dict(files=['include/maec/audio_module.hpp', 'src/base_module.cpp', 'src/envelope.cpp'],
  state=[dict(name='ChainInfo::module_finish', meaning='number of modules that reported completion', where='include/maec/base_module.hpp')],
  mechanism=[dict(name='BaseModule::done', where='src/base_module.cpp'), dict(name='AudioModule::finish', where='include/maec/audio_module.hpp')]),
 technique='path counting of completion reports and counter increments in final overriders; whole-program writer scan',
 level_note='sound for the analysed bodies; one class is a recorded known finding'),
dict(id='C04', title='Chain information reaches every module and counts each exactly once',
 statement='Synchronising a chain from its sink makes every module take its whole audio configuration (sample rate, buffer sizes, channels) and chain record from the module in front of it before its own upstream neighbours are synchronised, each exactly once. Sinks take every field from their own chain record and restart the module count, and every other module adds exactly one to it, so repeating the synchronisation gives the same count.',
 quantifier=dict(over=['programs', 'configurations', 'histories'], text='all module classes, chain shapes, configurations and repeated synchronisations'),
 why_tests_cant='Tests sync short linear chains once with default values; a field dropped for one class or a wrong count after a second sync is not sampled.',
 anchors=dict(files=['include/maec/audio_module.hpp', 'include/maec/sink_module.hpp', 'include/maec/base_module.hpp', 'src/module_mixer.cpp', 'src/io/alsa_module.cpp'],
  mechanism=[dict(name='AudioModule::info_sync/meta_info_sync', where='include/maec/audio_module.hpp'), dict(name='ModuleInfo::from_chain', where='include/maec/base_module.hpp'), dict(name='SinkModule::info_sync', where='include/maec/sink_module.hpp')]),
 technique='store/copy effect analysis (byte ranges of the configuration and where each comes from) and call-order rule over all paths of every final overrider',
 level_note='sound for the analysed bodies'),
dict(id='C05', title='Each processing step pulls upstream once and adopts the whole buffer',
 statement='Processing a module runs its upstream neighbour once, then takes that neighbour\'s buffer once with its samples, channel count and sample rate, and only then runs the module\'s own processing once. A source runs only its own processing, a mixer keeps one buffer per input from the current cycle only, and a sink with periods repeats the whole sequence exactly the configured number of times.',
 quantifier=dict(over=['programs', 'inputs', 'configurations'], text='all module classes, any input count, any period count, every path'),
 why_tests_cant='Tests look at sample values at the end of short chains with one channel; dropped metadata, stale buffers or double pulls need other shapes.',
 anchors=dict(files=['include/maec/audio_module.hpp', 'src/base_module.cpp', 'src/module_mixer.cpp', 'src/sink_module.cpp', 'src/source_module.cpp', 'include/maec/envelope.hpp', 'src/meta_audio.cpp'],
  mechanism=[dict(name='AudioModule::meta_process', where='include/maec/audio_module.hpp'), dict(name='BaseModule::set_buffer/get_buffer', where='src/base_module.cpp'), dict(name='ModuleMixDown::meta_process', where='src/module_mixer.cpp'), dict(name='PeriodSink::meta_process', where='src/sink_module.cpp')]),
 technique='call-sequence rule and byte-wise buffer adoption (dataflow of the value returned by the upstream accessor) over all paths, loop counts by scalar evolution',
 level_note='sound for the analysed bodies'),
dict(id='C06', title='Mixers combine every input and feed every output in full',
 statement='The down mixer outputs a freshly zeroed buffer of the configured size, channel count and sample rate in which every position holds the sum of the samples at that position of every input buffer, each added exactly once and never past the end of either buffer. Each consumer of the up mixer receives a complete copy (samples, channel count and sample rate) and leaves the mixer\'s own buffer intact for the others, and adding an output records it and gives the mixer a module to take its configuration from.',
 quantifier=dict(over=['inputs', 'configurations'], text='any number of inputs and outputs, any buffer sizes including unequal ones, any channel count'),
 why_tests_cant='Tests mix two constant inputs of equal size; unequal buffers, a skipped last sample or lost metadata do not show.',
 anchors=dict(files=['src/module_mixer.cpp', 'include/maec/module_mixer.hpp'],
  mechanism=[dict(name='ModuleMixDown::process', where='src/module_mixer.cpp'), dict(name='ModuleMixUp::get_buffer/forward', where='src/module_mixer.cpp')]),
 technique='loop-nest effect analysis (addresses and trip counts by scalar evolution) plus dataflow of the buffer that is adopted or returned',
 level_note='sound for the analysed bodies; floating-point rounding of the order of additions is ignored'),
dict(id='C07', title='Every parameter of a module lives and is configured with that module',
 statement='Starting or stopping a parameterised module starts or stops every one of its parameters exactly once. Synchronising it first takes its own configuration and then, for every parameter, makes this module the parameter\'s forward module, gives the parameter\'s chain this module\'s buffer size, channel count and sample rate, and only then synchronises the parameter\'s chain; reading a parameter runs its chain once and returns the buffer taken afterwards, and setting a constant links a new owned constant module that produces exactly that value.',
 quantifier=dict(over=['programs', 'configurations', 'histories'], text='every parameterised module class, any number of parameters, any parameter chains and configurations'),
 why_tests_cant='Tests exercise a single parameter of one or two classes with default configuration values.',
 anchors=dict(files=['include/maec/module_param.hpp', 'src/module_param.cpp'],
  mechanism=[dict(name='ParamModule/ParamSource/ParamSink meta_start/meta_stop/meta_info_sync', where='include/maec/module_param.hpp'), dict(name='ModuleParam::get/set_constant/conf_mod', where='src/module_param.cpp')]),
 technique='path enumeration with loop coverage by scalar evolution; store/call order rule on the parameter object',
 level_note='sound for the analysed bodies; null parameters are assumed absent'),
dict(id='C08', title='Linking two modules records the connection on both sides',
 statement='Linking a module makes it the backward module (or, for the down mixer, appends it once to the input list), tells it exactly once that this module is its forward module, and returns it; a module whose neighbour is fixed at compile time refuses dynamic links and changes nothing. The forward accessor returns what was last set, and every sink\'s chain record is the one stored inside that same sink, also after the sink is copied, moved or assigned.',
 quantifier=dict(over=['programs', 'histories'], text='all module classes, any linking order, copies and moves of sinks'),
 why_tests_cant='Tests link a few classes; a class that forgets one direction or shares the chain record of a copied sink needs another history.',
 anchors=dict(files=['include/maec/audio_module.hpp', 'include/maec/sink_module.hpp', 'src/module_mixer.cpp', 'include/maec/base_module.hpp'],
  mechanism=[dict(name='AudioModule::link/link_static', where='include/maec/audio_module.hpp'), dict(name='ModuleMixDown::link', where='src/module_mixer.cpp'), dict(name='SinkModule copy/move', where='include/maec/sink_module.hpp')]),
 technique='store and call effects of every final overrider on every path; points-to of the chain record after each constructor and assignment',
 level_note='sound for the analysed bodies'),
]
PROPS += [
dict(id='C09', title='Counters and latency meters measure every operation exactly once',
 statement='A counter adds one operation and all samples of the received buffer per processing step. A latency module reads the clock directly before and after running the module behind it, adds that time to its totals once, takes as latency the difference to the ideal duration of the buffer (its frames at its sample rate), reports averages over exactly the counted operations (zero when there are none), and a reset restarts every accumulator and the start time; no time value loses its upper bits.',
 quantifier=dict(over=['histories', 'inputs', 'configurations'], text='any sequence of operations and resets, any buffer size, channel count and rate'),
 why_tests_cant='Clock values differ on every run, so tests only check rough bounds for one buffer shape and never a reset in the middle.',
 anchors=dict(files=['src/meta_audio.cpp', 'include/maec/meta_audio.hpp', 'include/maec/chrono.hpp'],
  mechanism=[dict(name='Counter::process', where='src/meta_audio.cpp'), dict(name='LatencyModule::meta_process/reset', where='src/meta_audio.cpp'), dict(name='LatencyModule accessors', where='include/maec/meta_audio.hpp')]),
 technique='symbolic effect of every path on every field compared with the specified polynomials; call-adjacency rule for the clock reads; narrowing scan',
 level_note='sound for the analysed bodies; assumes buffers hold whole frames and counts fit 31 bits'),
dict(id='C10', title='Generators size their buffer from the configuration and fill all of it',
 statement='On every processing step a generating source (the constant source and the eight oscillators) sizes its buffer to the configured output size times the configured channels, gives it the configured channel count and sample rate before writing, and then writes every sample position exactly once and nothing outside. The constant source writes its value everywhere, and the buffer source hands out a complete copy (samples, channels and sample rate) of the buffer it repeats and leaves that buffer untouched.',
 quantifier=dict(over=['configurations', 'histories'], text='any buffer size, channel count and sample rate, any number of steps'),
 why_tests_cant='Tests use one buffer size and mostly one channel; stale sizes, a missed tail or a skipped channel need other configurations.',
 anchors=dict(files=['src/fund_oscillator.cpp', 'src/meta_audio.cpp', 'src/base_module.cpp', 'include/maec/dsp/buffer.hpp'],
  mechanism=[dict(name='process of ConstModule, BufferModule', where='src/meta_audio.cpp'), dict(name='process of the oscillators', where='src/fund_oscillator.cpp'), dict(name='BaseModule::reserve', where='include/maec/base_module.hpp')]),
 technique='loop-nest coverage: addresses and trip counts by scalar evolution against the allocated size, allocation effects on every path',
 level_note='sound for the analysed bodies'),
dict(id='C11', title='The uniform buffer re-blocks upstream samples without loss or repetition',
 statement='Whatever sizes the buffers behind it have, the uniform buffer outputs buffers of exactly the configured size (all channels), containing the upstream samples in order with none dropped, repeated or reordered, also across processing steps. It pulls the module behind it only when the samples it holds are used up, and a step ends early only when a freshly pulled buffer is empty.',
 quantifier=dict(over=['inputs', 'histories', 'configurations'], text='any sequence of upstream buffer sizes, any output size and channel count'),
 why_tests_cant='Tests use two or three size combinations; off-by-one at other size ratios or across several steps is not sampled.',
 anchors=dict(files=['src/meta_audio.cpp', 'include/maec/meta_audio.hpp'],
  state=[dict(name='UniformBuffer::index/iindex/ibuff', meaning='write position, read position, held upstream buffer', where='include/maec/meta_audio.hpp')],
  mechanism=[dict(name='UniformBuffer::process', where='src/meta_audio.cpp')]),
 technique='one symbolic iteration per loop path (transition relation of write and read index), copy address and length rule, exit-condition rule',
 level_note='sound for the analysed body; assumes the write index is only used by it'),
dict(id='E01', title='The chain timer converts between sample positions and time exactly',
 statement='Setting a sample rate makes one frame last 10^9 divided by the rate nanoseconds, and the time of a position is the number of whole frames (samples divided by channels) times the frame duration, for the stored position and for given sample and channel counts alike. Setting, adding to and incrementing the position change exactly that, resetting returns to position zero with one channel, the clock is the monotonic one in nanoseconds, and no time value is computed in fewer than 64 bits.',
 quantifier=dict(over=['inputs', 'histories'], text='any rate, channel count, position and sequence of operations'),
 why_tests_cant='Tests check a few small positions; overflow of long positions and wrong order of operations need large ones.',
 anchors=dict(files=['include/maec/chrono.hpp', 'src/chrono.cpp'], mechanism=[dict(name='ChainTimer', where='include/maec/chrono.hpp'), dict(name='get_time', where='src/chrono.cpp')]),
 technique='symbolic value of every accessor and mutator on every path compared with the specification; narrowing scan',
 level_note='sound for the analysed bodies'),
dict(id='E03', title='Oscillators produce the specified waveform with continuous phase',
 statement='Every sample an oscillator writes is its waveform at the current cycle position (frequency times phase divided by the sample rate, or the phase itself when modulated): the sine of two pi times it; 1 in the first half cycle and -1 in the second for square; rising from 0 to 1, dropping to -1 at the half and rising back to 0 for sawtooth; 0, 1, -1, 0 in straight lines at quarter, three quarters and end for triangle. After each sample the phase advances by exactly one, or by this sample\'s frequency value divided by the sample rate when modulated, and it carries over between buffers.',
 quantifier=dict(over=['inputs', 'histories', 'configurations'], text='all frequencies, rates, phases, modulation signals, buffer sizes and any number of buffers'),
 why_tests_cant='Tests compare a few hundred samples at one frequency and rate; breakpoints, later buffers and varying modulation are not reached.',
 anchors=dict(files=['src/fund_oscillator.cpp', 'include/maec/base_oscillator.hpp'],
  state=[dict(name='phase', meaning='position of the next sample', where='include/maec/base_oscillator.hpp')],
  mechanism=[dict(name='process of the eight oscillators', where='src/fund_oscillator.cpp')]),
 technique='one symbolic iteration: phase recurrence in exact rational arithmetic; waveform as canonical piecewise affine function of the cycle fraction',
 level_note='decides the real-arithmetic function; rounding and negative phases are out of scope'),
]
PROPS += [
dict(id='C12', title='A setting reads back as it was set and disturbs no other setting',
 statement='Whatever value a setting of a module, envelope, oscillator, filter, timer, stream, wave file, buffer or information record is given, through its setter or through the constructor parameter for it, reading the setting returns exactly that value, and every other independent setting of the object reads as before or, after construction, as in a default constructed object. Information given to a module or made from a chain record carries every field over, increments add exactly their amount, and a frequency in hertz is the stored fraction times the sample rate',
 quantifier=dict(over=['inputs', 'histories'], text='all values of all settings of the listed classes, every prior state of the object, all pairs of settings'),
 why_tests_cant='Tests set each setting to one value and rarely look at the others; a swapped parameter, a narrowed value or a setter that also moves its neighbour shows only with other values or pairs.',
 anchors=dict(files=['include/maec', 'src'], mechanism=[dict(name='setters, getters and constructors', where='include/maec')]),
 technique='generated set-then-read and construct-then-read witnesses for all pairs, normalised by the compiler with the library; the returned value must be the argument or the unmodified read',
 level_note='the classes and their settings are a table in the check; values of class type (text, buffers, devices) are not compared'),
]
