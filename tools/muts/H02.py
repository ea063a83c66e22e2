MUTS=[
('bug','no definition',[('src/dsp/window.cpp','double dsp::win::window_rectangle(int','double dsp::win::window_rect(int')]),
('bug','declared only',[('include/maec/chrono.hpp','int64_t get_time();','int64_t get_time();\nint64_t get_wall_time();')]),
('bug','method declared only',[('include/maec/chrono.hpp','    void reset();','    void reset();\n    void rewind();')]),
('bug','odr constant',[('include/maec/io/wav.hpp','    static constexpr uint32_t csize = 4 + 4;','    static const uint32_t csize = 4 + 4;')]),
('bug','template body',[('include/maec/dsp/buffer.hpp','''    std::size_t size() const { return this->buff.size(); }''','''    std::size_t size() const { return this->buff->size(); }''')]),
('bug','private ctor',[('include/maec/io/alsa_module.hpp','class ALSASink : public ALSABase, public PeriodSink {','class ALSASink : public ALSABase, public PeriodSink {\nprivate:\n    ALSASink() = default;\n')]),
('bug','abstract',[('include/maec/source_module.hpp','class SourceModule : public AudioModule<> {','class SourceModule : public AudioModule<> {\npublic:\n    virtual bool seekable() = 0;\n')]),
('bug','duplicate',[('src/chrono.cpp','void ChainTimer::reset()','int maec_version() { return 1; }\nvoid ChainTimer::reset()'),('src/utils.cpp','#include "utils.hpp"','#include "utils.hpp"\nint maec_version() { return 1; }\n')]),
('bug','used not defined',[('src/chrono.cpp','void ChainTimer::reset()','int maec_clock();\nint maec_x() { return maec_clock(); }\nvoid ChainTimer::reset()')]),
('bug','inline in source',[('src/chrono.cpp','int64_t get_time() {','inline int64_t get_time() {')]),
('same','defined in header',[('src/chrono.cpp','''    this->channels = 1;
    this->sample = 0;''','''    this->channels = 1;
    this->sample = 0;
    helper();'''),('src/chrono.cpp','void ChainTimer::reset()','static void helper() {}\nvoid ChainTimer::reset()')]),
('same','new pure base',[('include/maec/chrono.hpp','int64_t get_time();','int64_t get_time();\nstruct Clock { virtual ~Clock() = default; virtual int64_t now() = 0; };')]),
('same','new deleted',[('include/maec/chrono.hpp','    void reset();','    void reset();\n    void rewind() = delete;')]),
('same','new template',[('include/maec/chrono.hpp','int64_t get_time();','int64_t get_time();\ntemplate <class T> T to_ms(T t) { return t / 1000000; }')]),
]
