M='include/maec/meta_audio.hpp'; C='include/maec/chrono.hpp'; D='include/maec/dsp/const.hpp'; B='include/maec/base_module.hpp'; I='include/maec/dsp/iir.hpp'; U='include/maec/utils.hpp'
MUTS=[
('bug','no guard',[(C,'#pragma once','')]),
('bug','strong fn',[(I,'inline double freq_map','double freq_map')]),
('bug','strong fn 2',[(C,'int64_t get_time();','int64_t get_time();\n\nint64_t get_time_ms() { return get_time() / 1000000; }')]),
('bug','strong var',[(C,'int64_t get_time();','int64_t get_time();\n\nint64_t time_offset = 0;')]),
('bug','own state',[(C,'int64_t get_time();','int64_t get_time();\n\nstatic int64_t time_offset = 0;')]),
('bug','layout',[(B,'    ChainInfo* chain = nullptr;','    ChainInfo* chain = nullptr;\n#ifndef NDEBUG\n    int debug_calls = 0;\n#endif')]),
('bug','missing include',[('include/maec/meta_audio.hpp','#include "chrono.hpp"','')]),
('bug','order',[('include/maec/utils.hpp','#pragma once','#pragma once\n#ifdef MAEC_TIME\n#error order\n#endif'),(C,'#pragma once','#pragma once\n#define MAEC_TIME')]),
('bug','only with alsa',[('include/maec/sink_module.hpp','#pragma once','#pragma once\n#ifndef ALSA_F\n#error no sound\n#endif')]),
('same','inline fn',[(C,'int64_t get_time();','int64_t get_time();\n\ninline int64_t get_time_ms() { return get_time() / 1000000; }')]),
('same','inline var',[(C,'int64_t get_time();','int64_t get_time();\n\ninline int64_t time_offset = 0;')]),
('same','constants',[(C,'int64_t get_time();','int64_t get_time();\n\nstatic constexpr int64_t MS = 1000000;\nconst int64_t US = 1000;\nstatic const char* const UNIT = "ns";')]),
('same','static helper',[(C,'int64_t get_time();','int64_t get_time();\n\nstatic inline int64_t get_ms() { return get_time() / 1000000; }')]),
('same','ifndef guard',[(C,'#pragma once','#ifndef MAEC_CHRONO\n#define MAEC_CHRONO'),(C,'    int get_sample() const { return this->sample; }\n};','    int get_sample() const { return this->sample; }\n};\n#endif')]),
('same','anonymous namespace constant',[(C,'int64_t get_time();','namespace {\nconstexpr int64_t MS = 1000000;\n}\nint64_t get_time();')]),
]
