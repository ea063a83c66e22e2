T='include/maec/chrono.hpp'; C='src/chrono.cpp'
MUTS=[
('bug','add-set',[(T,'this->sample += val;','this->sample = val;')]),
('bug','order',[(T,'return static_cast<int64_t>((this->sample / this->channels) *\n                                    this->nano_frame);','return static_cast<int64_t>(this->sample * this->nano_frame / this->channels);')]),
('bug','narrow',[(T,'return static_cast<int64_t>(sample) * this->nano_frame;','return static_cast<int64_t>(sample * static_cast<int>(this->nano_frame));')]),
('bug','sysclock',[(C,'std::chrono::steady_clock::now()','std::chrono::system_clock::now()')]),
('bug','micro',[(C,'std::chrono::nanoseconds>','std::chrono::microseconds>')]),
('bug','rate-ch',[(T,'this->nano_frame = NANO / samplerate;','this->nano_frame = NANO / (samplerate * this->channels);')]),
('same','assign',[(T,'++(this->sample);','this->sample += 1;')]),
('same','via',[(T,'return static_cast<int64_t>((this->sample / this->channels) *\n                                    this->nano_frame);','return this->get_time(this->sample, this->channels);')]),
('same','now',[(C,'return std::chrono::time_point_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now()).time_since_epoch().count();','const auto now = std::chrono::steady_clock::now();\n return std::chrono::duration_cast<std::chrono::nanoseconds>(now.time_since_epoch()).count();')]),
]
