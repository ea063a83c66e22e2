// Uses of the ALSA components; nothing here is ever executed.
#include "io/alsa_module.hpp"
#include <new>
#define C extern "C"
C void wit_al_ctor(void *p) { new (p) ALSASink(); }
C void wit_al_start(ALSASink &a) { a.ALSASink::start(); }
C void wit_al_stop(ALSASink &a) { a.ALSASink::stop(); }
C void wit_al_process(ALSASink &a) { a.ALSASink::process(); }
C int wit_al_count(ALSASink &a) { return a.get_device_count(); }
C void wit_al_by_id(ALSASink &a, int i, void *r) { new (r) DeviceInfo(a.get_device_by_id(i)); }
C void wit_al_by_name(ALSASink &a, const std::string &n, void *r) { new (r) DeviceInfo(a.get_device_by_name(n)); }
C void wit_al_device(ALSASink &a, unsigned channels, unsigned rate) { a.device.channels = channels; a.device.sample_rate = rate; }
C void wit_al_in(ALSASink &a, AudioBuffer &b) { a.set_buffer(std::move(b)); }
C int wit_di_id(const DeviceInfo &d) { return d.id; }
C bool wit_di_fail(const DeviceInfo &d) { return d.load_fail; }
C bool wit_di_in(const DeviceInfo &d) { return d.input; }
C bool wit_di_out(const DeviceInfo &d) { return d.output; }
C void wit_di_ctor(void *p) { new (p) DeviceInfo(); }
C void wit_di_update(DeviceInfo &d) { d.update(); }
C void wit_di_create(DeviceInfo &d, void **h, int id) { d.create_device(h, id); }
C void wit_B_ctor(void *p, int n, int c) { new (p) AudioBuffer(n, c); }
C double *wit_B_data(AudioBuffer &b) { return &b.at(0); }
C const void *wit_di_name(const DeviceInfo &d) { return &d.name; }
C const void *wit_di_descr(const DeviceInfo &d) { return &d.description; }
C void *wit_al_dev(ALSASink &a) { return &a.device; }
