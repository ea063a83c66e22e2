// Instantiations of the wave and byte-order interface; nothing here is ever executed.
#include "io/wav.hpp"
#include <new>
#include <vector>
extern "C" {
int16_t wit_char_int16(char *p) { return char_int16(p); }
int32_t wit_char_int32(char *p) { return char_int32(p); }
uint32_t wit_char_uint32(char *p) { return char_uint32(p); }
int16_t wit_it_int16(std::vector<char>::iterator p) { return char_int16(p); }
int32_t wit_it_int32(std::vector<char>::iterator p) { return char_int32(p); }
uint32_t wit_it_uint32(std::vector<char>::iterator p) { return char_uint32(p); }
int16_t wit_u_int16(unsigned char *p) { return char_int16(p); }
int32_t wit_u_int32(unsigned char *p) { return char_int32(p); }
uint32_t wit_u_uint32(unsigned char *p) { return char_uint32(p); }
void wit_int16_char(int16_t v, char *p) { int16_char(v, p); }
void wit_int32_char(int32_t v, char *p) { int32_char(v, p); }
void wit_uint32_char(uint32_t v, char *p) { uint32_char(v, p); }
void wit_int16_it(int16_t v, std::vector<char>::iterator p) { int16_char(v, p); }
void wit_int32_it(int32_t v, std::vector<char>::iterator p) { int32_char(v, p); }
void wit_uint32_it(uint32_t v, std::vector<char>::iterator p) { uint32_char(v, p); }
void wit_int16_u(int16_t v, unsigned char *p) { int16_char(v, p); }
void wit_int32_u(int32_t v, unsigned char *p) { int32_char(v, p); }
void wit_uint32_u(uint32_t v, unsigned char *p) { uint32_char(v, p); }
void wit_chunk_ctor(void *p) { new (p) ChunkHeader; }
void wit_whead_ctor(void *p) { new (p) WavHeader; }
void wit_wform_ctor(void *p) { new (p) WavFormat; }
void wit_unk_ctor(void *p, uint32_t n) { new (p) UnknownChunk(n); }
uint32_t wit_chunk_size() { return ChunkHeader::size(); }
uint32_t wit_whead_size() { return WavHeader::size(); }
uint32_t wit_wform_size() { return WavFormat::size(); }
uint32_t wit_unk_size(const UnknownChunk *c) { return c->size(); }
}
#define SETTER(n) extern "C" void wit_bw_set_##n(BaseWave *w, int v) { w->set_##n(v); } extern "C" int wit_bw_get_##n(const BaseWave *w) { return w->get_##n(); }
SETTER(format) SETTER(channels) SETTER(samplerate) SETTER(byterate) SETTER(blockalign) SETTER(bits_per_sample) SETTER(bytes_per_sample) SETTER(size)
extern "C" void wit_bw_ctor(void *p) { new (p) BaseWave; }
extern "C" bool wit_wr_done(const WaveReader *w) { return w->done(); }
