// Instantiations of the stream interface; nothing here is ever executed.
#include "io/mstream.hpp"
#include <new>
#include <string>
extern "C" {
void wit_mi_start(BaseMIStream *s) { s->BaseMIStream::start(); }
void wit_mi_stop(BaseMIStream *s) { s->BaseMIStream::stop(); }
bool wit_mi_good(BaseMIStream *s) { return s->good(); }
bool wit_mi_bad(BaseMIStream *s) { return s->bad(); }
int wit_mi_state(BaseMIStream *s) { return s->get_state(); }
void wit_mi_set(BaseMIStream *s, int v) { s->set_state(static_cast<BaseMIStream::mstate>(v)); }
void wit_mo_start(BaseMOStream *s) { s->BaseMOStream::start(); }
void wit_mo_stop(BaseMOStream *s) { s->BaseMOStream::stop(); }
bool wit_mo_good(BaseMOStream *s) { return s->good(); }
bool wit_mo_bad(BaseMOStream *s) { return s->bad(); }
int wit_mo_state(BaseMOStream *s) { return s->get_state(); }
void wit_mo_set(BaseMOStream *s, int v) { s->set_state(static_cast<BaseMOStream::mstate>(v)); }
void wit_ci_ctor(void *p) { new (p) CharIStream; }
void wit_ci_ctor_n(void *p, int n) { new (p) CharIStream(n); }
void wit_co_ctor(void *p) { new (p) CharOStream; }
void wit_co_ctor_n(void *p, int n) { new (p) CharOStream(n); }
const void *wit_ci_arr(CharIStream *p) { return &p->get_array(); }
const void *wit_co_arr(CharOStream *p) { return &p->get_array(); }
void wit_fi_set_path(FIStream *p, const std::string &s) { p->set_path(s); }
void wit_fo_set_path(FOStream *p, const std::string &s) { p->set_path(s); }
void wit_fi_get_path(FIStream *p, std::string *s) { new (s) std::string(p->get_path()); }
void wit_fo_get_path(FOStream *p, std::string *s) { new (s) std::string(p->get_path()); }
bool wit_fi_eof(FIStream *p) { return p->eof(); }
bool wit_fo_eof(FOStream *p) { return p->eof(); }
void wit_fi_seek(FIStream *p, int n) { p->seek(n); }
void wit_fo_seek(FOStream *p, int n) { p->seek(n); }
void wit_ci_seek(CharIStream *p, int n) { p->seek(n); }
void wit_co_seek(CharOStream *p, int n) { p->seek(n); }
}
