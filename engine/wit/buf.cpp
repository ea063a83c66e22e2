// Instantiations of the buffers and their iterators; nothing here is ever executed.
#include "dsp/buffer.hpp"
#include <new>
using B = dsp::buff::Buffer<double>;
using S = dsp::buff::StaticBuffer<double, 12>;
using R = dsp::buff::RingBuffer<double>;
struct Out { int idx; int pad; const double *ptr; long ch, smp; };
#define OUT(i) o->idx = (i).get_index(); o->ptr = &*(i); o->ch = (i).get_channel(); o->smp = (i).get_sample();
#define C extern "C"
#define OP(X, T, N, beg, name, body) C void wit_##X##_##N##_##name(T &b, int k, int n, Out *o) { auto i = b.beg(); i.set_index(k); body }
#define ITER(X, T, N, beg) \
OP(X, T, N, beg, at, OUT(i) (void)n;) \
OP(X, T, N, beg, preinc, auto &r = ++i; OUT(r) (void)n;) \
OP(X, T, N, beg, predec, auto &r = --i; OUT(r) (void)n;) \
OP(X, T, N, beg, postinc, i++; OUT(i) (void)n;) \
OP(X, T, N, beg, postincv, auto r = i++; OUT(r) (void)n;) \
OP(X, T, N, beg, postdec, i--; OUT(i) (void)n;) \
OP(X, T, N, beg, postdecv, auto r = i--; OUT(r) (void)n;) \
OP(X, T, N, beg, addeq, i += n; OUT(i)) \
OP(X, T, N, beg, addequ, i += (unsigned)n; OUT(i)) \
OP(X, T, N, beg, addequl, i += (unsigned long)n; OUT(i)) \
OP(X, T, N, beg, addeql, i += (int64_t)n; OUT(i)) \
OP(X, T, N, beg, subeq, i -= n; OUT(i)) \
OP(X, T, N, beg, add, auto r = i + n; OUT(r)) \
OP(X, T, N, beg, addu, auto r = i + (unsigned)n; OUT(r)) \
OP(X, T, N, beg, addul, auto r = i + (unsigned long)n; OUT(r)) \
OP(X, T, N, beg, addl, auto r = i + (int64_t)n; OUT(r)) \
OP(X, T, N, beg, minus, auto r = i - n; OUT(r)) \
OP(X, T, N, beg, addi, auto j = i; j.set_index(n); auto r = i + j; OUT(r)) \
OP(X, T, N, beg, pos, i.set_position(k, n); OUT(i)) \
OP(X, T, N, beg, base, o->ptr = i.base(); o->idx = static_cast<int>(i); (void)n;) \
OP(X, T, N, beg, diff, auto j = i; j.set_index(n); o->idx = static_cast<int>(i - j);) \
OP(X, T, N, beg, cmp, auto j = i; j.set_index(n); o->idx = (i == j) | (i != j) << 1 | (i < j) << 2 | (i > j) << 3 | (i <= j) << 4 | (i >= j) << 5;)
#define ADDR(X, T) \
C double *wit_##X##_at2(T &b, int c, int s) { return &b.at(c, s); } \
C const double *wit_##X##_cat2(const T &b, int c, int s) { return &b.at(c, s); } \
C double *wit_##X##_at1(T &b, int i) { return &b.at(i); } \
C const double *wit_##X##_cat1(const T &b, int i) { return &b.at(i); } \
C unsigned long wit_##X##_size(const T &b) { return b.size(); } \
C unsigned long wit_##X##_cap(const T &b) { return b.channel_capacity(); } \
C unsigned long wit_##X##_channels(const T &b) { return b.channels(); } \
C double wit_##X##_rate(const T &b) { return b.get_samplerate(); } \
C void wit_##X##_set_channels(T &b, unsigned long c) { b.set_channels(c); } \
C void wit_##X##_set_rate(T &b, double r) { b.set_samplerate(r); } \
C int wit_##X##_sbegin(T &b) { return b.sbegin().get_index(); } \
C int wit_##X##_send(T &b) { return b.send().get_index(); } \
C int wit_##X##_ibegin(T &b) { return b.ibegin().get_index(); } \
C int wit_##X##_iend(T &b) { return b.iend().get_index(); } \
C int wit_##X##_begin(T &b) { return b.begin().get_index(); } \
C int wit_##X##_end(T &b) { return b.end().get_index(); } \
C int wit_##X##_scbegin(const T &b) { return b.scbegin().get_index(); } \
C int wit_##X##_scend(const T &b) { return b.scend().get_index(); } \
C int wit_##X##_icbegin(const T &b) { return b.icbegin().get_index(); } \
C int wit_##X##_icend(const T &b) { return b.icend().get_index(); } \
C int wit_##X##_srbegin(T &b) { return b.srbegin().base().get_index(); } \
C int wit_##X##_srend(T &b) { return b.srend().base().get_index(); } \
C int wit_##X##_irbegin(T &b) { return b.irbegin().base().get_index(); } \
C int wit_##X##_irend(T &b) { return b.irend().base().get_index(); } \
ITER(X, T, s, sbegin) \
C double *wit_##X##_s_sub(T &b, int k, int n) { auto i = b.sbegin(); i.set_index(k); return &i[n]; } \
C double *wit_##X##_s_csub(T &b, int k, int n) { auto i = b.sbegin(); i.set_index(k); const auto j = i; return &j[n]; } \
C void wit_##X##_s_setch(T &b, int k, int n, Out *o) { auto i = b.sbegin(); i.set_index(n); i.set_channel(k); OUT(i) } \
ITER(X, T, i, ibegin) \
C double *wit_##X##_i_sub(T &b, int k, int n) { auto i = b.ibegin(); i.set_index(k); return &i[n]; } \
C double *wit_##X##_i_csub(T &b, int k, int n) { auto i = b.ibegin(); i.set_index(k); const auto j = i; return &j[n]; } \
C void wit_##X##_i_setsm(T &b, int k, int n, Out *o) { auto i = b.ibegin(); i.set_index(n); i.set_sample(k); OUT(i) } \
ITER(X, const T, sc, scbegin) \
C const double *wit_##X##_sc_sub(const T &b, int k, int n) { auto i = b.scbegin(); i.set_index(k); return &i[n]; } \
C const double *wit_##X##_sc_csub(const T &b, int k, int n) { auto i = b.scbegin(); i.set_index(k); const auto j = i; return &j[n]; } \
C void wit_##X##_sc_setch(const T &b, int k, int n, Out *o) { auto i = b.scbegin(); i.set_index(n); i.set_channel(k); OUT(i) } \
ITER(X, const T, ic, icbegin) \
C const double *wit_##X##_ic_sub(const T &b, int k, int n) { auto i = b.icbegin(); i.set_index(k); return &i[n]; } \
C const double *wit_##X##_ic_csub(const T &b, int k, int n) { auto i = b.icbegin(); i.set_index(k); const auto j = i; return &j[n]; } \
C void wit_##X##_ic_setsm(const T &b, int k, int n, Out *o) { auto i = b.icbegin(); i.set_index(n); i.set_sample(k); OUT(i) }
ADDR(B, B)
ADDR(S, S)
C double *wit_R_at(R &b, int i) { return &b[i]; }
C double *wit_R_it(R &b, int i) { auto j = b.begin(); j.set_index(i); return &*j; }
C double *wit_R_inc(R &b, int i) { auto j = b.begin(); j.set_index(i); ++j; return &*j; }
C double *wit_R_dec(R &b, int i) { auto j = b.begin(); j.set_index(i); --j; return &*j; }
C double *wit_R_sub(R &b, int i) { auto j = b.begin(); return &j[i]; }
C int wit_R_begin(R &b) { return b.begin().get_index(); }
C int wit_R_end(R &b) { return b.end().get_index(); }
C unsigned long wit_R_size(const R &b) { return b.size(); }
C void wit_R_ctor(void *p, unsigned long n) { new (p) R(n); }
C void wit_R_ctorv(void *p, const std::vector<double> &v) { new (p) R(v); }
C void wit_R_resize(R &b, unsigned long n) { b.resize(n); }
C void wit_B_ctor(void *p, int n, int c, double r) { new (p) B(n, c, r); }
C void wit_B_ctoru(void *p, unsigned long n, int c, double r) { new (p) B(n, c, r); }
C void wit_B_ctorv(void *p, const std::vector<double> &v, int c, double r) { new (p) B(v, c, r); }
C void wit_B_ctorit(void *p, const double *b, const double *e, int c, double r) { new (p) B(b, e, c, r); }
C void wit_B_ctoril(void *p, std::initializer_list<double> l, int c, double r) { new (p) B(l, c, r); }
C void wit_B_ctord(void *p) { new (p) B(); }
C void wit_B_copy(void *p, const B &b) { new (p) B(b); }
C void wit_B_move(void *p, B &b) { new (p) B(std::move(b)); }
C void wit_B_assign(B &a, const B &b) { a = b; }
C void wit_B_massign(B &a, B &b) { a = std::move(b); }
C void wit_B_vassign(B &a, const std::vector<double> &v) { a = v; }
C void wit_B_vmassign(B &a, std::vector<double> &v) { a = std::move(v); }
C void wit_B_resize(B &a, int n) { a.resize(n); }
C void wit_B_reserve(B &a, unsigned long n) { a.reserve(n); }
C void wit_B_push(B &a, const double &v) { a.push_back(v); }
C void wit_B_clear(B &a) { a.clear(); }
C void wit_B_shrink(B &a) { a.shrink(); }
C void wit_S_ctor(void *p, int c, double r) { new (p) S(c, r); }
