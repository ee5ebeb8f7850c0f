#include "h_base.hpp"
#include <bnl/http3/codec/body.hpp>
#include <bnl/http3/codec/headers.hpp>
#include <bnl/http3/codec/qpack.hpp>

namespace hs = http3::headers;
namespace bd = http3::body;
using http3::header;
using http3::header_view;
typedef base::string_view sv;

VH size_t vh_sizeof_henc() { return sizeof(hs::encoder); }
VH size_t vh_sizeof_hdec() { return sizeof(hs::decoder); }
VH size_t vh_sizeof_benc() { return sizeof(bd::encoder); }
VH size_t vh_sizeof_bdec() { return sizeof(bd::decoder); }

VH void vh_henc_make(hs::encoder *e) { new (e) hs::encoder(); }
VH void vh_henc_move(hs::encoder *e, hs::encoder *o) { new (e) hs::encoder(std::move(*o)); }
VH void vh_henc_assign(hs::encoder *e, hs::encoder *o) { *e = std::move(*o); }
VH void vh_henc_destroy(hs::encoder *e) { e->~encoder(); }
VH bool vh_henc_add(hs::encoder *e, const char *n, size_t nn, const char *v, size_t vn, uint64_t *err)
{
  auto r = e->add(header_view(sv(n, nn), sv(v, vn)));
  return vh_ok(r, err);
}
VH bool vh_henc_fin(hs::encoder *e, uint64_t *err)
{
  auto r = e->fin();
  return vh_ok(r, err);
}
VH bool vh_henc_finished(const hs::encoder *e) { return e->finished(); }
VH bool vh_henc_encode(hs::encoder *e, buffer *out, uint64_t *err)
{
  auto r = e->encode();
  return vh_ok(r, err) && (new (out) buffer(std::move(r).value()), true);
}

VH void vh_benc_make(bd::encoder *e) { new (e) bd::encoder(); }
VH void vh_benc_move(bd::encoder *e, bd::encoder *o) { new (e) bd::encoder(std::move(*o)); }
VH void vh_benc_assign(bd::encoder *e, bd::encoder *o) { *e = std::move(*o); }
VH bool vh_benc_add(bd::encoder *e, buffer *b, uint64_t *err)
{
  auto r = e->add(std::move(*b));
  return vh_ok(r, err);
}
VH bool vh_benc_fin(bd::encoder *e, uint64_t *err)
{
  auto r = e->fin();
  return vh_ok(r, err);
}
VH bool vh_benc_finished(const bd::encoder *e) { return e->finished(); }
VH bool vh_benc_encode(bd::encoder *e, buffer *out, uint64_t *err)
{
  auto r = e->encode();
  return vh_ok(r, err) && (new (out) buffer(std::move(r).value()), true);
}

VH void vh_hdec_make(hs::decoder *d) { new (d) hs::decoder(); }
VH void vh_hdec_move(hs::decoder *e, hs::decoder *o) { new (e) hs::decoder(std::move(*o)); }
VH bool vh_hdec_started(const hs::decoder *d) { return d->started(); }
VH bool vh_hdec_finished(const hs::decoder *d) { return d->finished(); }
VH void vh_bdec_make(bd::decoder *d) { new (d) bd::decoder(); }
VH void vh_bdec_move(bd::decoder *e, bd::decoder *o) { new (e) bd::decoder(std::move(*o)); }
VH bool vh_bdec_in_progress(const bd::decoder *d) { return d->in_progress(); }
#define DEC(K)                                                                              \
  VH bool vh_hdec_decode_##K(hs::decoder *d, K *s, header *out, uint64_t *err)              \
  {                                                                                         \
    auto r = d->decode(*s);                                                                 \
    return vh_ok(r, err) && (new (out) header(std::move(r).value()), true);                 \
  }                                                                                         \
  VH bool vh_bdec_decode_##K(bd::decoder *d, K *s, buffer *out, uint64_t *err)              \
  {                                                                                         \
    auto r = d->decode(*s);                                                                 \
    return vh_ok(r, err) && (new (out) buffer(std::move(r).value()), true);                 \
  }
DEC(buffer) DEC(buffers)

// what callee contracts return
VH void vh_mk_result_buffer(http3::result<buffer> *r, buffer *b) { new (r) http3::result<buffer>(std::move(*b)); }
VH void vh_mk_result_buffer_err(http3::result<buffer> *r, uint64_t err)
{
  new (r) http3::result<buffer>(static_cast<http3::error>(err));
}
VH const char *vh_hview_name_data(const header_view *h) { return h->name().data(); }
VH const char *vh_hview_value_data(const header_view *h) { return h->value().data(); }
