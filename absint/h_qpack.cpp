#include "h_base.hpp"
#include <bnl/http3/codec/qpack.hpp>
#include <bnl/http3/header.hpp>

namespace qpack = http3::qpack;
using http3::header;
using http3::header_view;
typedef base::string_view sv;

VH size_t vh_sizeof_qenc() { return sizeof(qpack::encoder); }
VH size_t vh_sizeof_qdec() { return sizeof(qpack::decoder); }
VH size_t vh_sizeof_header() { return sizeof(header); }

VH void vh_qenc_make(qpack::encoder *e) { new (e) qpack::encoder(); }
VH void vh_qenc_move(qpack::encoder *e, qpack::encoder *o) { new (e) qpack::encoder(std::move(*o)); }
VH uint64_t vh_qenc_count(const qpack::encoder *e) { return e->count(); }
VH bool vh_qenc_encoded_size(const qpack::encoder *e, const char *n, size_t nn, const char *v, size_t vn, size_t *out, uint64_t *err)
{
  auto r = e->encoded_size(header_view(sv(n, nn), sv(v, vn)));
  return vh_ok(r, err) && ((*out = r.value()), true);
}
VH bool vh_qenc_encode_raw(qpack::encoder *e, uint8_t *dest, const char *n, size_t nn, const char *v, size_t vn, size_t *out, uint64_t *err)
{
  auto r = e->encode(dest, header_view(sv(n, nn), sv(v, vn)));
  return vh_ok(r, err) && ((*out = r.value()), true);
}
VH bool vh_qenc_encode_buf(qpack::encoder *e, buffer *b, const char *n, size_t nn, const char *v, size_t vn, uint64_t *err)
{
  auto r = e->encode(header_view(sv(n, nn), sv(v, vn)));
  return vh_ok(r, err) && (new (b) buffer(std::move(r).value()), true);
}
VH void vh_qdec_make(qpack::decoder *e) { new (e) qpack::decoder(); }
VH uint64_t vh_qdec_count(const qpack::decoder *e) { return e->count(); }
#define DEC(K)                                                                              \
  VH bool vh_qdec_decode_##K(qpack::decoder *d, K *s, header *out, uint64_t *err)           \
  {                                                                                         \
    auto r = d->decode(*s);                                                                 \
    return vh_ok(r, err) && (new (out) header(std::move(r).value()), true);                 \
  }
DEC(buffer) DEC(buffers)

VH void vh_header_make(header *h, base::string *n, base::string *v) { new (h) header(std::move(*n), std::move(*v)); }
VH const char *vh_header_name_data(const header *h) { return h->name().data(); }
VH size_t vh_header_name_size(const header *h) { return h->name().size(); }
VH const char *vh_header_value_data(const header *h) { return h->value().data(); }
VH size_t vh_header_value_size(const header *h) { return h->value().size(); }
VH bool vh_header_lower(const char *n, size_t nn, const char *v, size_t vn)
{
  return http3::header_is_lowercase(header_view(sv(n, nn), sv(v, vn)));
}
VH bool vh_header_eq(const char *n, size_t nn, const char *v, size_t vn, const char *n2, size_t nn2, const char *v2, size_t vn2)
{
  return header_view(sv(n, nn), sv(v, vn)) == header_view(sv(n2, nn2), sv(v2, vn2));
}
VH bool vh_header_ne(const char *n, size_t nn, const char *v, size_t vn, const char *n2, size_t nn2, const char *v2, size_t vn2)
{
  return header_view(sv(n, nn), sv(v, vn)) != header_view(sv(n2, nn2), sv(v2, vn2));
}

// results as a callee contract would return them
VH void vh_mk_result_string(http3::result<base::string> *r, base::string *s)
{
  new (r) http3::result<base::string>(std::move(*s));
}
VH void vh_mk_result_string_err(http3::result<base::string> *r, uint64_t err)
{
  new (r) http3::result<base::string>(static_cast<http3::error>(err));
}
VH void vh_mk_result_header(http3::result<header> *r, header *h)
{
  new (r) http3::result<header>(std::move(*h));
}
VH void vh_mk_result_header_err(http3::result<header> *r, uint64_t err)
{
  new (r) http3::result<header>(static_cast<http3::error>(err));
}
