#include "h_base.hpp"
#include <bnl/http3/codec/varint.hpp>
#include <bnl/http3/codec/qpack/prefix_int.hpp>
#include <bnl/http3/codec/qpack/huffman.hpp>
#include <bnl/http3/codec/qpack/literal.hpp>

namespace varint = http3::varint;
namespace qpack = http3::qpack;

VH bool vh_varint_encoded_size(uint64_t v, size_t *out, uint64_t *err)
{
  auto r = varint::encoded_size(v);
  return vh_ok(r, err) && ((*out = r.value()), true);
}
VH bool vh_varint_encode_raw(uint8_t *dest, uint64_t v, size_t *out, uint64_t *err)
{
  auto r = varint::encode(dest, v);
  return vh_ok(r, err) && ((*out = r.value()), true);
}
VH bool vh_varint_encode_buf(buffer *b, uint64_t v, uint64_t *err)
{
  auto r = varint::encode(v);
  return vh_ok(r, err) && (new (b) buffer(std::move(r).value()), true);
}
VH uint64_t vh_varint_max() { return varint::max; }

VH size_t vh_prefix_int_encoded_size(uint64_t v, uint8_t p) { return qpack::prefix_int::encoded_size(v, p); }
VH size_t vh_prefix_int_encode_raw(uint8_t *d, uint64_t v, uint8_t p) { return qpack::prefix_int::encode(d, v, p); }
VH void vh_prefix_int_encode_buf(buffer *b, uint64_t v, uint8_t p) { new (b) buffer(qpack::prefix_int::encode(v, p)); }

VH size_t vh_huffman_encoded_size(const char *s, size_t n) { return qpack::huffman::encoded_size(base::string_view(s, n)); }
VH size_t vh_huffman_encode_raw(uint8_t *d, const char *s, size_t n) { return qpack::huffman::encode(d, base::string_view(s, n)); }
VH void vh_huffman_encode_buf(buffer *b, const char *s, size_t n) { new (b) buffer(qpack::huffman::encode(base::string_view(s, n))); }

VH size_t vh_literal_encoded_size(const char *s, size_t n, uint8_t p) { return qpack::literal::encoded_size(base::string_view(s, n), p); }
VH size_t vh_literal_encode_raw(uint8_t *d, const char *s, size_t n, uint8_t p) { return qpack::literal::encode(d, base::string_view(s, n), p); }
VH void vh_literal_encode_buf(buffer *b, const char *s, size_t n, uint8_t p) { new (b) buffer(qpack::literal::encode(base::string_view(s, n), p)); }

#define DEC(K)                                                                              \
  VH bool vh_varint_decode_##K(K *s, uint64_t *out, uint64_t *err)                          \
  {                                                                                         \
    auto r = varint::decode(*s);                                                            \
    return vh_ok(r, err) && ((*out = r.value()), true);                                     \
  }                                                                                         \
  VH bool vh_prefix_int_decode_##K(K *s, uint8_t p, uint64_t *out, uint64_t *err)           \
  {                                                                                         \
    auto r = qpack::prefix_int::decode(*s, p);                                              \
    return vh_ok(r, err) && ((*out = r.value()), true);                                     \
  }                                                                                         \
  VH bool vh_huffman_decode_##K(K *s, size_t n, base::string *out, uint64_t *err)           \
  {                                                                                         \
    auto r = qpack::huffman::decode(*s, n);                                                 \
    return vh_ok(r, err) && (new (out) base::string(std::move(r).value()), true);           \
  }                                                                                         \
  VH bool vh_literal_decode_##K(K *s, uint8_t p, base::string *out, uint64_t *err)          \
  {                                                                                         \
    auto r = qpack::literal::decode(*s, p);                                                 \
    return vh_ok(r, err) && (new (out) base::string(std::move(r).value()), true);           \
  }
DEC(buffer) DEC(buffers) DEC(blook) DEC(bslook)

// results as a callee contract would return them
VH void vh_mk_result_string(http3::result<base::string> *r, base::string *s)
{
  new (r) http3::result<base::string>(std::move(*s));
}
VH void vh_mk_result_string_err(http3::result<base::string> *r, uint64_t err)
{
  new (r) http3::result<base::string>(static_cast<http3::error>(err));
}
