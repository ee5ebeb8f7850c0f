#include "h_base.hpp"

VH size_t vh_sizeof_buffer() { return sizeof(buffer); }
VH size_t vh_sizeof_buffers() { return sizeof(buffers); }
VH size_t vh_sizeof_blook() { return sizeof(blook); }
VH size_t vh_sizeof_bslook() { return sizeof(bslook); }
VH size_t vh_sizeof_string() { return sizeof(base::string); }

VH void vh_buffer_default(buffer *b) { new (b) buffer(); }
VH void vh_buffer_size(buffer *b, size_t n) { new (b) buffer(n); }
VH void vh_buffer_bytes(buffer *b, const uint8_t *p, size_t n) { new (b) buffer(p, n); }
VH void vh_buffer_chars(buffer *b, const char *p, size_t n) { new (b) buffer(p, n); }
VH void vh_buffer_view(buffer *b, const uint8_t *p, size_t n) { new (b) buffer(base::buffer_view(p, n)); }
VH void vh_buffer_move(buffer *b, buffer *from) { new (b) buffer(std::move(*from)); }
VH void vh_buffer_assign(buffer *b, buffer *from) { *b = std::move(*from); }
VH void vh_buffer_destroy(buffer *b) { b->~buffer(); }
VH void vh_buffer_slice(buffer *out, buffer *b, size_t n) { new (out) buffer(b->slice(n)); }
VH void vh_buffer_concat(buffer *out, const buffer *a, const buffer *b) { new (out) buffer(buffer::concat(*a, *b)); }
VH const uint8_t *vh_buffer_data(const buffer *b) { return b->data(); }
VH uint8_t *vh_buffer_mdata(buffer *b) { return b->data(); }
VH const uint8_t *vh_buffer_begin(const buffer *b) { return b->begin(); }
VH const uint8_t *vh_buffer_end(const buffer *b) { return b->end(); }
VH uint8_t *vh_buffer_mbegin(buffer *b) { return b->begin(); }
VH uint8_t *vh_buffer_mend(buffer *b) { return b->end(); }
VH void vh_buffer_set(buffer *b, size_t i, uint8_t v) { (*b)[i] = v; }
VH void vh_buffer_setfront(buffer *b, uint8_t v) { **b = v; }
VH uint8_t vh_buffer_mat(buffer *b, size_t i) { return (*b)[i]; }
VH uint8_t vh_buffer_mfront(buffer *b) { return **b; }
VH const uint8_t *vh_buffer_asview_data(const buffer *b) { base::buffer_view v = *b; return v.data(); }
VH size_t vh_buffer_asview_size(const buffer *b) { base::buffer_view v = *b; return v.size(); }

VH void vh_buffers_default(buffers *b) { new (b) buffers(); }
VH void vh_buffers_move(buffers *b, buffers *from) { new (b) buffers(std::move(*from)); }
VH void vh_buffers_assign(buffers *b, buffers *from) { *b = std::move(*from); }
VH void vh_buffers_push(buffers *b, buffer *x) { b->push(std::move(*x)); }
VH void vh_buffers_pop(buffer *out, buffers *b) { new (out) buffer(b->pop()); }
VH void vh_buffers_slice(buffer *out, buffers *b, size_t n) { new (out) buffer(b->slice(n)); }
VH void vh_buffers_destroy(buffers *b) { b->~buffers(); }
VH const buffer *vh_buffers_frontbuf(const buffers *b) { return &b->front(); }
VH const buffer *vh_buffers_backbuf(const buffers *b) { return &b->back(); }

VH void vh_blook_make(blook *l, const buffer *b) { new (l) blook(*b); }
VH void vh_bslook_make(bslook *l, const buffers *b) { new (l) bslook(*b); }
VH void vh_blook_copy(blook *l, const blook *o) { new (l) blook(*o); }
VH void vh_bslook_copy(bslook *l, const bslook *o) { new (l) bslook(*o); }
VH size_t vh_blook_consumed(const blook *l) { return l->consumed(); }
VH size_t vh_bslook_consumed(const bslook *l) { return l->consumed(); }

#define SEQ(K)                                                                 \
  VH size_t vh_size_##K(const K *s) { return s->size(); }                      \
  VH bool vh_empty_##K(const K *s) { return s->empty(); }                      \
  VH uint8_t vh_at_##K(const K *s, size_t i) { return (*s)[i]; }               \
  VH uint8_t vh_front_##K(const K *s) { return **s; }                          \
  VH void vh_consume_##K(K *s, size_t n) { s->consume(n); }
SEQ(buffer) SEQ(buffers) SEQ(blook) SEQ(bslook)

VH void vh_string_default(base::string *s) { new (s) base::string(); }
VH void vh_string_bytes(base::string *s, const char *p, size_t n) { new (s) base::string(p, n); }
VH size_t vh_string_size(const base::string *s) { return s->size(); }
VH const char *vh_string_data(const base::string *s) { return s->data(); }
VH char vh_string_at(const base::string *s, size_t i) { return (*s)[i]; }
VH void vh_string_destroy(base::string *s) { s->~basic_string(); }

#define ERR(N) VH uint64_t vh_err_##N() { return static_cast<uint64_t>(http3::error::N); }
ERR(no_error) ERR(internal) ERR(wrong_stream) ERR(closed_critical_stream) ERR(missing_settings)
ERR(unexpected_frame) ERR(malformed_frame) ERR(qpack_decompression_failed) ERR(not_implemented)
ERR(varint_overflow) ERR(malformed_header) ERR(stream_closed) ERR(invalid_handle) ERR(incomplete)
ERR(idle) ERR(delegate)
