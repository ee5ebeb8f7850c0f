#include "h_base.hpp"
#include <bnl/http3/codec/frame.hpp>

using http3::frame;
typedef frame::payload P;

VH size_t vh_sizeof_frame() { return sizeof(frame); }
VH size_t vh_sizeof_settings() { return sizeof(http3::settings); }

VH void vh_frame_default(frame *f) { new (f) frame(); }
VH void vh_frame_copy(frame *f, const frame *o) { new (f) frame(*o); }
VH void vh_frame_data(frame *f, uint64_t size) { P::data p{}; p.size = size; new (f) frame(p); }
VH void vh_frame_headers(frame *f, uint64_t size) { P::headers p{}; p.size = size; new (f) frame(p); }
VH void vh_frame_priority(frame *f, uint8_t pt, uint8_t dt, uint64_t pid, uint64_t did, uint8_t weight)
{
  P::priority p{};
  p.prioritized_element_type = static_cast<P::priority::type>(pt);
  p.element_dependency_type = static_cast<P::priority::type>(dt);
  p.prioritized_element_id = pid;
  p.element_dependency_id = did;
  p.weight = weight;
  new (f) frame(p);
}
VH void vh_frame_settings(frame *f, uint64_t list, uint64_t placeholders, uint64_t capacity, uint64_t blocked)
{
  P::settings p{};
  p.max_header_list_size = list;
  p.num_placeholders = placeholders;
  p.qpack_max_table_capacity = capacity;
  p.qpack_blocked_streams = blocked;
  new (f) frame(p);
}
VH void vh_frame_cancel_push(frame *f, uint64_t id) { P::cancel_push p{}; p.push_id = id; new (f) frame(p); }
VH void vh_frame_push_promise(frame *f, uint64_t id, uint64_t size) { P::push_promise p{}; p.push_id = id; p.size = size; new (f) frame(p); }
VH void vh_frame_goaway(frame *f, uint64_t id) { P::goaway p{}; p.stream_id = id; new (f) frame(p); }
VH void vh_frame_max_push_id(frame *f, uint64_t id) { P::max_push_id p{}; p.push_id = id; new (f) frame(p); }
VH void vh_frame_duplicate_push(frame *f, uint64_t id) { P::duplicate_push p{}; p.push_id = id; new (f) frame(p); }

VH uint64_t vh_frame_type(const frame *f) { return static_cast<uint64_t>(static_cast<frame::type>(*f)); }
VH uint64_t vh_frame_get_data(const frame *f) { return f->data.size; }
VH uint64_t vh_frame_get_headers(const frame *f) { return f->headers.size; }
VH uint8_t vh_frame_get_priority_pt(const frame *f) { return static_cast<uint8_t>(f->priority.prioritized_element_type); }
VH uint8_t vh_frame_get_priority_dt(const frame *f) { return static_cast<uint8_t>(f->priority.element_dependency_type); }
VH uint64_t vh_frame_get_priority_pid(const frame *f) { return f->priority.prioritized_element_id; }
VH uint64_t vh_frame_get_priority_did(const frame *f) { return f->priority.element_dependency_id; }
VH uint8_t vh_frame_get_priority_weight(const frame *f) { return f->priority.weight; }
VH uint64_t vh_frame_get_settings_list(const frame *f) { return f->settings.max_header_list_size; }
VH uint64_t vh_frame_get_settings_placeholders(const frame *f) { return f->settings.num_placeholders; }
VH uint64_t vh_frame_get_settings_capacity(const frame *f) { return f->settings.qpack_max_table_capacity; }
VH uint64_t vh_frame_get_settings_blocked(const frame *f) { return f->settings.qpack_blocked_streams; }
VH uint64_t vh_frame_get_cancel_push(const frame *f) { return f->cancel_push.push_id; }
VH uint64_t vh_frame_get_push_promise_id(const frame *f) { return f->push_promise.push_id; }
VH uint64_t vh_frame_get_push_promise_size(const frame *f) { return f->push_promise.size; }
VH uint64_t vh_frame_get_goaway(const frame *f) { return f->goaway.stream_id; }
VH uint64_t vh_frame_get_max_push_id(const frame *f) { return f->max_push_id.push_id; }
VH uint64_t vh_frame_get_duplicate_push(const frame *f) { return f->duplicate_push.push_id; }
VH bool vh_frame_eq(const frame *a, const frame *b) { return *a == *b; }
VH bool vh_frame_ne(const frame *a, const frame *b) { return *a != *b; }

VH bool vh_frame_encoded_size(const frame *f, size_t *out, uint64_t *err)
{
  auto r = frame::encoded_size(*f);
  return vh_ok(r, err) && ((*out = r.value()), true);
}
VH bool vh_frame_encode_raw(uint8_t *dest, const frame *f, size_t *out, uint64_t *err)
{
  auto r = frame::encode(dest, *f);
  return vh_ok(r, err) && ((*out = r.value()), true);
}
VH bool vh_frame_encode_buf(buffer *b, const frame *f, uint64_t *err)
{
  auto r = frame::encode(*f);
  return vh_ok(r, err) && (new (b) buffer(std::move(r).value()), true);
}

VH void vh_settings_default(http3::settings *s) { new (s) http3::settings(); }
VH uint64_t vh_settings_list(const http3::settings *s) { return s->max_header_list_size; }
VH uint64_t vh_settings_placeholders(const http3::settings *s) { return s->num_placeholders; }
VH uint64_t vh_settings_capacity(const http3::settings *s) { return s->qpack_max_table_capacity; }
VH uint64_t vh_settings_blocked(const http3::settings *s) { return s->qpack_blocked_streams; }
VH uint64_t vh_setting_id_list() { return http3::setting::max_header_list_size; }
VH uint64_t vh_setting_id_placeholders() { return http3::setting::num_placeholders; }
VH uint64_t vh_setting_id_capacity() { return http3::setting::qpack_max_table_capacity; }
VH uint64_t vh_setting_id_blocked() { return http3::setting::qpack_blocked_streams; }

#define DEC(K)                                                                              \
  VH bool vh_frame_decode_##K(K *s, frame *out, uint64_t *err)                              \
  {                                                                                         \
    auto r = frame::decode(*s);                                                             \
    return vh_ok(r, err) && (new (out) frame(std::move(r).value()), true);                  \
  }                                                                                         \
  VH bool vh_frame_peek_##K(const K *s, uint64_t *out, uint64_t *err)                       \
  {                                                                                         \
    auto r = frame::peek(*s);                                                               \
    return vh_ok(r, err) && ((*out = static_cast<uint64_t>(r.value())), true);              \
  }
DEC(buffer) DEC(buffers) DEC(blook) DEC(bslook)
