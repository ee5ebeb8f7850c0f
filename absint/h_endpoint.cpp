#include "h_base.hpp"
#include <bnl/http3/client/stream/control.hpp>
#include <bnl/http3/client/stream/request.hpp>
#include <bnl/http3/event.hpp>
#include <bnl/http3/server/stream/control.hpp>
#include <bnl/http3/server/stream/request.hpp>
#include <bnl/quic/event.hpp>

namespace cc = http3::client::stream::control;
namespace sc = http3::server::stream::control;
namespace cr = http3::client::stream::request;
namespace sr = http3::server::stream::request;
typedef quic::event qev;
typedef http3::event hev;
typedef base::string_view sv;
using http3::header_view;

#define CONTROL(R, N)                                                                                      \
  VH size_t vh_sizeof_##R##csend() { return sizeof(N::sender); }                                           \
  VH size_t vh_sizeof_##R##crecv() { return sizeof(N::receiver); }                                         \
  VH void vh_##R##csend_make(N::sender *s) { new (s) N::sender(); }                                        \
  VH void vh_##R##csend_move(N::sender *s, N::sender *o) { new (s) N::sender(std::move(*o)); }             \
  VH void vh_##R##csend_assign(N::sender *s, N::sender *o) { *s = std::move(*o); }                         \
  VH bool vh_##R##csend_send(N::sender *s, qev *out, uint64_t *err)                                        \
  {                                                                                                        \
    auto r = s->send();                                                                                    \
    return vh_ok(r, err) && (new (out) qev(std::move(r).value()), true);                                   \
  }                                                                                                        \
  VH void vh_##R##crecv_make(N::receiver *s) { new (s) N::receiver(); }                                    \
  VH void vh_##R##crecv_move(N::receiver *s, N::receiver *o) { new (s) N::receiver(std::move(*o)); }       \
  VH void vh_##R##crecv_assign(N::receiver *s, N::receiver *o) { *s = std::move(*o); }                     \
  VH void vh_##R##crecv_destroy(N::receiver *s) { s->~receiver(); }                                        \
  VH uint64_t vh_##R##crecv_id(const N::receiver *s) { return s->id(); }                                   \
  VH bool vh_##R##crecv_recv(N::receiver *s, uint64_t id, bool fin, buffer *b, uint64_t *err)              \
  {                                                                                                        \
    auto r = s->recv(quic::data{ id, fin, std::move(*b) });                                                \
    return vh_ok(r, err);                                                                                  \
  }                                                                                                        \
  VH bool vh_##R##crecv_process(N::receiver *s, hev *out, uint64_t *err)                                   \
  {                                                                                                        \
    auto r = s->process();                                                                                 \
    return vh_ok(r, err) && (new (out) hev(std::move(r).value()), true);                                   \
  }
CONTROL(c, cc)
CONTROL(s, sc)

#define REQUEST(R, N)                                                                                      \
  VH size_t vh_sizeof_##R##rsend() { return sizeof(N::sender); }                                           \
  VH size_t vh_sizeof_##R##rrecv() { return sizeof(N::receiver); }                                         \
  VH void vh_##R##rsend_make(N::sender *s, uint64_t id) { new (s) N::sender(id); }                         \
  VH void vh_##R##rsend_move(N::sender *s, N::sender *o) { new (s) N::sender(std::move(*o)); }             \
  VH void vh_##R##rsend_assign(N::sender *s, N::sender *o) { *s = std::move(*o); }                         \
  VH void vh_##R##rsend_destroy(N::sender *s) { s->~sender(); }                                            \
  VH bool vh_##R##rsend_finished(const N::sender *s) { return s->finished(); }                             \
  VH bool vh_##R##rsend_send(N::sender *s, qev *out, uint64_t *err)                                        \
  {                                                                                                        \
    auto r = s->send();                                                                                    \
    return vh_ok(r, err) && (new (out) qev(std::move(r).value()), true);                                   \
  }                                                                                                        \
  VH bool vh_##R##rsend_header(N::sender *s, const char *n, size_t nn, const char *v, size_t vn, uint64_t *err) \
  {                                                                                                        \
    auto r = s->header(header_view(sv(n, nn), sv(v, vn)));                                                 \
    return vh_ok(r, err);                                                                                  \
  }                                                                                                        \
  VH bool vh_##R##rsend_body(N::sender *s, buffer *b, uint64_t *err)                                       \
  {                                                                                                        \
    auto r = s->body(std::move(*b));                                                                       \
    return vh_ok(r, err);                                                                                  \
  }                                                                                                        \
  VH bool vh_##R##rsend_start(N::sender *s, uint64_t *err)                                                 \
  {                                                                                                        \
    auto r = s->start();                                                                                   \
    return vh_ok(r, err);                                                                                  \
  }                                                                                                        \
  VH bool vh_##R##rsend_fin(N::sender *s, uint64_t *err)                                                   \
  {                                                                                                        \
    auto r = s->fin();                                                                                     \
    return vh_ok(r, err);                                                                                  \
  }                                                                                                        \
  VH void vh_##R##rrecv_make(N::receiver *s, uint64_t id) { new (s) N::receiver(id); }                     \
  VH void vh_##R##rrecv_move(N::receiver *s, N::receiver *o) { new (s) N::receiver(std::move(*o)); }       \
  VH void vh_##R##rrecv_assign(N::receiver *s, N::receiver *o) { *s = std::move(*o); }                     \
  VH void vh_##R##rrecv_destroy(N::receiver *s) { s->~receiver(); }                                        \
  VH bool vh_##R##rrecv_closed(const N::receiver *s) { return s->closed(); }                               \
  VH bool vh_##R##rrecv_finished(const N::receiver *s) { return s->finished(); }                           \
  VH bool vh_##R##rrecv_start(N::receiver *s, uint64_t *err)                                               \
  {                                                                                                        \
    auto r = s->start();                                                                                   \
    return vh_ok(r, err);                                                                                  \
  }                                                                                                        \
  VH bool vh_##R##rrecv_recv(N::receiver *s, uint64_t id, bool fin, buffer *b, uint64_t *err)              \
  {                                                                                                        \
    auto r = s->recv(quic::data{ id, fin, std::move(*b) });                                                \
    return vh_ok(r, err);                                                                                  \
  }                                                                                                        \
  VH bool vh_##R##rrecv_process(N::receiver *s, hev *out, uint64_t *err)                                   \
  {                                                                                                        \
    auto r = s->process();                                                                                 \
    return vh_ok(r, err) && (new (out) hev(std::move(r).value()), true);                                   \
  }
REQUEST(c, cr)
REQUEST(s, sr)

// stream handles
typedef http3::endpoint::stream::request::sender esend;
typedef esend::handle handle;
VH size_t vh_sizeof_handle() { return sizeof(handle); }
VH void vh_handle_default(handle *h) { new (h) handle(); }
VH void vh_handle_make(handle *h, esend *s) { new (h) handle(s); }
VH void vh_handle_move(handle *h, handle *o) { new (h) handle(std::move(*o)); }
VH void vh_handle_assign(handle *h, handle *o) { *h = std::move(*o); }
VH void vh_handle_destroy(handle *h) { h->~handle(); }
VH uint64_t vh_handle_id(const handle *h) { return h->id(); }
VH bool vh_handle_header(handle *h, const char *n, size_t nn, const char *v, size_t vn, uint64_t *err)
{
  auto r = h->header(header_view(sv(n, nn), sv(v, vn)));
  return vh_ok(r, err);
}
VH bool vh_handle_body(handle *h, buffer *b, uint64_t *err)
{
  auto r = h->body(std::move(*b));
  return vh_ok(r, err);
}
VH bool vh_handle_start(handle *h, uint64_t *err)
{
  auto r = h->start();
  return vh_ok(r, err);
}
VH bool vh_handle_fin(handle *h, uint64_t *err)
{
  auto r = h->fin();
  return vh_ok(r, err);
}
