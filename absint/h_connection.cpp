#include "h_base.hpp"
#include <bnl/http3/client/connection.hpp>
#include <bnl/http3/endpoint/generator.hpp>
#include <bnl/http3/event.hpp>
#include <bnl/http3/server/connection.hpp>
#include <bnl/quic/event.hpp>

typedef quic::event qev;
typedef http3::event hev;
typedef http3::endpoint::stream::request::sender::handle handle;

// a connection of which nothing is known but what process() hands out (supplied by the analysis)
struct vh_mock {
  http3::result<hev> process(uint64_t id);
};

#define GENERATOR(R, C)                                                                                    \
  typedef http3::endpoint::generator<C> R##gen;                                                            \
  VH size_t vh_sizeof_##R##gen() { return sizeof(R##gen); }                                                \
  VH void vh_##R##gen_make(R##gen *g, uint64_t id, C *c) { new (g) R##gen(id, *c); }                       \
  VH void vh_##R##gen_move(R##gen *g, R##gen *o) { new (g) R##gen(std::move(*o)); }                        \
  VH void vh_##R##gen_destroy(R##gen *g) { g->~R##gen(); }                                                 \
  VH bool vh_##R##gen_next(R##gen *g) { return g->next(); }                                                \
  VH bool vh_##R##gen_get(R##gen *g, hev *out, uint64_t *err)                                              \
  {                                                                                                        \
    auto r = g->get();                                                                                     \
    return vh_ok(r, err) && (new (out) hev(std::move(r).value()), true);                                   \
  }
GENERATOR(m, vh_mock)
GENERATOR(c, http3::client::connection)
GENERATOR(s, http3::server::connection)

#define CONNECTION(R, C)                                                                                   \
  VH size_t vh_sizeof_##R##conn() { return sizeof(C); }                                                    \
  VH void vh_##R##conn_make(C *c) { new (c) C(); }                                                         \
  VH void vh_##R##conn_move(C *c, C *o) { new (c) C(std::move(*o)); }                                      \
  VH void vh_##R##conn_assign(C *c, C *o) { *c = std::move(*o); }                                          \
  VH void vh_##R##conn_destroy(C *c) { typedef C self; c->~self(); }                                                          \
  VH bool vh_##R##conn_send(C *c, qev *out, uint64_t *err)                                                 \
  {                                                                                                        \
    auto r = c->send();                                                                                    \
    return vh_ok(r, err) && (new (out) qev(std::move(r).value()), true);                                   \
  }                                                                                                        \
  VH bool vh_##R##conn_recv(C *c, qev *e, R##gen *out, uint64_t *err)                                      \
  {                                                                                                        \
    auto r = c->recv(std::move(*e));                                                                       \
    return vh_ok(r, err) && (new (out) R##gen(std::move(r).value()), true);                                \
  }
CONNECTION(c, http3::client::connection)
CONNECTION(s, http3::server::connection)

VH bool vh_cconn_request(http3::client::connection *c, handle *out, uint64_t *err)
{
  auto r = c->request();
  return vh_ok(r, err) && (new (out) handle(std::move(r).value()), true);
}
VH bool vh_sconn_response(http3::server::connection *c, uint64_t id, handle *out, uint64_t *err)
{
  auto r = c->response(id);
  return vh_ok(r, err) && (new (out) handle(std::move(r).value()), true);
}
