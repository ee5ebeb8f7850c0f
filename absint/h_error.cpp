#include "h_base.hpp"
#include <bnl/base/system_error.hpp>

#define PROTO(P)                                                                            \
  VH int vh_##P##_value(uint64_t e) { std::error_code c = static_cast<P::error>(e); return c.value(); } \
  VH const void *vh_##P##_category(uint64_t e) { std::error_code c = static_cast<P::error>(e); return &c.category(); } \
  VH const void *vh_##P##_own() { return &P::error_category(); }                            \
  VH bool vh_##P##_set(uint64_t e) { std::error_code c = static_cast<P::error>(e); return static_cast<bool>(c); } \
  VH const char *vh_##P##_name() { return P::error_category().name(); }                     \
  VH void vh_##P##_message(std::string *s, uint64_t e)                                      \
  {                                                                                         \
    std::error_code c = static_cast<P::error>(e);                                           \
    new (s) std::string(c.message());                                                       \
  }
PROTO(http3) PROTO(quic)

#define Q(N) VH uint64_t vh_qerr_##N() { return static_cast<uint64_t>(quic::error::N); }
Q(no_error) Q(internal) Q(incomplete) Q(idle) Q(delegate) Q(finished) Q(not_implemented) Q(handshake) Q(crypto)
Q(ngtcp2) Q(path_validation) Q(stream_not_found) Q(stream_id_blocked) Q(stream_data_blocked)
