// results that say "failed", of every type the libraries return
#include "h_base.hpp"
#include <bnl/http3/client/connection.hpp>
#include <bnl/http3/codec/frame.hpp>
#include <bnl/http3/event.hpp>
#include <bnl/http3/server/connection.hpp>
#include <bnl/quic/event.hpp>

#define FAIL(N, T) VH http3::result<T> vh_fail_##N(uint64_t e) { return base::failure(static_cast<http3::error>(e)); } \
  VH bool vh_has_##N(const http3::result<T> *r) { return r->has_value(); }
FAIL(void, void)
FAIL(u8, uint8_t)
FAIL(u64, uint64_t)
FAIL(buffer, buffer)
FAIL(string, base::string)
FAIL(header, http3::header)
FAIL(frame, http3::frame)
FAIL(frame_type, http3::frame::type)
FAIL(event, http3::event)
FAIL(qevent, quic::event)
FAIL(handle, http3::request::handle)
FAIL(cgen, http3::client::generator)
FAIL(sgen, http3::server::generator)
FAIL(settings, http3::settings)
