// Analysis harness (never linked or run): thin typed entry points through which the abstract
// interpreter drives the repository's public API.  Everything here goes through public
// declarations only, so internals can change freely.
#pragma once
#include <bnl/base/buffer.hpp>
#include <bnl/base/buffers.hpp>
#include <bnl/base/buffer_view.hpp>
#include <bnl/base/string_view.hpp>
#include <bnl/base/string.hpp>
#include <bnl/http3/result.hpp>
#include <new>
#include <utility>

using namespace bnl;
using base::buffer;
using base::buffers;
typedef buffer::lookahead blook;
typedef buffers::lookahead bslook;

#define VH extern "C" __attribute__((used))

template<typename R>
static bool vh_ok(R &r, uint64_t *err)
{
  if (r.has_value())
    return true;
  *err = static_cast<uint64_t>(r.error());
  return false;
}
