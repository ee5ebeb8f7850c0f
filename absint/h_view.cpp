#include "h_base.hpp"
#include <bnl/http3/header.hpp>
#include <bnl/ip/address.hpp>
#include <bnl/ip/endpoint.hpp>
#include <bnl/ip/host.hpp>
#include <bnl/quic/path.hpp>

typedef base::buffer_view bv;
typedef base::buffer_view_mut bvm;
typedef base::string_view sv;
using http3::header;
using http3::header_view;

VH size_t vh_sizeof_bv() { return sizeof(bv); }
VH size_t vh_sizeof_sv() { return sizeof(sv); }
VH size_t vh_sizeof_bvm() { return sizeof(bvm); }
VH size_t vh_sizeof_header() { return sizeof(header); }
VH size_t vh_sizeof_address() { return sizeof(ip::address); }
VH size_t vh_sizeof_ipv4() { return sizeof(ipv4::address); }
VH size_t vh_sizeof_ipv6() { return sizeof(ipv6::address); }
VH size_t vh_sizeof_endpoint() { return sizeof(ip::endpoint); }
VH size_t vh_sizeof_path() { return sizeof(quic::path); }
VH size_t vh_sizeof_host() { return sizeof(ip::host); }

VH void vh_bv_make(bv *v, const uint8_t *p, size_t n) { new (v) bv(p, n); }
VH void vh_bv_default(bv *v) { new (v) bv(); }
VH void vh_bv_copy(bv *v, const bv *o) { new (v) bv(*o); }
VH void vh_bv_assign(bv *v, const bv *o) { *v = *o; }
VH void vh_sv_make(sv *v, const char *p, size_t n) { new (v) sv(p, n); }
VH void vh_sv_default(sv *v) { new (v) sv(); }
VH void vh_sv_copy(sv *v, const sv *o) { new (v) sv(*o); }
VH void vh_sv_assign(sv *v, const sv *o) { *v = *o; }
VH void vh_sv_string(sv *v, const base::string *s) { new (v) sv(*s); }
VH void vh_sv_cstring(sv *v, const char *s) { new (v) sv(s); }
VH void vh_bvm_make(bvm *v, uint8_t *p, size_t n) { new (v) bvm(p, n); }
VH void vh_bv_of_bvm(bv *v, const bvm *o) { new (v) bv(*o); }
VH const void *vh_bvm_data(bvm *v) { return v->data(); }
VH const void *vh_bvm_begin(bvm *v) { return v->begin(); }
VH const void *vh_bvm_end(bvm *v) { return v->end(); }
VH size_t vh_bvm_size(const bvm *v) { return v->size(); }
VH bool vh_bvm_empty(const bvm *v) { return v->empty(); }
#define VIEW(K)                                                     \
  VH const void *vh_##K##_data(const K *v) { return v->data(); }    \
  VH const void *vh_##K##_begin(const K *v) { return v->begin(); }  \
  VH const void *vh_##K##_end(const K *v) { return v->end(); }      \
  VH size_t vh_##K##_size(const K *v) { return v->size(); }         \
  VH bool vh_##K##_empty(const K *v) { return v->empty(); }         \
  VH uint8_t vh_##K##_at(const K *v, size_t i) { return static_cast<uint8_t>((*v)[i]); } \
  VH uint8_t vh_##K##_front(const K *v) { return static_cast<uint8_t>(**v); } \
  VH bool vh_##K##_eq(const K *a, const K *b) { return *a == *b; }  \
  VH bool vh_##K##_ne(const K *a, const K *b) { return *a != *b; }
VIEW(bv) VIEW(sv)

VH bool vh_header_lower(const char *n, size_t nn, const char *v, size_t vn)
{
  return http3::header_is_lowercase(header_view(sv(n, nn), sv(v, vn)));
}
VH bool vh_header_eq(const sv *n, const sv *v, const sv *m, const sv *w) { return header_view(*n, *v) == header_view(*m, *w); }
VH bool vh_header_ne(const sv *n, const sv *v, const sv *m, const sv *w) { return header_view(*n, *v) != header_view(*m, *w); }
VH void vh_header_view_name(sv *o, const sv *n, const sv *v) { new (o) sv(header_view(*n, *v).name()); }
VH void vh_header_view_value(sv *o, const sv *n, const sv *v) { new (o) sv(header_view(*n, *v).value()); }
VH void vh_header_make(header *h, base::string *n, base::string *v) { new (h) header(std::move(*n), std::move(*v)); }
VH void vh_header_copy(header *h, const header *o) { new (h) header(*o); }
VH void vh_header_move(header *h, header *o) { new (h) header(std::move(*o)); }
VH void vh_header_destroy(header *h) { h->~header(); }
VH void vh_header_name(sv *o, const header *h) { new (o) sv(h->name()); }
VH void vh_header_value(sv *o, const header *h) { new (o) sv(h->value()); }
VH void vh_header_asview_name(sv *o, const header *h) { header_view v = *h; new (o) sv(v.name()); }
VH void vh_header_asview_value(sv *o, const header *h) { header_view v = *h; new (o) sv(v.value()); }

VH void vh_address_default(ip::address *a) { new (a) ip::address(); }
VH void vh_address_bytes(ip::address *a, const uint8_t *p, size_t n) { new (a) ip::address(bv(p, n)); }
VH void vh_address_ipv4(ip::address *a, const uint8_t *p) { new (a) ip::address(ipv4::address(p)); }
VH void vh_address_ipv4v(ip::address *a, const uint8_t *p) { new (a) ip::address(ipv4::address(bv(p, 4))); }
VH void vh_address_ipv4w(ip::address *a, uint32_t w) { new (a) ip::address(ipv4::address(w)); }
VH void vh_address_ipv6(ip::address *a, const uint8_t *p) { new (a) ip::address(ipv6::address(p)); }
VH void vh_address_ipv6v(ip::address *a, const uint8_t *p) { new (a) ip::address(ipv6::address(bv(p, 16))); }
VH void vh_address_copy(ip::address *a, const ip::address *o) { new (a) ip::address(*o); }
VH void vh_address_assign(ip::address *a, const ip::address *o) { *a = *o; }
VH bool vh_address_is_ipv4(const ip::address *a) { ip::address::type t = *a; return t == ip::address::type::ipv4; }
VH bool vh_address_is_ipv6(const ip::address *a) { ip::address::type t = *a; return t == ip::address::type::ipv6; }
VH const uint8_t *vh_address_data(const ip::address *a) { return a->bytes().data(); }
VH size_t vh_address_size(const ip::address *a) { return a->bytes().size(); }
VH bool vh_address_eq(const ip::address *a, const ip::address *b) { return *a == *b; }

VH void vh_endpoint_default(ip::endpoint *e) { new (e) ip::endpoint(); }
VH void vh_endpoint_make(ip::endpoint *e, const ip::address *a, uint16_t port) { new (e) ip::endpoint(*a, port); }
VH void vh_endpoint_copy(ip::endpoint *e, const ip::endpoint *o) { new (e) ip::endpoint(*o); }
VH const ip::address *vh_endpoint_address(const ip::endpoint *e) { return &e->address(); }
VH uint16_t vh_endpoint_port(const ip::endpoint *e) { return e->port(); }
VH void vh_path_make(quic::path *p, const ip::endpoint *l, const ip::endpoint *r) { new (p) quic::path(*l, *r); }
VH void vh_path_copy(quic::path *p, const quic::path *o) { new (p) quic::path(*o); }
VH const ip::endpoint *vh_path_local(const quic::path *p) { return &p->local(); }
VH const ip::endpoint *vh_path_peer(const quic::path *p) { return &p->peer(); }
VH void vh_host_string(ip::host *h, base::string *s) { new (h) ip::host(std::move(*s)); }
VH void vh_host_name(sv *o, const ip::host *h) { new (o) sv(h->name()); }
VH void vh_host_copy(ip::host *h, const ip::host *o) { new (h) ip::host(*o); }
