#include "h_base.hpp"
#include <bnl/http3/event.hpp>
#include <bnl/quic/event.hpp>

typedef quic::event qev;
typedef http3::event hev;
typedef quic::application::error aerr;

VH size_t vh_sizeof_qev() { return sizeof(qev); }
VH size_t vh_sizeof_hev() { return sizeof(hev); }
VH size_t vh_sizeof_qdata() { return sizeof(quic::data); }
VH size_t vh_sizeof_string2() { return sizeof(base::string); }

VH int vh_qev_kind_data() { return static_cast<int>(qev::type::data); }
VH int vh_qev_kind_error() { return static_cast<int>(qev::type::error); }
VH int vh_hev_kind_settings() { return static_cast<int>(hev::type::settings); }
VH int vh_hev_kind_header() { return static_cast<int>(hev::type::header); }
VH int vh_hev_kind_body() { return static_cast<int>(hev::type::body); }
VH int vh_hev_kind_finished() { return static_cast<int>(hev::type::finished); }

VH void vh_qdata_make(quic::data *d, uint64_t id, bool fin, buffer *b) { new (d) quic::data{ id, fin, std::move(*b) }; }
VH void vh_qdata_move(quic::data *d, quic::data *o) { new (d) quic::data(std::move(*o)); }
VH void vh_qdata_destroy(quic::data *d) { d->~data(); }
VH void vh_qdata_default(quic::data *d) { new (d) quic::data(); }
VH uint64_t vh_qdata_id(const quic::data *d) { return d->id; }
VH bool vh_qdata_fin(const quic::data *d) { return d->fin; }
VH const buffer *vh_qdata_buffer(const quic::data *d) { return &d->buffer; }

VH void vh_qev_data(qev *e, uint64_t id, bool fin, buffer *b) { new (e) qev(quic::data{ id, fin, std::move(*b) }); }
VH void vh_qev_error(qev *e, int t, uint64_t id, uint64_t v)
{
  switch (t) {
    case 0: new (e) qev(aerr{ aerr::rst_stream, id, v }); break;
    case 1: new (e) qev(aerr{ aerr::stop_sending, id, v }); break;
    default: new (e) qev(aerr{ aerr::connection_close, id, v }); break;
  }
}
VH void vh_qev_move(qev *e, qev *o) { new (e) qev(std::move(*o)); }
VH void vh_qev_destroy(qev *e) { e->~event(); }
VH int vh_qev_kind(const qev *e) { qev::type t = *e; return static_cast<int>(t); }
VH uint64_t vh_qev_id(const qev *e) { return e->id(); }
VH uint64_t vh_qev_data_id(const qev *e) { return e->data.id; }
VH bool vh_qev_data_fin(const qev *e) { return e->data.fin; }
VH const buffer *vh_qev_data_buffer(const qev *e) { return &e->data.buffer; }
VH int vh_qev_error_type(const qev *e)
{
  return e->error.type == aerr::rst_stream ? 0 : e->error.type == aerr::stop_sending ? 1 : 2;
}
VH uint64_t vh_qev_error_id(const qev *e) { return e->error.id; }
VH uint64_t vh_qev_error_value(const qev *e) { return e->error.value; }

VH void vh_hev_settings(hev *e, uint64_t a, uint64_t b, uint64_t c, uint64_t d)
{
  http3::settings s;
  s.max_header_list_size = a;
  s.num_placeholders = b;
  s.qpack_max_table_capacity = c;
  s.qpack_blocked_streams = d;
  new (e) hev(hev::payload::settings(s));
}
VH void vh_hev_header(hev *e, uint64_t id, bool fin, base::string *n, base::string *v)
{
  new (e) hev(hev::payload::header{ id, fin, http3::header(std::move(*n), std::move(*v)) });
}
VH void vh_hev_body(hev *e, uint64_t id, bool fin, buffer *b)
{
  new (e) hev(hev::payload::body{ id, fin, std::move(*b) });
}
VH void vh_hev_finished(hev *e, uint64_t id) { new (e) hev(hev::payload::finished{ id }); }
VH void vh_hev_move(hev *e, hev *o) { new (e) hev(std::move(*o)); }
VH void vh_hev_destroy(hev *e) { e->~event(); }
VH int vh_hev_kind(const hev *e) { hev::type t = *e; return static_cast<int>(t); }
VH uint64_t vh_hev_settings_list(const hev *e) { return e->settings.max_header_list_size; }
VH uint64_t vh_hev_settings_placeholders(const hev *e) { return e->settings.num_placeholders; }
VH uint64_t vh_hev_settings_capacity(const hev *e) { return e->settings.qpack_max_table_capacity; }
VH uint64_t vh_hev_settings_blocked(const hev *e) { return e->settings.qpack_blocked_streams; }
VH uint64_t vh_hev_header_id(const hev *e) { return e->header.id; }
VH bool vh_hev_header_fin(const hev *e) { return e->header.fin; }
VH size_t vh_hev_header_name_size(const hev *e) { return e->header.header.name().size(); }
VH size_t vh_hev_header_value_size(const hev *e) { return e->header.header.value().size(); }
VH char vh_hev_header_name_at(const hev *e, size_t i) { return *(e->header.header.name().data() + i); }
VH char vh_hev_header_value_at(const hev *e, size_t i) { return *(e->header.header.value().data() + i); }
VH uint64_t vh_hev_body_id(const hev *e) { return e->body.id; }
VH bool vh_hev_body_fin(const hev *e) { return e->body.fin; }
VH const buffer *vh_hev_body_buffer(const hev *e) { return &e->body.buffer; }
VH uint64_t vh_hev_finished_id(const hev *e) { return e->finished.id; }

// values as results (how endpoints hand them on)
typedef http3::result<hev> rhev;
typedef quic::result<quic::data> rqdata;
VH size_t vh_sizeof_rhev() { return sizeof(rhev); }
VH void vh_rhev_make(rhev *r, hev *e) { new (r) rhev(std::move(*e)); }
VH void vh_rhev_err(rhev *r, uint64_t e) { new (r) rhev(static_cast<http3::error>(e)); }
VH bool vh_rhev_has(const rhev *r) { return r->has_value(); }
VH uint64_t vh_rhev_error(const rhev *r) { return static_cast<uint64_t>(r->error()); }
VH void vh_rhev_take(hev *e, rhev *r) { new (e) hev(std::move(*r).value()); }
VH void vh_rhev_move(rhev *e, rhev *r) { new (e) rhev(std::move(*r)); }
VH void vh_rhev_destroy(rhev *r) { r->~rhev(); }
