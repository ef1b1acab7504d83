// Instantiates the repository's templates so that their bodies are type-checked
// and exported together with the ordinary functions.
#include <boost/logic/tribool_io.hpp>
#include <pion/plugin.hpp>
#include <pion/plugin_manager.hpp>
#include <pion/http/plugin_service.hpp>
#include <pion/http/plugin_server.hpp>
#include <pion/http/request_reader.hpp>
#include <pion/http/response_reader.hpp>
#include <pion/http/request_writer.hpp>
#include <pion/http/response_writer.hpp>
#include <pion/tcp/stream.hpp>
#include <pion/tcp/timer.hpp>
#include <pion/user.hpp>
#include <pion/scheduler.hpp>
#include <pion/process.hpp>
#include <pion/spdy/parser.hpp>

template class pion::plugin_ptr<pion::http::plugin_service>;
template class pion::plugin_instance_ptr<pion::http::plugin_service>;
template class pion::plugin_manager<pion::http::plugin_service>;

// member templates of tcp::connection
typedef boost::function2<void, const boost::system::error_code&, std::size_t> rw_handler;
typedef boost::function1<void, const boost::system::error_code&> ev_handler;
void use_connection(pion::tcp::connection& c, boost::asio::ip::tcp::acceptor& a,
                    boost::asio::ip::tcp::endpoint& e, rw_handler rw, ev_handler ev,
                    boost::system::error_code& ec, boost::asio::mutable_buffers_1 mb,
                    boost::asio::const_buffers_1 cb)
{
    c.async_accept(a, ev);
    c.async_connect(e, ev);
    c.async_handshake_client(ev);
    c.async_handshake_server(ev);
    c.async_read_some(rw);
    c.async_read_some(mb, rw);
    c.read_some(ec);
    c.read_some(mb, ec);
    c.async_read(boost::asio::transfer_all(), rw);
    c.async_read(mb, boost::asio::transfer_all(), rw);
    c.read(mb, boost::asio::transfer_all(), ec);
    c.async_write(cb, rw);
    c.write(cb, ec);
}
void use_writer(const pion::http::response_writer_ptr& w, const pion::http::request_writer_ptr& q)
{
    w << 1 << std::string("x") << "y";
    q << 1 << std::string("x") << "y";
}
void use_send(pion::http::writer& w, rw_handler h, char *p, const std::string& t)
{
    w.send(h);
    w.send_chunk(h);
    w.send_final_chunk(h);
    w.write(t);
    w.write(static_cast<const void*>(p), 3);
    w.write_no_copy(t);
    w.write_no_copy(static_cast<void*>(p), 3);
    w.clear();
}
void use_sleep(boost::condition& c, boost::mutex::scoped_lock& l)
{
    pion::scheduler::sleep(c, l, 1u, 2u);
}
template <typename B> void use_bytes(B *b)
{
    using pion::algorithm;
    algorithm::from_uint8(b, algorithm::to_uint8(b));
    algorithm::from_int8(b, algorithm::to_int8(b));
    algorithm::from_uint16(b, algorithm::to_uint16(b));
    algorithm::from_int16(b, algorithm::to_int16(b));
    algorithm::from_uint24(b, algorithm::to_uint24(b));
    algorithm::from_int24(b, algorithm::to_int24(b));
    algorithm::from_uint32(b, algorithm::to_uint32(b));
    algorithm::from_int32(b, algorithm::to_int32(b));
    algorithm::from_uint64(b, algorithm::to_uint64(b));
    algorithm::from_int64(b, algorithm::to_int64(b));
    algorithm::from_float(b, algorithm::to_float(b));
    algorithm::from_double(b, algorithm::to_double(b));
    algorithm::from_long_double(b, algorithm::to_long_double(b));
}
void use_algorithm(char *c, unsigned char *u) { use_bytes(c); use_bytes(u); }
