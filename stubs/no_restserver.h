// Force-included for the broker/worker units: the HTTP/2+3 server needs nghttp2, nghttp3, ngtcp2 and
// OpenSSL 3.5, none of which is installed, so the broker is analysed against this interface stand-in.
#pragma once
#define OPENCMW_MAJORDOMO_RESTSERVER_HPP
#include <cstdint>
#include <expected>
#include <filesystem>
#include <memory>
#include <optional>
#include <span>
#include <string>
#include <vector>
#include <zmq.h>
#include "MdpMessage.hpp"
#include "MIME.hpp"
#include "Topic.hpp"
#include "LoadTest.hpp"
#include "majordomo/Rest.hpp"
namespace opencmw::rest::detail { inline void setupIgnoreSigpipe() {} }
namespace opencmw::majordomo::detail::rest {
using Message = opencmw::mdp::BasicMessage<opencmw::mdp::MessageFormat::WithSourceId>;
struct RestServer {
    std::unique_ptr<int> _moveOnly;
    static std::expected<RestServer, std::string> unencrypted();
    static std::expected<RestServer, std::string> sslWithBuffers(std::string_view certBuffer, std::string_view keyBuffer);
    static std::expected<RestServer, std::string> sslWithPaths(std::filesystem::path certPath, std::filesystem::path keyPath);
    void setHandlers(std::vector<opencmw::majordomo::rest::Handler> handlers);
    void handleResponse(Message &&message);
    void handleNotification(const mdp::Topic &topic, Message &&message);
    void populatePollerItems(std::vector<zmq_pollitem_t> &items);
    std::vector<Message> processReadWrite(int fd, bool read, bool write);
    std::expected<void, std::string> bind(const majordomo::rest::Settings &settings);
};
} // namespace
