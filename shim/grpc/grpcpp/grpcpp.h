// A stand-in for the parts of gRPC's C++ interface the gRPC transporter uses.
// There is no gRPC here; calls go to the function a harness installs.
#ifndef VERIF_GRPCPP_H
#define VERIF_GRPCPP_H
#include <atomic>
#include <chrono>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <vector>

namespace grpc {
enum StatusCode {
  OK = 0,
  CANCELLED = 1,
  UNKNOWN = 2,
  INVALID_ARGUMENT = 3,
  DEADLINE_EXCEEDED = 4,
  NOT_FOUND = 5,
  ALREADY_EXISTS = 6,
  PERMISSION_DENIED = 7,
  RESOURCE_EXHAUSTED = 8,
  FAILED_PRECONDITION = 9,
  ABORTED = 10,
  OUT_OF_RANGE = 11,
  UNIMPLEMENTED = 12,
  INTERNAL = 13,
  UNAVAILABLE = 14,
  DATA_LOSS = 15,
  UNAUTHENTICATED = 16
};
class Status {
 public:
  Status() = default;
  Status(StatusCode code, std::string message)
      : code_(code), message_(std::move(message)) {}
  Status(StatusCode code, std::string message, std::string details)
      : code_(code), message_(std::move(message)), details_(std::move(details)) {}
  bool ok() const { return code_ == OK; }
  StatusCode error_code() const { return code_; }
  std::string error_message() const { return message_; }
  std::string error_details() const { return details_; }

 private:
  StatusCode code_ = OK;
  std::string message_, details_;
};

struct ChannelCredentials {
  bool secure = false;
  std::string roots, key, chain;
};
struct SslCredentialsOptions {
  std::string pem_root_certs, pem_private_key, pem_cert_chain;
};
inline std::shared_ptr<ChannelCredentials> InsecureChannelCredentials() {
  return std::make_shared<ChannelCredentials>();
}
inline std::shared_ptr<ChannelCredentials> SslCredentials(
    const SslCredentialsOptions& o) {
  auto c = std::make_shared<ChannelCredentials>();
  c->secure = true;
  c->roots = o.pem_root_certs;
  c->key = o.pem_private_key;
  c->chain = o.pem_cert_chain;
  return c;
}

class ChannelArguments {
 public:
  void SetInt(const std::string&, int) {}
  void SetString(const std::string&, const std::string&) {}
};
class ChannelInterface {
 public:
  virtual ~ChannelInterface() = default;
  std::string target;
  std::shared_ptr<ChannelCredentials> credentials;
};
class Channel : public ChannelInterface {};
inline std::shared_ptr<Channel> CreateChannel(
    const std::string& target, const std::shared_ptr<ChannelCredentials>& c) {
  auto channel = std::make_shared<Channel>();
  channel->target = target;
  channel->credentials = c;
  return channel;
}
inline std::shared_ptr<Channel> CreateCustomChannel(
    const std::string& target, const std::shared_ptr<ChannelCredentials>& c,
    const ChannelArguments&) {
  return CreateChannel(target, c);
}

class ClientContext {
 public:
  ClientContext() = default;
  ClientContext(const ClientContext&) = delete;
  ClientContext& operator=(const ClientContext&) = delete;
  void set_fail_fast(bool x) { wait_for_ready = !x; }
  void set_wait_for_ready(bool x) { wait_for_ready = x; }
  template <class Clock, class D>
  void set_deadline(const std::chrono::time_point<Clock, D>& t) {
    has_deadline = true;
    deadline_ = std::chrono::system_clock::now() +
                std::chrono::duration_cast<std::chrono::system_clock::duration>(
                    t - Clock::now());
  }
  template <class D>
  void set_deadline(
      const std::chrono::time_point<std::chrono::system_clock, D>& t) {
    has_deadline = true;
    deadline_ = std::chrono::time_point_cast<std::chrono::system_clock::duration>(t);
  }
  std::chrono::system_clock::time_point deadline() const {
    return has_deadline ? deadline_
                        : std::chrono::system_clock::time_point::max();
  }
  void AddMetadata(const std::string& k, const std::string& v) {
    metadata.emplace(k, v);
  }
  void TryCancel() {}

  bool wait_for_ready = false, has_deadline = false;
  int calls = 0;
  std::multimap<std::string, std::string> metadata;

 private:
  std::chrono::system_clock::time_point deadline_;
};
}  // namespace grpc
#endif
