// A stand-in for what gRPC's protoc plugin generates from collector.proto.
#ifndef VERIF_COLLECTOR_GRPC_PB_H
#define VERIF_COLLECTOR_GRPC_PB_H
#include <grpcpp/grpcpp.h>
#include "lightstep-tracer-common/collector.pb.h"

namespace lightstep {
namespace collector {
// The collector: defined by the harness.
grpc::Status CollectorCall(const grpc::ChannelInterface& channel,
                           grpc::ClientContext& context,
                           const ReportRequest& request,
                           ReportResponse& response);

class CollectorService final {
 public:
  class StubInterface {
   public:
    virtual ~StubInterface() = default;
    virtual grpc::Status Report(grpc::ClientContext* context,
                                const ReportRequest& request,
                                ReportResponse* response) = 0;
  };
  class Stub final : public StubInterface {
   public:
    explicit Stub(const std::shared_ptr<grpc::ChannelInterface>& channel)
        : channel_(channel) {}
    grpc::Status Report(grpc::ClientContext* context,
                        const ReportRequest& request,
                        ReportResponse* response) override {
      return CollectorCall(*channel_, *context, request, *response);
    }

   private:
    std::shared_ptr<grpc::ChannelInterface> channel_;
  };
  static std::unique_ptr<Stub> NewStub(
      const std::shared_ptr<grpc::ChannelInterface>& channel) {
    return std::unique_ptr<Stub>(new Stub(channel));
  }
};
}  // namespace collector
}  // namespace lightstep
#endif
