# The gRPC transport.
GHEAD = r'''
#include <chrono>
#include <cstdio>
#include <memory>
#include "lightstep-tracer-common/collector.grpc.pb.h"
#include "recorder/grpc_transporter.h"
using namespace lightstep;
static grpc::Status next_status;
static collector::ReportResponse next_response;
static int calls;
static std::chrono::system_clock::time_point deadline;
namespace lightstep {
namespace collector {
grpc::Status CollectorCall(const grpc::ChannelInterface&, grpc::ClientContext& x,
                           const ReportRequest&, ReportResponse& response) {
  ++calls;
  deadline = x.deadline();
  if (next_status.ok()) response = next_response;
  return next_status;
}
}
}
'''


def gseed(**kw):
    kw['demo'] = GHEAD + kw['demo']
    seed(kind='grpc', property='P38', **kw)


G = 'src/recorder/grpc_transporter/grpc_transporter.cpp'
gseed(id='grpc-whole-seconds',
      edits=[(G, 'context.set_deadline(std::chrono::system_clock::now() + report_timeout_);',
              '''context.set_deadline(std::chrono::system_clock::now() +
                         std::chrono::duration_cast<std::chrono::seconds>(
                             report_timeout_));''')],
      needs='a report_timeout that is no whole number of seconds',
      breaks='The deadline of a report is early: with a timeout below a second every report fails at once.',
      demo=r'''
int main() {
  LightStepTracerOptions o;
  o.report_timeout = std::chrono::milliseconds{1900};
  Logger logger{[](LogLevel, opentracing::string_view) {}};
  auto t = MakeGrpcTransporter(logger, o);
  collector::ReportRequest request;
  collector::ReportResponse response;
  auto before = std::chrono::system_clock::now();
  if (!t->Send(request, response)) return 1;
  return deadline - before >= std::chrono::milliseconds{1899} ? 0 : 1;
}
''')
gseed(id='grpc-retries-unavailable',
      edits=[(G, '''    if (!status.ok()) {
      logger_''', '''    if (status.error_code() == grpc::UNAVAILABLE) {
      // The connection may have been idle for too long: give it another try.
      grpc::ClientContext retry_context;
      retry_context.set_fail_fast(true);
      retry_context.set_deadline(context.deadline());
      status = client_.Report(
          &retry_context,
          dynamic_cast<const collector::ReportRequest&>(request),
          dynamic_cast<collector::ReportResponse*>(&response));
    }
    if (!status.ok()) {
      logger_''')],
      needs='a collector that takes a report and then breaks the connection',
      breaks='The report, which the collector may hold already, is sent twice.',
      demo=r'''
int main() {
  LightStepTracerOptions o;
  Logger logger{[](LogLevel, opentracing::string_view) {}};
  auto t = MakeGrpcTransporter(logger, o);
  collector::ReportRequest request;
  collector::ReportResponse response;
  next_status = grpc::Status{grpc::UNAVAILABLE, "Socket closed"};
  if (t->Send(request, response)) return 1;
  return calls == 1 ? 0 : 1;
}
''')
gseed(id='grpc-response-scratch',
      edits=[(G, '''        dynamic_cast<collector::ReportResponse*>(&response));
    if (!status.ok()) {''', '''        &resp);
    if (resp.errors_size() + resp.warnings_size() + resp.infos_size() > 0) {
      response.CopyFrom(resp);
    }
    if (!status.ok()) {''')],
      needs='a response with a command and no message, such as one that disables the tracer',
      breaks="The collector's command never reaches the recorder.",
      demo=r'''
int main() {
  LightStepTracerOptions o;
  Logger logger{[](LogLevel, opentracing::string_view) {}};
  auto t = MakeGrpcTransporter(logger, o);
  collector::ReportRequest request;
  collector::ReportResponse response;
  next_response.add_infos("hello");
  if (!t->Send(request, response) || response.infos_size() != 1) return 1;
  next_response.Clear();
  next_response.add_commands()->set_disable(true);
  response.Clear();
  if (!t->Send(request, response)) return 1;
  return response.commands_size() == 1 && response.commands(0).disable() ? 0 : 1;
}
''')
