// Makes the compiler describe the layout of the public option and timer types.
#include "include/service_control_client.h"
namespace verif_types {
using namespace google::service_control_client;
struct Timer : public PeriodicTimer { void Stop() override {} };
PeriodicTimer* timer() { return new Timer; }
void stop(PeriodicTimer* t) { t->Stop(); }
ServiceControlClientOptions* options() { return new ServiceControlClientOptions; }
ServiceControlClientOptions* options3(const CheckAggregationOptions& c, const QuotaAggregationOptions& q, const ReportAggregationOptions& r) { return new ServiceControlClientOptions(c, q, r); }
CheckAggregationOptions* check0() { return new CheckAggregationOptions; }
QuotaAggregationOptions* quota0() { return new QuotaAggregationOptions; }
ReportAggregationOptions* report0() { return new ReportAggregationOptions; }
CheckAggregationOptions* check3(int a, int b, int c) { return new CheckAggregationOptions(a, b, c); }
QuotaAggregationOptions* quota3(int a, int b, int c) { return new QuotaAggregationOptions(a, b, c); }
QuotaAggregationOptions* quota2(int a, int b) { return new QuotaAggregationOptions(a, b); }
ReportAggregationOptions* report2(int a, int b) { return new ReportAggregationOptions(a, b); }
Statistics* stats() { return new Statistics; }
}
#include "sample/transport/http_transport.h"
namespace verif_types {
google::service_control_client::sample::transport::LibCurlTransport* transport(const std::string& url, const std::string& service, const std::string& token) { return new google::service_control_client::sample::transport::LibCurlTransport(url, service, token); }
}
