// REAL: rppgrpc reactors, grpcpp callback reactor classes (headers), rpp subjects and observers
// STUB: gRPC core and transport (scripted stream with the reference counting and completion rules of gRPC 1.51), absl::Mutex (simulated mutex)
// gRPC reactors: the read side and the life of the reactor.
#include "grpc_call.hpp"
using namespace h;

static void one(Kind k)
{
    Session s{k};
    s.run();
    s.check_reads();
}
SIM_SCENARIO(server_bidi, 3) { one(Kind::ServerBidi); }
SIM_SCENARIO(server_write, 1) { one(Kind::ServerWrite); }
SIM_SCENARIO(server_read, 3) { one(Kind::ServerRead); }
SIM_SCENARIO(client_bidi, 3) { one(Kind::ClientBidi); }
SIM_SCENARIO(client_write, 1) { one(Kind::ClientWrite); }
SIM_SCENARIO(client_read, 3) { one(Kind::ClientRead); }
