// REAL: rppgrpc reactors, grpcpp callback reactor classes (headers), rpp subjects and observers
// STUB: gRPC core and transport (scripted stream with the reference counting and completion rules of gRPC 1.51), absl::Mutex (simulated mutex)
// gRPC reactors: the write side.
#include "grpc_call.hpp"
using namespace h;

static void one(Kind k)
{
    Session s{k};
    s.run();
    s.check_writes();
}
SIM_SCENARIO(server_bidi, 3) { one(Kind::ServerBidi); }
SIM_SCENARIO(server_write, 3) { one(Kind::ServerWrite); }
SIM_SCENARIO(client_bidi, 3) { one(Kind::ClientBidi); }
SIM_SCENARIO(client_write, 3) { one(Kind::ClientWrite); }
// gRPC demands a hold for operations started from outside of reactions
SIM_SCENARIO(client_write_no_hold, 1)
{
    Session s{Kind::ClientWrite};
    s.strict_hold = true;
    s.run();
    s.check_writes();
}
