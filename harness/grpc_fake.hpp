// A simulated gRPC call: the real reactor classes (grpcpp headers + rppgrpc) bound to a scripted stream. Every completion
// is a reaction on a thread of its own, as the callback API allows; reference counting of the call follows
// ServerCallbackReaderWriterImpl / ClientCallbackReaderWriterImpl of gRPC 1.51.
#pragma once
#include "common.hpp"

#include <grpcpp/support/client_callback.h>
#include <grpcpp/support/server_callback.h>
#include <rppgrpc/client_reactor.hpp>
#include <rppgrpc/server_reactor.hpp>

// ---- the two pieces of libgrpc/abseil the headers need; the lock is a simulated one
extern "C" void __tsan_mutex_create(void*, unsigned) {}
namespace absl
{
ABSL_NAMESPACE_BEGIN
static std::mutex*& sim_mutex_of(Mutex* m) { return *reinterpret_cast<std::mutex**>(m); }
void Mutex::Lock()
{
    std::mutex* p;
    {
        sim::Quiet q;
        auto&      r = sim_mutex_of(this);
        if (!r)
            r = new std::mutex;
        p = r;
    }
    p->lock();
}
void Mutex::Unlock() { sim_mutex_of(this)->unlock(); }
Mutex::~Mutex()
{
    sim::Quiet q;
    delete sim_mutex_of(this);
}
ABSL_NAMESPACE_END
} // namespace absl
namespace grpc
{
static const Status status_ok{};
static const Status status_cancelled{StatusCode::CANCELLED, ""};
const Status&       Status::OK        = status_ok;
const Status&       Status::CANCELLED = status_cancelled;
namespace internal
{
void ClientReactor::InternalScheduleOnDone(grpc::Status) { sim::fail("harness", "InternalScheduleOnDone"); }
bool ClientReactor::InternalTrailersOnly(const grpc_call*) const { return false; }
} // namespace internal
} // namespace grpc

namespace h
{
struct Req
{
    int v{};
};
struct Res
{
    int v{};
};

enum class Kind
{
    ServerBidi,
    ServerWrite,
    ServerRead,
    ClientBidi,
    ClientWrite,
    ClientRead,
};
inline bool is_server(Kind k) { return k <= Kind::ServerRead; }
inline bool has_write(Kind k) { return k != Kind::ServerRead && k != Kind::ClientRead; }
inline bool has_read(Kind k) { return k != Kind::ServerWrite && k != Kind::ClientWrite; }
inline const char* name_of(Kind k)
{
    static const char* n[] = {"server_bidi", "server_write", "server_read", "client_bidi", "client_write", "client_read"};
    return n[(int)k];
}

struct Plan // drawn before the run
{
    unsigned messages{};      // the peer sends these, then half-closes / finishes
    bool     half_close{};    // (server) the client says it is done after its messages
    int      cancel_at = -1;  // (server) yields before the client cancels; -1: never
    int      end_at    = -1;  // (client) yields before the server ends the call by itself; -1: after WritesDone
    bool     end_ok    = true;
    int      end_code  = 13; // INTERNAL
    unsigned read_yields{}, write_yields{}, finish_yields{};
    int      fail_write = -1; // this write fails (and so do all later ones)
};

// What the transport has seen. All members are only touched in quiet sections.
struct Wire
{
    struct W
    {
        int      v;
        uint64_t b, ack;
        bool     ok;
    };
    struct R
    {
        int      v;
        uint64_t b, e; // OnReadDone begins / returned
        bool     ok;
    };
    struct F
    {
        bool     ok;
        uint64_t at;
        size_t   writes; // handed over before
    };
    std::deque<W> writes;
    std::deque<R> reads;
    std::deque<F> finishes; // Finish or WritesDone
    uint64_t      cancel_b{}, cancel_e{}, done_b{}, done_e{}, ended_at{}, broken_at{};
    bool          status_ok{};
    bool          unheld{}; // the stream has been used when gRPC could have freed it already (see no_hold)
};

struct Call
{
    Kind     kind;
    Plan     plan;
    Wire     wire;
    Threads& th;
    // transport state
    std::atomic<int> refs = 3; // callbacks_outstanding_
    bool     started{}, cancelled{}, ended{}, completion_done{}, handler_done{}, finish_called{}, writes_done{};
    bool     read_out{}, write_out{}, read_parked{};
    bool     back_read{}, back_write{}, back_wd{};
    unsigned next_msg{};
    void*    read_into{};
    bool     strict_hold{};

    Call(Kind k, const Plan& p, Threads& t)
        : kind(k)
        , plan(p)
        , th(t)
    {
    }
    virtual ~Call() = default;
    virtual void on_read(bool ok)      = 0;
    virtual void on_write(bool ok)     = 0;
    virtual void on_writes_done(bool)  {}
    virtual void on_meta(bool)         {}
    virtual void on_cancel()           {}
    virtual void on_done()             = 0;
    virtual void store(void* p, int v) = 0;

    // false: the call is over and the operation is dropped
    bool alive(const char* what)
    {
        if (refs.load())
            return true;
        // a client that only writes has no operation outstanding, so gRPC may end the call at any moment unless a hold is taken
        if (kind == Kind::ClientWrite && !wire.done_e)
        {
            wire.unheld = true;
            if (strict_hold)
                sim::fail("no-hold", "%s: %s without hold while nothing keeps the call alive: gRPC may have freed it", name_of(kind), what);
            return false;
        }
        sim::fail("after-done", "%s: %s on a call that is over", name_of(kind), what);
    }
    // one reference less; the last one ends the call on this thread
    void unref()
    {
        if (refs.fetch_sub(1, std::memory_order_acq_rel) == 1)
            done();
    }
    void done()
    {
        {
            Quiet q;
            wire.done_b = sim::seq();
            sim::log("OnDone");
        }
        on_done();
        Quiet q;
        wire.done_e = sim::seq();
    }
    bool broken() const { return cancelled || ended; }

    // ---- reads
    void read(void* into)
    {
        bool run = false;
        {
            Quiet q;
            alive("Read");
            SIM_CHECK(!read_out, "two-reads", "%s: a read is started while another one is outstanding", name_of(kind));
            read_out  = true;
            read_into = into;
            ++refs;
            if (!started)
                back_read = true;
            else
                run = arm_read();
        }
        if (run)
            read_thread();
    }
    bool arm_read() // quiet; true: a reaction has to be started
    {
        if (next_msg < plan.messages || broken() || (is_server(kind) && plan.half_close))
            return true;
        read_parked = true; // nothing to read yet: completes when the call is over
        return false;
    }
    void read_thread()
    {
        th.spawn([this] {
            sim::yield(1 + plan.read_yields);
            bool   ok;
            size_t i;
            {
                Quiet q;
                // a message that has arrived may be delivered although the call is already over
                ok = next_msg < plan.messages && !cancelled && !(ended && !plan.end_ok);
                int v = 0;
                if (ok)
                    store(read_into, v = (int)++next_msg);
                read_out = false;
                wire.reads.push_back({v, sim::seq(), 0, ok});
                i = wire.reads.size() - 1;
                sim::log("OnReadDone %d ok=%d", v, ok);
            }
            on_read(ok);
            {
                Quiet q;
                wire.reads[i].e = sim::seq();
            }
            unref();
        });
    }
    // ---- writes
    void write(int v, const int* where)
    {
        bool run;
        {
            Quiet q;
            if (!alive("Write"))
                return;
            SIM_CHECK(!write_out, "two-writes", "%s: Write(%d) while another write is outstanding", name_of(kind), v);
            SIM_CHECK(!finish_called && !writes_done, "write-after-finish", "%s: Write(%d) after the stream was closed", name_of(kind), v);
            write_out = true;
            ++refs;
            wire.writes.push_back({v, sim::seq(), 0, false});
            sim::log("Write %d", v);
            written_at = where;
            run        = started;
            back_write = !started;
        }
        if (run)
            write_thread();
    }
    const int* written_at{};
    void       write_thread()
    {
        th.spawn([this] {
            sim::yield(1 + plan.write_yields);
            bool ok;
            {
                Quiet q;
                auto& w = wire.writes.back();
                SIM_CHECK(*written_at == w.v, "buffer-reused", "%s: the message of an outstanding write changed from %d to %d", name_of(kind), w.v, *written_at);
                ok    = !broken() && !(plan.fail_write >= 0 && wire.writes.size() > (size_t)plan.fail_write);
                w.ok  = ok;
                w.ack = sim::seq();
                if (!ok && !wire.broken_at)
                    wire.broken_at = sim::seq();
                write_out = false;
                sim::log("OnWriteDone %d ok=%d", w.v, ok);
            }
            bool fail_call = false;
            on_write(ok);
            {
                Quiet q;
                fail_call = !ok && !broken();
            }
            if (fail_call) // a broken stream is the end of the call as well
                over(false);
            unref();
        });
    }
    // the peer ends the call: client sees a status, server a cancellation
    virtual void over(bool ok) = 0;
};

// ---------------------------------------------------------------------------------------------------------------------
template<typename Base>
struct ServerCall : Call
    , Base
{
    grpc::internal::ServerReactor* r{};
    using Call::Call;
    template<typename Reactor>
    void setup(Reactor* x) // the method handler has returned the reactor
    {
        r = x;
        {
            Quiet q;
            started = true;
        }
        this->BindReactor(x);
        bool c;
        {
            Quiet q;
            handler_done = true;
            c            = cancelled;
        }
        if (c)
            cancel_thread();
        if (plan.cancel_at >= 0)
            th.spawn([this] {
                sim::yield(1 + (unsigned)plan.cancel_at);
                over(false);
            });
        unref();
    }
    void SendInitialMetadata() override
    {
        {
            Quiet q;
            alive("SendInitialMetadata");
            ++refs;
        }
        th.spawn([this] {
            sim::yield();
            on_meta(true);
            unref();
        });
    }
    void Finish(grpc::Status s) override
    {
        {
            Quiet q;
            alive("Finish");
            SIM_CHECK(!finish_called, "finished-twice", "%s: Finish is called again", name_of(kind));
            finish_called = true;
            wire.finishes.push_back({s.ok(), sim::seq(), wire.writes.size()});
            sim::log("Finish ok=%d", s.ok());
        }
        th.spawn([this] {
            sim::yield(1 + plan.finish_yields);
            bool over = false, parked = false;
            {
                Quiet q;
                if (!completion_done)
                {
                    completion_done = over = true;
                    ended                  = true;
                    parked                 = read_parked;
                    read_parked            = false;
                }
            }
            if (parked)
                read_thread();
            if (over)
                unref(); // CompletionOp
            unref();     // Finish
        });
    }
    void over(bool) override // the client has gone
    {
        bool parked, c;
        {
            Quiet q;
            if (completion_done)
                return;
            completion_done = cancelled = true;
            wire.ended_at               = sim::seq();
            sim::log("cancelled");
            parked      = read_parked;
            read_parked = false;
            c           = handler_done;
        }
        if (parked)
            read_thread();
        if (c)
            cancel_thread();
        unref(); // CompletionOp
    }
    void cancel_thread()
    {
        {
            Quiet q;
            ++refs;
        }
        th.spawn([this] {
            sim::yield();
            {
                Quiet q;
                wire.cancel_b = sim::seq();
                sim::log("OnCancel");
            }
            r->OnCancel();
            {
                Quiet q;
                wire.cancel_e = sim::seq();
            }
            unref();
        });
    }
    void on_done() override { r->OnDone(); }

private:
    grpc::internal::ServerReactor* reactor() override { return r; }
    void                           CallOnDone() override {}
};

struct ServerBidi final : ServerCall<grpc::ServerCallbackReaderWriter<Req, Res>>
{
    using ServerCall::ServerCall;
    grpc::ServerBidiReactor<Req, Res>* x() { return static_cast<grpc::ServerBidiReactor<Req, Res>*>(r); }
    void Read(Req* m) override { read(m); }
    void Write(const Res* m, grpc::WriteOptions) override { write(m->v, &m->v); }
    void WriteAndFinish(const Res*, grpc::WriteOptions, grpc::Status) override { sim::fail("harness", "WriteAndFinish"); }
    void store(void* p, int v) override { static_cast<Req*>(p)->v = v; }
    void on_read(bool ok) override { x()->OnReadDone(ok); }
    void on_write(bool ok) override { x()->OnWriteDone(ok); }
};
struct ServerWrite final : ServerCall<grpc::ServerCallbackWriter<Res>>
{
    using ServerCall::ServerCall;
    grpc::ServerWriteReactor<Res>* x() { return static_cast<grpc::ServerWriteReactor<Res>*>(r); }
    void Write(const Res* m, grpc::WriteOptions) override { write(m->v, &m->v); }
    void WriteAndFinish(const Res*, grpc::WriteOptions, grpc::Status) override { sim::fail("harness", "WriteAndFinish"); }
    void store(void*, int) override {}
    void on_read(bool) override {}
    void on_write(bool ok) override { x()->OnWriteDone(ok); }
};
struct ServerRead final : ServerCall<grpc::ServerCallbackReader<Req>>
{
    using ServerCall::ServerCall;
    grpc::ServerReadReactor<Req>* x() { return static_cast<grpc::ServerReadReactor<Req>*>(r); }
    void Read(Req* m) override { read(m); }
    void store(void* p, int v) override { static_cast<Req*>(p)->v = v; }
    void on_read(bool ok) override { x()->OnReadDone(ok); }
    void on_write(bool) override {}
};

// ---------------------------------------------------------------------------------------------------------------------
template<typename Base, typename Reactor>
struct ClientCall : Call
    , Base
{
    Reactor*     r{};
    grpc::Status status{};
    using Call::Call;
    void setup(Reactor* x)
    {
        r = x;
        this->BindReactor(x);
    }
    void StartCall() override
    {
        bool rd, wr, wd;
        {
            Quiet q;
            alive("StartCall");
            started = true;
            rd      = back_read && arm_read();
            wr      = back_write;
            wd      = back_wd;
        }
        th.spawn([this] {
            sim::yield();
            on_meta(true);
            unref();
        });
        if (rd)
            read_thread();
        if (wr)
            write_thread();
        if (wd)
            writes_done_thread();
        if (plan.end_at >= 0)
            th.spawn([this] {
                sim::yield(1 + (unsigned)plan.end_at);
                over(plan.end_ok);
            });
        unref_from_outside();
    }
    // OnDone goes to another thread when the last reference is not dropped by a reaction
    void unref_from_outside()
    {
        if (refs.fetch_sub(1, std::memory_order_acq_rel) == 1)
            th.spawn([this] { done(); });
    }
    void over(bool ok) override
    {
        bool parked;
        {
            Quiet q;
            if (ended)
                return;
            ended          = true;
            wire.ended_at  = sim::seq();
            wire.status_ok = ok;
            parked         = read_parked;
            read_parked    = false;
            sim::log("server ends the call ok=%d", ok);
        }
        if (!ok)
        {
            status = grpc::Status{(grpc::StatusCode)plan.end_code, "e#7"};
        }
        if (parked)
            read_thread();
        th.spawn([this] {
            sim::yield(1 + plan.finish_yields);
            unref();
        });
    }
    void writes_done_called()
    {
        bool run;
        {
            Quiet q;
            if (!alive("WritesDone"))
                return;
            SIM_CHECK(!writes_done, "finished-twice", "%s: WritesDone is called again", name_of(kind));
            SIM_CHECK(!write_out, "finish-too-early", "%s: WritesDone while a write is outstanding", name_of(kind));
            writes_done = true;
            ++refs;
            wire.finishes.push_back({true, sim::seq(), wire.writes.size()});
            sim::log("WritesDone");
            run     = started;
            back_wd = !started;
        }
        if (run)
            writes_done_thread();
    }
    void writes_done_thread()
    {
        th.spawn([this] {
            sim::yield(1 + plan.write_yields);
            on_writes_done(true);
            bool end;
            {
                Quiet q;
                end = plan.end_at < 0 && !ended;
            }
            if (end)
                over(plan.end_ok);
            unref();
        });
    }
    void AddHold(int n) override
    {
        Quiet q;
        refs += n;
    }
    void RemoveHold() override { unref_from_outside(); }
    void on_done() override { r->OnDone(status); }
};
struct ClientBidi final : ClientCall<grpc::ClientCallbackReaderWriter<Req, Res>, grpc::ClientBidiReactor<Req, Res>>
{
    using ClientCall::ClientCall;
    void Read(Res* m) override { read(m); }
    void Write(const Req* m, grpc::WriteOptions) override { write(m->v, &m->v); }
    void WritesDone() override { writes_done_called(); }
    void store(void* p, int v) override { static_cast<Res*>(p)->v = v; }
    void on_read(bool ok) override { r->OnReadDone(ok); }
    void on_write(bool ok) override { r->OnWriteDone(ok); }
    void on_writes_done(bool ok) override { r->OnWritesDoneDone(ok); }
    void on_meta(bool ok) override { r->OnReadInitialMetadataDone(ok); }
};
struct ClientWrite final : ClientCall<grpc::ClientCallbackWriter<Req>, grpc::ClientWriteReactor<Req>>
{
    using ClientCall::ClientCall;
    void Write(const Req* m, grpc::WriteOptions) override { write(m->v, &m->v); }
    void WritesDone() override { writes_done_called(); }
    void store(void*, int) override {}
    void on_read(bool) override {}
    void on_write(bool ok) override { r->OnWriteDone(ok); }
    void on_writes_done(bool ok) override { r->OnWritesDoneDone(ok); }
    void on_meta(bool ok) override { r->OnReadInitialMetadataDone(ok); }
};
struct ClientRead final : ClientCall<grpc::ClientCallbackReader<Res>, grpc::ClientReadReactor<Res>>
{
    using ClientCall::ClientCall;
    void Read(Res* m) override { read(m); }
    void store(void* p, int v) override { static_cast<Res*>(p)->v = v; }
    void on_read(bool ok) override { r->OnReadDone(ok); }
    void on_write(bool) override {}
    void on_meta(bool ok) override { r->OnReadInitialMetadataDone(ok); }
};
} // namespace h
