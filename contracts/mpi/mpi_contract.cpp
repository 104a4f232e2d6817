// Assumed contract of MPI, executable: ranks are processes, messages of one pair of ranks, communicator and tag
// arrive in order; a send is buffered; wrong use (truncation, mismatched collectives, bad arguments) ends the rank.
#include "mpi.h"
#include "mpi_contract.h"
#include "Logger.h"
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <deque>
#include <map>
#include <poll.h>
#include <sys/socket.h>
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>
namespace {
struct Head { int context, comm, tag, kind; };
struct Msg { Head h; std::vector<char> b; };
struct Req { bool send; const void *out; void *in; std::size_t bytes; int peer, tag, comm; bool done; };
int me = -1, n = 0;
MpiSchedule sched;
std::vector<int> fd;
std::vector<std::deque<Msg>> queue_;
std::map<int, Req> reqs;
std::map<int, MPI_User_function *> ops;
int nextReq = 1, nextOp = 100, nextComm = 10;
std::map<int, int> comms;  // communicator -> calls of collectives so far
std::string reason;
int resultFd = -1;
[[noreturn]] void stop(const std::string &why) {
    std::string t = "!" + why;
    if (resultFd >= 0 && write(resultFd, t.data(), t.size()) < 0) {}
    _exit(43);
}
int size(MPI_Datatype t) { if (t <= 0 || (t & 255) == 0) stop("MPI: invalid datatype"); return t & 255; }
int klass(MPI_Datatype t) { return t / 256; }
void check(MPI_Comm c) { if (me < 0) stop("MPI: used before it is initialised"); if (c == MPI_COMM_SELF || (c != MPI_COMM_WORLD && !comms.count(c))) stop("MPI: invalid communicator"); }
void drain(int timeout) {
    std::vector<pollfd> p;
    Head h;
    for (int i = 0; i < n; ++i) p.push_back({i == me ? -1 : fd[i], POLLIN, 0});
    if (poll(p.data(), p.size(), timeout) <= 0) return;
    static std::vector<char> buf(1 << 20);
    for (int i = 0; i < n; ++i) while (i != me) {
        ssize_t k = recv(fd[i], buf.data(), buf.size(), MSG_DONTWAIT);
        if (k < (ssize_t)sizeof h) { if (k == 0) fd[i] = -1; break; }
        std::memcpy(&h, buf.data(), sizeof h);
        queue_[i].push_back({h, std::vector<char>(buf.data() + sizeof h, buf.data() + k)});
    }
}
void put(int to, Head h, const void *data, std::size_t bytes) {
    if (bytes && data == nullptr) stop("MPI: null buffer");
    Msg m{h, std::vector<char>((const char *)data, (const char *)data + bytes)};
    if (to == me) { queue_[me].push_back(m); return; }
    std::vector<char> raw((char *)&h, (char *)&h + sizeof h);
    raw.insert(raw.end(), m.b.begin(), m.b.end());
    while (send(fd[to], raw.data(), raw.size(), MSG_DONTWAIT | MSG_NOSIGNAL) < 0) {
        if (errno != EAGAIN && errno != ENOBUFS) { if (errno == EPIPE || errno == ECONNRESET) return; stop("MPI: message lost"); }
        drain(1);
    }
}
void slow() { if (sched.slow == me) usleep(300); }
void flush() { slow(); for (auto &r : reqs) if (r.second.send && !r.second.done) { put(r.second.peer, {0, r.second.comm, r.second.tag, 0}, r.second.out, r.second.bytes); r.second.done = true; } }
bool matches(const Msg &m, int context, int comm, int tag) { return m.h.context == context && m.h.comm == comm && (tag == MPI_ANY_TAG || m.h.tag == tag); }
// the first matching message; waits for it
std::pair<int, std::size_t> find(int source, int tag, int comm, int context) {
    for (bool first = true;; first = false) {
        if (first && context == 0) drain(0);
        for (int k = 0; k < n; ++k) {
            int i = sched.order ? n - 1 - k : k;
            if (source != MPI_ANY_SOURCE && i != source) continue;
            for (std::size_t j = 0; j < queue_[i].size(); ++j) if (matches(queue_[i][j], context, comm, tag)) return {i, j};
        }
        drain(1000);
    }
}
Msg take(std::pair<int, std::size_t> at) { Msg m = queue_[at.first][at.second]; queue_[at.first].erase(queue_[at.first].begin() + at.second); return m; }
void receive(void *buf, std::size_t bytes, int source, int tag, int comm, MPI_Status *s) {
    flush();
    auto at = find(source, tag, comm, 0);
    Msg m = take(at);
    if (m.b.size() > bytes) stop("MPI: message truncated");
    if (m.b.size()) std::memcpy(buf, m.b.data(), m.b.size());
    if (s) *s = {at.first, m.h.tag, 0, (int)m.b.size()};
}
// every rank's contribution
std::vector<std::vector<char>> gather(MPI_Comm c, int kind, const std::vector<std::vector<char>> &mine) {
    check(c);
    flush();
    int call = ++comms[c];
    std::vector<std::vector<char>> r(n);
    for (int i = 0; i < n; ++i) if (i != me) put(i, {1, c, call, kind}, mine[i].data(), mine[i].size());
    r[me] = mine[me];
    for (int i = 0; i < n; ++i) if (i != me) {
        Msg m = take(find(i, call, c, 1));
        if (m.h.kind != kind) stop("MPI: ranks call different collective operations");
        r[i] = m.b;
    }
    return r;
}
std::vector<std::vector<char>> same(const void *p, std::size_t bytes) {
    std::vector<char> v((const char *)p, (const char *)p + bytes);
    return std::vector<std::vector<char>>(n, v);
}
template <class T> void apply(MPI_Op op, const T *in, T *io, int k) {
    for (int i = 0; i < k; ++i) switch (op) {
        case MPI_MAX: io[i] = in[i] > io[i] ? in[i] : io[i]; break;
        case MPI_MIN: io[i] = in[i] < io[i] ? in[i] : io[i]; break;
        case MPI_SUM: io[i] = in[i] + io[i]; break;
        case MPI_LAND: io[i] = in[i] && io[i]; break;
        case MPI_LOR: io[i] = in[i] || io[i]; break;
        default: stop("MPI: unknown operation");
    }
}
void combine(MPI_Op op, MPI_Datatype t, int count, std::vector<char> &in, std::vector<char> &io) {
    if (ops.count(op)) { ops[op](in.data(), io.data(), &count, &t); return; }
    if (op >= 100) stop("MPI: unknown operation");
    if (klass(t) == MPI_TYPECLASS_REAL && size(t) == 8) apply(op, (double *)in.data(), (double *)io.data(), count);
    else if (klass(t) == MPI_TYPECLASS_COMPLEX && size(t) == 16 && op == MPI_SUM) apply(op, (double *)in.data(), (double *)io.data(), 2 * count);
    else if (klass(t) == MPI_TYPECLASS_INTEGER && size(t) == 8) apply(op, (long *)in.data(), (long *)io.data(), count);
    else if (klass(t) == MPI_TYPECLASS_INTEGER && size(t) == 4) apply(op, (int *)in.data(), (int *)io.data(), count);
    else if (klass(t) == MPI_TYPECLASS_INTEGER && size(t) == 1) apply(op, in.data(), io.data(), count);
    else stop("MPI: operation on an unknown type");
}
// ranks [0, upto) combined in order; empty for upto == 0
std::vector<char> reduce(MPI_Comm c, int kind, const void *in, int count, MPI_Datatype t, MPI_Op op, int upto) {
    auto all = gather(c, kind, same(in, std::size_t(count) * size(t)));
    for (auto &v : all) if (v.size() != all[me].size()) stop("MPI: ranks reduce different numbers of values");
    std::vector<char> r;
    for (int i = 0; i < upto; ++i) { if (i == 0) r = all[0]; else { std::vector<char> b = all[i]; combine(op, t, count, r, b); r = b; } }
    return r;
}
}  // namespace
extern "C" {
int MPI_Init(int *, char ***) { return 0; }
int MPI_Initialized(int *f) { *f = me >= 0; return 0; }
int MPI_Finalize(void) { return 0; }
int MPI_Finalized(int *f) { *f = 0; return 0; }
int MPI_Abort(MPI_Comm, int) { stop("MPI_Abort"); }
int MPI_Comm_rank(MPI_Comm c, int *r) { check(c); *r = me; return 0; }
int MPI_Comm_size(MPI_Comm c, int *r) { check(c); *r = n; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm c, MPI_Errhandler) { check(c); return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *d) { int z = 0; gather(c, 'd', same(&z, 4)); *d = nextComm++; comms[*d] = 0; return 0; }
int MPI_Type_match_size(int k, int s, MPI_Datatype *t) { *t = k * 256 + s; return 0; }
int MPI_Op_create(MPI_User_function *f, int, MPI_Op *op) { *op = nextOp++; ops[*op] = f; return 0; }
int MPI_Op_free(MPI_Op *op) { ops.erase(*op); *op = 0; return 0; }
int MPI_Barrier(MPI_Comm c) { int z = 0; gather(c, 'b', same(&z, 4)); return 0; }
int MPI_Bcast(void *b, int count, MPI_Datatype t, int root, MPI_Comm c) {
    std::size_t k = std::size_t(count) * size(t);
    auto all = gather(c, 'B' + 256 * root, same(b, k));
    if (all[root].size() != k) stop("MPI: ranks broadcast different numbers of values");
    if (k) std::memcpy(b, all[root].data(), k);
    return 0;
}
int MPI_Reduce(const void *in, void *out, int count, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
    if (in == MPI_IN_PLACE) { if (me != root) stop("MPI: reduction in place at another rank than the root"); in = out; }
    auto r = reduce(c, 'R' + 256 * root, in, count, t, op, n);
    if (me == root && count) std::memcpy(out, r.data(), r.size());
    return 0;
}
int MPI_Allreduce(const void *in, void *out, int count, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    auto r = reduce(c, 'r', in == MPI_IN_PLACE ? out : in, count, t, op, n);
    if (count) std::memcpy(out, r.data(), r.size());
    return 0;
}
int MPI_Scan(const void *in, void *out, int count, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    auto r = reduce(c, 's', in == MPI_IN_PLACE ? out : in, count, t, op, me + 1);
    if (count) std::memcpy(out, r.data(), r.size());
    return 0;
}
int MPI_Exscan(const void *in, void *out, int count, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    auto r = reduce(c, 'x', in == MPI_IN_PLACE ? out : in, count, t, op, me);
    if (r.size()) std::memcpy(out, r.data(), r.size());
    return 0;
}
int MPI_Allgatherv(const void *in, int k, MPI_Datatype t, void *out, const int *counts, const int *displs, MPI_Datatype ot, MPI_Comm c) {
    std::size_t s = size(ot);
    const void *p = in;
    std::size_t bytes = in == MPI_IN_PLACE ? counts[me] * s : std::size_t(k) * size(t);
    if (in == MPI_IN_PLACE) p = (char *)out + displs[me] * s;
    auto all = gather(c, 'v', same(p, bytes));
    for (int i = 0; i < n; ++i) {
        if (all[i].size() != counts[i] * s) stop("MPI: ranks gather different numbers of values");
        if (all[i].size()) std::memcpy((char *)out + displs[i] * s, all[i].data(), all[i].size());
    }
    return 0;
}
int MPI_Allgather(const void *in, int k, MPI_Datatype t, void *out, int count, MPI_Datatype ot, MPI_Comm c) {
    std::vector<int> counts(n, count), displs;
    for (int i = 0; i < n; ++i) displs.push_back(i * count);
    return MPI_Allgatherv(in, k, t, out, counts.data(), displs.data(), ot, c);
}
int MPI_Gather(const void *in, int k, MPI_Datatype t, void *out, int count, MPI_Datatype ot, int root, MPI_Comm c) {
    const void *p = in == MPI_IN_PLACE ? (char *)out + std::size_t(me) * count * size(ot) : in;
    auto all = gather(c, 'g' + 256 * root, same(p, in == MPI_IN_PLACE ? std::size_t(count) * size(ot) : std::size_t(k) * size(t)));
    if (me == root) for (int i = 0; i < n; ++i) {
        if (all[i].size() != std::size_t(count) * size(ot)) stop("MPI: ranks gather different numbers of values");
        if (all[i].size()) std::memcpy((char *)out + i * all[i].size(), all[i].data(), all[i].size());
    }
    return 0;
}
int MPI_Alltoallv(const void *in, const int *ic, const int *id, MPI_Datatype t, void *out, const int *oc, const int *od, MPI_Datatype ot, MPI_Comm c) {
    std::vector<std::vector<char>> mine(n);
    for (int i = 0; i < n; ++i) { const char *p = (const char *)in + std::size_t(id[i]) * size(t); mine[i].assign(p, p + std::size_t(ic[i]) * size(t)); }
    auto all = gather(c, 'a', mine);
    for (int i = 0; i < n; ++i) {
        if (all[i].size() != std::size_t(oc[i]) * size(ot)) stop("MPI: ranks exchange different numbers of values");
        if (all[i].size()) std::memcpy((char *)out + std::size_t(od[i]) * size(ot), all[i].data(), all[i].size());
    }
    return 0;
}
int MPI_Alltoall(const void *in, int k, MPI_Datatype t, void *out, int count, MPI_Datatype ot, MPI_Comm c) {
    std::vector<int> a(n, k), ad, b(n, count), bd;
    for (int i = 0; i < n; ++i) { ad.push_back(i * k); bd.push_back(i * count); }
    return MPI_Alltoallv(in, a.data(), ad.data(), t, out, b.data(), bd.data(), ot, c);
}
int MPI_Isend(const void *b, int count, MPI_Datatype t, int to, int tag, MPI_Comm c, MPI_Request *r) {
    check(c);
    slow();
    if (to < 0 || to >= n || tag < 0 || count < 0) stop("MPI: invalid destination, tag or count");
    *r = nextReq++;
    reqs[*r] = {true, b, nullptr, std::size_t(count) * size(t), to, tag, c, false};
    if (!sched.late) flush();
    return 0;
}
int MPI_Irecv(void *b, int count, MPI_Datatype t, int from, int tag, MPI_Comm c, MPI_Request *r) {
    check(c);
    if (from < MPI_ANY_SOURCE || from >= n || count < 0) stop("MPI: invalid source or count");
    *r = nextReq++;
    reqs[*r] = {false, nullptr, b, std::size_t(count) * size(t), from, tag, c, false};
    return 0;
}
int MPI_Wait(MPI_Request *r, MPI_Status *s) {
    flush();
    if (*r == MPI_REQUEST_NULL) return 0;
    if (!reqs.count(*r)) stop("MPI: wait for an unknown request");
    // receives are matched in the order they were posted
    for (auto &q : reqs) if (!q.second.send && !q.second.done && q.first <= *r) {
        receive(q.second.in, q.second.bytes, q.second.peer, q.second.tag, q.second.comm, q.first == *r ? s : nullptr);
        q.second.done = true;
    }
    reqs.erase(*r);
    *r = MPI_REQUEST_NULL;
    return 0;
}
int MPI_Waitall(int k, MPI_Request *r, MPI_Status *s) { for (int i = 0; i < k; ++i) MPI_Wait(r + i, s ? s + i : nullptr); return 0; }
int MPI_Send(const void *b, int count, MPI_Datatype t, int to, int tag, MPI_Comm c) { MPI_Request r; MPI_Isend(b, count, t, to, tag, c, &r); return MPI_Wait(&r, nullptr); }
int MPI_Recv(void *b, int count, MPI_Datatype t, int from, int tag, MPI_Comm c, MPI_Status *s) {
    check(c);
    receive(b, std::size_t(count) * size(t), from, tag, c, s);
    return 0;
}
int MPI_Probe(int from, int tag, MPI_Comm c, MPI_Status *s) {
    check(c);
    flush();
    if (from == MPI_ANY_SOURCE && sched.order) drain(1);
    auto at = find(from, tag, c, 0);
    const Msg &m = queue_[at.first][at.second];
    if (s) *s = {at.first, m.h.tag, 0, (int)m.b.size()};
    return 0;
}
int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *count) { *count = s->hpv_bytes / size(t); return 0; }
}
std::vector<std::string> mpiRun(std::size_t np, const MpiSchedule &s, std::function<std::string(std::size_t)> f, std::string &failed) {
    std::vector<std::vector<int>> pair(np, std::vector<int>(np, -1));
    for (std::size_t i = 0; i < np; ++i) for (std::size_t j = 0; j < i; ++j) {
        int p[2];
        if (socketpair(AF_UNIX, SOCK_SEQPACKET, 0, p)) { failed = "no sockets"; return {}; }
        pair[i][j] = p[0];
        pair[j][i] = p[1];
    }
    std::vector<int> out(np);
    std::vector<pid_t> pid(np);
    for (std::size_t i = 0; i < np; ++i) {
        // results go to unnamed files
        const char *base = std::getenv("TMPDIR");
        std::string t = std::string(base ? base : "/tmp") + "/hpvrank.XXXXXX";
        std::vector<char> b(t.begin(), t.end());
        b.push_back(0);
        out[i] = mkstemp(b.data());
        unlink(b.data());
        pid[i] = fork();
        if (pid[i] == 0) {
            alarm(60);
            for (std::size_t a = 0; a < np; ++a) for (std::size_t c = 0; c < np; ++c) if (a != i && pair[a][c] >= 0) close(pair[a][c]);
            if (!std::freopen("/dev/null", "w", stdout) || !std::freopen("/dev/null", "w", stderr)) _exit(3);
            resultFd = out[i];
            static hpgem::LoggerOutput lo;
            lo.onFatal = lo.onError = lo.onFail = [](std::string, std::string m) { stop("rejected: " + m); };
            lo.onWarn = lo.onInfo = lo.onVerbose = lo.onDebug = [](std::string, std::string) {};
            hpgem::loggerOutput = &lo;
            me = int(i);
            n = int(np);
            sched = s;
            fd = pair[i];
            queue_.resize(np);
            comms[MPI_COMM_WORLD] = 0;
            std::string r;
            try { r = f(i); } catch (...) { stop("exception"); }
            drain(0);
            for (auto &q : queue_) for (auto &m : q) if (m.h.context == 0) stop("a message was never received");
            r = "=" + r;
            for (std::size_t k = 0; k < r.size();) { ssize_t w = write(resultFd, r.data() + k, r.size() - k); if (w <= 0) _exit(4); k += w; }
            _exit(0);
        }
    }
    for (auto &v : pair) for (int d : v) if (d >= 0) close(d);
    std::vector<std::string> r(np);
    bool over = false;
    std::vector<bool> done(np, false);
    std::string why;
    for (std::size_t finished = 0; finished < np;) {
        for (std::size_t i = 0; i < np; ++i) if (!done[i]) {
            int st = 0;
            pid_t p = waitpid(pid[i], &st, WNOHANG);
            if (p == 0) continue;
            done[i] = true;
            ++finished;
            if (p < 0) continue;
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && !over) {
                over = true;
                char b[400];
                ssize_t k = pread(out[i], b, sizeof b - 1, 0);
                b[k > 0 ? k : 0] = 0;
                why = "rank " + std::to_string(i) + ": " + (k > 0 ? b : WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "does not end" : "crashed");
                for (std::size_t j = 0; j < np; ++j) if (!done[j]) kill(pid[j], SIGKILL);
            }
        }
        if (finished < np) usleep(500);
    }
    failed = why;
    for (std::size_t i = 0; i < np; ++i) {
        char b[65536];
        ssize_t k;
        off_t at = 0;
        while ((k = pread(out[i], b, sizeof b, at)) > 0) { r[i].append(b, k); at += k; }
        close(out[i]);
        if (!r[i].empty() && r[i][0] == '=') r[i].erase(0, 1); else r[i].clear();
    }
    return r;
}
