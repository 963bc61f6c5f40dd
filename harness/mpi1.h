// The MPI calls of the library, answered within one process (both in the symbolic run and in the native replay).
// Several ranks are played one after another by changing hmpi::rank; messages wait in mailboxes.
#pragma once
#include <mpi.h>
#include <cstdint>
#include <cstring>
#include <vector>
namespace hmpi {
struct Msg { int from, to, tag, count; const void* send; void* recv; std::size_t bytes; };
inline int& rank() { static int r = 0; return r; }
inline int& size() { static int s = 1; return s; }
inline std::vector<Msg>& sent() { static std::vector<Msg> v; return v; }
inline std::vector<Msg>& wanted() { static std::vector<Msg> v; return v; }
inline std::size_t& typeBytes() { static std::size_t b = 8; return b; }
// collective operations over several ranks played in turn: the others hand in (1), the root reduces and broadcasts (2), the others take (3)
inline int& phase() { static int p = 0; return p; }
inline std::vector<std::vector<double>>& handed() { static std::vector<std::vector<double>> v; return v; }
inline std::vector<std::vector<double>>& given() { static std::vector<std::vector<double>> v; return v; }
inline std::size_t& call() { static std::size_t c = 0; return c; }
inline std::size_t& bcall() { static std::size_t c = 0; return c; }
inline MPI_User_function*& userOp() { static MPI_User_function* f = nullptr; return f; }
inline void enter(int p) { phase() = p; call() = 0; bcall() = 0; if (p == 1) { handed().clear(); given().clear(); } }
// Ranks as coroutines: a rank runs until it needs what another has not supplied yet, then it is abandoned (Blocked) and
// run again from the start later; what it contributed before is kept. The order of arrival is chosen by the caller.
struct Blocked {};
struct World {
    bool on = false;
    struct Coll { std::vector<std::vector<unsigned char>> part; std::vector<bool> here; };
    struct Mail { std::vector<std::uint64_t> data; int to, tag; bool taken = false; };
    std::vector<Coll> colls;
    std::vector<std::vector<Mail>> mail;                      // by sender, in order
    std::vector<std::vector<std::pair<int, std::size_t>>> got;  // by receiver: which mail, in order
    std::vector<std::size_t> ncoll, nsend, nrecv;
    std::size_t progress = 0;
    bool fits = true;  // the sizes on both ends of collective operations agree
    std::size_t (*pick)(std::size_t) = nullptr;  // which of the messages that may arrive next does
    void open(std::size_t n) { *this = World(); on = true; mail.resize(n); got.resize(n); ncoll.assign(n, 0); nsend.assign(n, 0); nrecv.assign(n, 0); }
    Coll& collective(const void* b, std::size_t bytes) {
        std::size_t me = rank(), k = ncoll[me]++;
        if (k >= colls.size()) { colls.push_back({}); colls.back().part.resize(size()); colls.back().here.assign(size(), false); }
        Coll& c = colls[k];
        if (!c.here[me]) { c.here[me] = true; ++progress; c.part[me].assign(static_cast<const unsigned char*>(b), static_cast<const unsigned char*>(b) + bytes); }
        for (std::size_t p = 0; p < c.here.size(); ++p) if (!c.here[p]) throw Blocked();
        return c;
    }
    Mail& next() {
        std::size_t me = rank(), k = nrecv[me];
        if (k >= got[me].size()) {
            std::vector<std::pair<int, std::size_t>> may;
            for (std::size_t p = 0; p < mail.size(); ++p) for (std::size_t j = 0; j < mail[p].size(); ++j) if (mail[p][j].to == static_cast<int>(me) && !mail[p][j].taken) { may.push_back({static_cast<int>(p), j}); break; }
            if (may.empty()) throw Blocked();
            std::size_t c = may.size() > 1 && pick ? pick(may.size()) : 0;
            got[me].push_back(may[c]);
            mail[may[c].first][may[c].second].taken = true;
            ++progress;
        }
        return mail[got[me][k].first][got[me][k].second];
    }
};
inline World& world() { static World w; return w; }
inline std::size_t bytesOf(MPI_Datatype t) { return reinterpret_cast<std::size_t>(t); }
}  // namespace hmpi
extern "C" {
int MPI_Initialized(int* f) { *f = 1; return 0; }
int MPI_Finalized(int* f) { *f = 0; return 0; }
int MPI_Comm_rank(MPI_Comm, int* r) { *r = hmpi::rank(); return 0; }
int MPI_Comm_size(MPI_Comm, int* s) { *s = hmpi::size(); return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* d) { *d = c; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Type_match_size(int, int bytes, MPI_Datatype* t) { *t = reinterpret_cast<MPI_Datatype>(static_cast<std::size_t>(bytes)); return 0; }
int MPI_Barrier(MPI_Comm) { if (hmpi::world().on) hmpi::world().collective("", 0); return 0; }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int, MPI_Comm) {
    double* d = static_cast<double*>(b);
    std::size_t k = n * reinterpret_cast<std::size_t>(t) / sizeof(double);
    if (hmpi::phase() == 2) hmpi::given().push_back(std::vector<double>(d, d + k));
    if (hmpi::phase() == 3) { auto& v = hmpi::given()[hmpi::bcall()++]; for (std::size_t i = 0; i < k; ++i) d[i] = v[i]; }
    return 0;
}
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm) {
    std::size_t k = n * reinterpret_cast<std::size_t>(t) / sizeof(double);
    if (hmpi::phase() == 1) { const double* d = static_cast<const double*>(s); hmpi::handed().push_back(std::vector<double>(d, d + k)); }
    if (hmpi::phase() == 2) {
        double* d = static_cast<double*>(r);
        auto v = hmpi::handed()[hmpi::call()++];
        if (op == MPI_SUM) { for (std::size_t i = 0; i < k; ++i) d[i] += v[i]; }
        else if (hmpi::userOp()) hmpi::userOp()(v.data(), d, &n, &t);
    }
    if (hmpi::phase()) return 0;
    if (s != MPI_IN_PLACE && r) std::memcpy(r, s, n * reinterpret_cast<std::size_t>(t));
    return 0;
}
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm) {
    if (hmpi::world().on) {  // integers only
        auto& c = hmpi::world().collective(s == MPI_IN_PLACE ? r : s, n * hmpi::bytesOf(t));
        std::size_t w = hmpi::bytesOf(t);
        for (int i = 0; i < n; ++i) {
            std::uint64_t v = 0;
            for (std::size_t p = 0; p < c.part.size(); ++p) {
                std::uint64_t x = 0;
                std::memcpy(&x, c.part[p].data() + w * i, w);
                v = op == MPI_LOR ? (v || x) : p == 0 ? x : op == MPI_MAX ? (x > v ? x : v) : op == MPI_MIN ? (x < v ? x : v) : v + x;
            }
            std::memcpy(static_cast<unsigned char*>(r) + w * i, &v, w);
        }
        return 0;
    }
    if (s != MPI_IN_PLACE && r) std::memcpy(r, s, n * reinterpret_cast<std::size_t>(t));
    return 0;
}
int MPI_Allgather(const void* s, int n, MPI_Datatype t, void* r, int rn, MPI_Datatype rt, MPI_Comm) {
    if (hmpi::world().on) {
        std::size_t b = rn * hmpi::bytesOf(rt);
        unsigned char* d = static_cast<unsigned char*>(r);
        auto& c = hmpi::world().collective(s == MPI_IN_PLACE ? d + b * hmpi::rank() : s, b);
        for (std::size_t p = 0; p < c.part.size(); ++p) std::memcpy(d + b * p, c.part[p].data(), b);
        return 0;
    }
    if (s != MPI_IN_PLACE && r) std::memcpy(r, s, n * reinterpret_cast<std::size_t>(t));
    return 0;
}
int MPI_Allgatherv(const void* s, int n, MPI_Datatype t, void* r, const int* rn, const int* rd, MPI_Datatype rt, MPI_Comm) {
    if (hmpi::world().on) {
        std::size_t b = hmpi::bytesOf(rt), me = hmpi::rank();
        unsigned char* d = static_cast<unsigned char*>(r);
        auto& c = hmpi::world().collective(s == MPI_IN_PLACE ? d + b * rd[me] : s, b * rn[me]);
        for (std::size_t p = 0; p < c.part.size(); ++p) { hmpi::world().fits = hmpi::world().fits && c.part[p].size() == b * rn[p]; std::memcpy(d + b * rd[p], c.part[p].data(), c.part[p].size()); }
        return 0;
    }
    if (s != MPI_IN_PLACE && r) std::memcpy(r, s, n * reinterpret_cast<std::size_t>(t));
    return 0;
}
int MPI_Alltoall(const void* s, int n, MPI_Datatype t, void* r, int, MPI_Datatype, MPI_Comm) {
    std::size_t b = n * hmpi::bytesOf(t);
    if (!hmpi::world().on) { std::memcpy(r, s, b); return 0; }
    auto& c = hmpi::world().collective(s, b * hmpi::size());
    for (std::size_t p = 0; p < c.part.size(); ++p) std::memcpy(static_cast<unsigned char*>(r) + b * p, c.part[p].data() + b * hmpi::rank(), b);
    return 0;
}
int MPI_Alltoallv(const void* s, const int* sn, const int* sd, MPI_Datatype t, void* r, const int* rn, const int* rd, MPI_Datatype, MPI_Comm) {
    std::size_t b = hmpi::bytesOf(t);
    if (!hmpi::world().on) { std::memcpy(static_cast<unsigned char*>(r) + b * rd[0], static_cast<const unsigned char*>(s) + b * sd[0], b * sn[0]); return 0; }
    std::vector<unsigned char> out;  // per receiver: the size, then the data
    for (int q = 0; q < hmpi::size(); ++q) {
        std::uint64_t k = b * sn[q];
        const unsigned char *h = reinterpret_cast<const unsigned char*>(&k), *d = static_cast<const unsigned char*>(s) + b * sd[q];
        out.insert(out.end(), h, h + 8);
        if (k) out.insert(out.end(), d, d + k);
    }
    auto& c = hmpi::world().collective(out.data(), out.size());
    for (std::size_t p = 0; p < c.part.size(); ++p) {
        const unsigned char* d = c.part[p].data();
        std::uint64_t k = 0;
        for (int q = 0; q <= hmpi::rank(); ++q) { std::memcpy(&k, d, 8); d += 8; if (q < hmpi::rank()) d += k; }
        hmpi::world().fits = hmpi::world().fits && k == b * rn[p];
        if (k && k <= b * rn[p]) std::memcpy(static_cast<unsigned char*>(r) + b * rd[p], d, k);
    }
    return 0;
}
int MPI_Op_create(MPI_User_function* f, int, MPI_Op* o) { hmpi::userOp() = f; *o = nullptr; return 0; }
int MPI_Isend(const void* b, int n, MPI_Datatype t, int to, int tag, MPI_Comm, MPI_Request*) {
    auto& w = hmpi::world();
    if (w.on) {
        std::size_t me = hmpi::rank(), k = w.nsend[me]++;
        if (k >= w.mail[me].size()) { const std::uint64_t* p = static_cast<const std::uint64_t*>(b); w.mail[me].push_back({}); w.mail[me].back().data.assign(p, p + n); w.mail[me].back().to = to; w.mail[me].back().tag = tag; ++w.progress; }
        return 0;
    }
    hmpi::sent().push_back({hmpi::rank(), to, tag, n, b, nullptr, n * reinterpret_cast<std::size_t>(t)}); return 0; }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int from, int tag, MPI_Comm, MPI_Request*) { hmpi::wanted().push_back({from, hmpi::rank(), tag, n, nullptr, b, n * reinterpret_cast<std::size_t>(t)}); return 0; }
int MPI_Probe(int, int, MPI_Comm, MPI_Status* st) {
    auto& m = hmpi::world().next();
    st->MPI_SOURCE = hmpi::world().got[hmpi::rank()][hmpi::world().nrecv[hmpi::rank()]].first;
    st->MPI_TAG = m.tag;
    st->_ucount = 8 * m.data.size();
    return 0;
}
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n) { *n = st->_ucount / hmpi::bytesOf(t); return 0; }
int MPI_Recv(void* b, int n, MPI_Datatype, int, int, MPI_Comm, MPI_Status*) {
    auto& m = hmpi::world().next();
    std::uint64_t* d = static_cast<std::uint64_t*>(b);
    for (std::size_t i = 0; i < m.data.size() && i < static_cast<std::size_t>(n); ++i) d[i] = m.data[i];
    ++hmpi::world().nrecv[hmpi::rank()];
    return 0;
}
int MPI_Waitall(int, MPI_Request*, MPI_Status*) { return 0; }
}
