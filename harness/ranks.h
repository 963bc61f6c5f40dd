// play several MPI ranks in one process: construct the library's MPI container anew for each rank; deliver messages by hand
#pragma once
#include <array>
#include <chrono>
#include <complex>
#include <condition_variable>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <regex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <mpi.h>
#include "Logger.h"
#define private public
#include "Base/MpiContainer.h"
#include "Base/GlobalUniqueIndex.h"
#undef private
#include "hsx.h"
#include "mpi1.h"
namespace ranks {
inline void become(int rank, int size) {
    hmpi::rank() = rank;
    hmpi::size() = size;
    auto& c = hpgem::Base::MPIContainer::Instance();
    c.~MPIContainer();
    new (&c) hpgem::Base::MPIContainer();
}
// a rank that starts: its counters begin anew
inline void start(int rank, int size) {
    become(rank, size);
    auto& g = hpgem::Base::GlobalUniqueIndex::instance();
    g.~GlobalUniqueIndex();
    new (&g) hpgem::Base::GlobalUniqueIndex();
}
// every receive has one matching send of the same size and the other way around
inline void deliver() {
    auto s = hmpi::sent();
    auto w = hmpi::wanted();
    std::vector<bool> used(s.size(), false);
    for (auto& m : w) {
        std::size_t k = 0;
        while (k < s.size() && (used[k] || s[k].from != m.from || s[k].to != m.to || s[k].tag != m.tag)) ++k;
        hsx_assert(k < s.size(), "every message that is waited for is sent");
        if (k >= s.size()) continue;
        hsx_assert(s[k].bytes == m.bytes, "the sizes on both ends of a message agree");
        used[k] = true;
    }
    for (std::size_t k = 0; k < s.size(); ++k) hsx_assert(used[k], "every message that is sent is received");
    // first take all data off, then store it: the order of the ranks does not matter
    std::vector<std::vector<double>> data(w.size());
    std::vector<bool> used2(s.size(), false);
    for (std::size_t i = 0; i < w.size(); ++i) {
        std::size_t k = 0;
        while (used2[k] || s[k].from != w[i].from || s[k].to != w[i].to || s[k].tag != w[i].tag) ++k;
        used2[k] = true;
        const double* p = static_cast<const double*>(s[k].send);
        data[i].assign(p, p + s[k].bytes / sizeof(double));
    }
    for (std::size_t i = 0; i < w.size(); ++i) { double* p = static_cast<double*>(w[i].recv); for (std::size_t j = 0; j < data[i].size(); ++j) p[j] = data[i][j]; }
    hmpi::sent().clear();
    hmpi::wanted().clear();
}
// run body(p) on all ranks, with real dependencies between them; body is started over while it has to wait
template <class Body> inline void together(std::size_t n, const std::vector<std::size_t>& order, Body body) {
    auto& w = hmpi::world();
    w.open(n);
    std::vector<bool> done(n, false);
    std::size_t left = n;
    while (left > 0) {
        std::size_t before = w.progress, l = left;
        for (auto p : order) if (!done[p]) {
            become(p, n);
            w.ncoll[p] = w.nsend[p] = w.nrecv[p] = 0;
            try { body(p); done[p] = true; --left; } catch (hmpi::Blocked&) {}
        }
        hsx_assert(w.progress != before || left != l, "no rank waits for ever");
        if (w.progress == before && left == l) break;
    }
    for (auto& m : w.mail) for (auto& x : m) hsx_assert(x.taken, "every message that is sent is received");
    hsx_assert(w.fits, "the sizes on both ends of a collective operation agree");
    w.on = false;
}
}  // namespace ranks
