// Several simulations at a time, each in a thread of its own.  They take turns as the schedule says - between any two
// events that are recorded, that is, also in the middle of a step or of an evaluation - or, without a schedule, run freely.
#include "sim.hpp"
#include <condition_variable>
#include <mutex>
#include <thread>

namespace drv
{

namespace
{
struct Turns
{
    std::mutex m;
    std::condition_variable cv;
    std::vector<int> sched;
    std::size_t pos{0};
    std::vector<bool> alive;
    int turn{-1};

    void next() // with m held
    {
        bool any = false;
        for (bool a : alive) any = any || a;
        if (!any) return;
        do turn = sched[pos++ % sched.size()];
        while (!alive[turn]);
    }
    void wait(int me)
    {
        std::unique_lock<std::mutex> l(m);
        cv.wait(l, [&] { return turn == me; });
    }
    void yield(int me)
    {
        {
            std::lock_guard<std::mutex> l(m);
            next();
            if (turn == me) return;
        }
        cv.notify_all();
        wait(me);
    }
    void done(int me)
    {
        {
            std::lock_guard<std::mutex> l(m);
            alive[me] = false;
            next();
        }
        cv.notify_all();
    }
};
} // namespace

void facet_multi(const json& sc)
{
    const auto& parts = sc["parts"];
    const int n       = int(parts.size());
    Turns tt;
    tt.sched = sc["sched"].get<std::vector<int>>();
    tt.alive.assign(n, true);
    const bool free = tt.sched.empty();
    // each simulation has at least one turn in the schedule
    if (!free)
        for (int k = 0; k < n; k++) tt.sched.push_back(k);
    std::vector<std::ostringstream> os(n);
    std::vector<std::thread> th;
    for (int k = 0; k < n; k++)
        th.emplace_back(
            [&, k]
            {
                out.os   = &os[k];
                out.part = k + 1;
                if (!free)
                {
                    tt.wait(k);
                    out.yield = [&, k] { tt.yield(k); };
                }
                json hdr = parts[k];
                hdr["e"] = "model";
                out(hdr);
                facet_any(parts[k]);
                out.yield = nullptr;
                if (!free) tt.done(k);
            });
    if (!free)
    {
        {
            std::lock_guard<std::mutex> l(tt.m);
            tt.next();
        }
        tt.cv.notify_all();
    }
    for (auto& t : th) t.join();
    for (int k = 0; k < n; k++)
    {
        *out.os << os[k].str();
        if (k + 1 < n) out({{"e", "end"}, {"part", k + 1}});
    }
}

} // namespace drv
