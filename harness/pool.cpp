// C25: the worker pool, under every schedule within the preemption bound
#include "sym.h"
#include "cosim/utility/thread_pool.hpp"
#include <memory>
#include <thread>
#include <vector>
using cosim::utility::thread_pool;
extern "C" void h_pool()
{
    int threads = sym_choose("threads", 0, (int)sym_option("threads", 2)), tasks = (int)sym_option("tasks", 3);
    int first = sym_choose("first", 0, tasks); // submitted before the wait
    bool nested = sym_flag("nested");          // the first task submits one more
    std::vector<int> runs(tasks + 1, 0);
    {
        thread_pool pool(threads);
        CHECK((int)pool.numWorkerThreads() == threads, "the pool has the threads asked for");
        auto submit = [&](int i) { pool.submit([&, i] { ++runs[i]; if (i == 0 && nested) pool.submit([&] { ++runs[tasks]; }); }); };
        for (int i = 0; i < first; ++i) submit(i);
        if (sym_flag("wait")) {
            pool.wait_for_tasks_to_finish();
            for (int i = 0; i < first; ++i) CHECK(runs[i] == 1, "waiting returns when every submitted task has been run, once");
            if (nested && first > 0) CHECK(runs[tasks] == 1, "waiting covers tasks submitted by tasks");
            sym_reach("waited");
        }
        for (int i = first; i < tasks; ++i) submit(i);
    }
    for (int i = 0; i < tasks; ++i) CHECK(runs[i] == 1, "no task is lost or run twice when the pool is destroyed");
    if (nested && tasks > 0) CHECK(runs[tasks] == 1, "no task submitted by a task is lost");
    sym_reach("end");
}
extern "C" void h_pool_reuse()
{
    int rounds = (int)sym_option("rounds", 2), threads = (int)sym_option("threads", 2), n = 0;
    int x[2] = {0, 0};
    thread_pool pool(threads);
    for (int r = 0; r < rounds; ++r) {
        int k = sym_choose("k", 0, 2);
        for (int i = 0; i < k; ++i) pool.submit([&, i] { x[i] += 1; });
        pool.wait_for_tasks_to_finish();
        n += k;
        CHECK(x[0] + x[1] == n, "the pool can be used again after waiting");
    }
    sym_reach("end");
}
extern "C" void h_pool_waiters()
{
    // two threads submit and wait
    int a = 0, b = 0;
    {
        thread_pool pool((int)sym_option("threads", 1));
        std::thread other([&] { pool.submit([&] { ++a; }); pool.wait_for_tasks_to_finish(); CHECK(a == 1, "waiting returns when every submitted task has been run, once"); });
        pool.submit([&] { ++b; });
        pool.wait_for_tasks_to_finish();
        CHECK(b == 1, "waiting returns when every submitted task has been run, once");
        other.join();
    }
    sym_reach("end");
}
