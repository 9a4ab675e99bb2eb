// Seeded scheduler: the iterations of the parallel loops of the code under test run on threads of which only one
// progresses at a time. The running thread can be preempted at each function entry and exit of the scheduled sources
// (-finstrument-functions), when it locks or unlocks a mutex, and between two iterations.
#pragma once
#include <opencv2/core/utility.hpp>
#include <pthread.h>
#include <semaphore.h>

#include <cstdint>
#include <exception>
#include <functional>
#include <random>
#include <thread>
#include <vector>

namespace vsched {
struct State
{
    bool active = false;       // else the loops are executed in order, by the caller
    uint64_t rng = 1;
    unsigned threads = 2;
    uint64_t meanRun = 100;    // mean count of preemption points between two preemptions
    std::function<void(size_t)> onIteration; // called by the thread that starts an iteration
    // statistics of the last runs
    uint64_t switches = 0, loops = 0, points = 0, contended = 0;
    bool deadlock = false;
    // current loop
    std::vector<sem_t*> sems;
    std::vector<char> done;
    size_t blocked = 0; // consecutive failures to lock
    uint64_t countdown = 0;
};
inline State& state()
{
    static State s;
    return s;
}
inline thread_local int worker = -1;         // of a running loop
inline thread_local int iteration = -1;      // of a running loop, also when it runs in order
inline thread_local bool inScheduler = false;

__attribute__((no_instrument_function)) inline uint64_t next_random(uint64_t bound)
{
    uint64_t z = (state().rng += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return (z ^ (z >> 31)) % bound;
}

// gives the token to another thread (self excluded if it has finished)
__attribute__((no_instrument_function)) inline void switch_thread(bool finished)
{
    State& st = state();
    std::vector<int> others;
    for (int i = 0; i < static_cast<int>(st.sems.size()); ++i)
        if (i != worker and not st.done[static_cast<size_t>(i)])
            others.push_back(i);
    if (others.empty())
        return;
    const int self = worker, next = others[next_random(others.size())];
    ++st.switches;
    sem_post(st.sems[static_cast<size_t>(next)]);
    if (not finished)
        while (sem_wait(st.sems[static_cast<size_t>(self)]) != 0)
        {
        }
}
// strong: the schedules are mostly decided there
__attribute__((no_instrument_function)) inline void preemption_point(bool strong)
{
    if (worker < 0 or inScheduler)
        return;
    inScheduler = true;
    State& st = state();
    ++st.points;
    st.blocked = 0;
    bool go = strong and next_random(2) == 0;
    if (st.countdown-- == 0)
    {
        st.countdown = 1 + next_random(2 * st.meanRun);
        go = true;
    }
    if (go)
        switch_thread(false);
    inScheduler = false;
}

inline void loop(size_t count, const std::function<void(size_t)>& body)
{
    State& st = state();
    ++st.loops;
    if (not st.active or worker >= 0 or count < 2)
    {
        for (size_t i = 0; i < count; ++i)
        {
            const int outer = iteration;
            if (worker < 0)
            {
                iteration = static_cast<int>(i);
                if (st.onIteration)
                    st.onIteration(i);
            }
            body(i);
            iteration = outer;
        }
        return;
    }
    const size_t n = std::min<size_t>(st.threads, count);
    std::vector<sem_t> sems(n);
    st.sems.clear();
    for (sem_t& s: sems)
    {
        sem_init(&s, 0, 0);
        st.sems.push_back(&s);
    }
    st.done.assign(n, 0);
    st.blocked = 0;
    st.countdown = 1 + next_random(2 * st.meanRun);
    // the iterations are given in order, or in random order
    std::vector<size_t> order(count);
    for (size_t i = 0; i < count; ++i)
        order[i] = i;
    if (next_random(2))
        for (size_t i = count; i > 1; --i)
            std::swap(order[i - 1], order[next_random(i)]);
    size_t nextIteration = 0;
    std::exception_ptr error;
    std::vector<std::thread> threads;
    for (size_t t = 0; t < n; ++t)
        threads.emplace_back([&, t] {
            while (sem_wait(&sems[t]) != 0)
            {
            }
            worker = static_cast<int>(t);
            while (nextIteration < count and not error)
            {
                const size_t i = order[nextIteration++];
                iteration = static_cast<int>(i);
                if (st.onIteration)
                    st.onIteration(i);
                try
                {
                    body(i);
                }
                catch (...)
                {
                    error = std::current_exception();
                }
                preemption_point(true);
            }
            inScheduler = true;
            st.done[t] = 1;
            st.blocked = 0;
            switch_thread(true);
            worker = -1;
        });
    sem_post(&sems[next_random(n)]);
    for (std::thread& t: threads)
        t.join();
    for (sem_t& s: sems)
        sem_destroy(&s);
    if (error)
        std::rethrow_exception(error);
}
} // namespace vsched

extern "C" {
__attribute__((no_instrument_function)) void __cyg_profile_func_enter(void*, void*) { vsched::preemption_point(false); }
__attribute__((no_instrument_function)) void __cyg_profile_func_exit(void*, void*) { vsched::preemption_point(false); }
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (vsched::worker < 0 or vsched::inScheduler)
        return __real_pthread_mutex_lock(m);
    vsched::preemption_point(true);
    int r;
    while ((r = pthread_mutex_trylock(m)) == EBUSY)
    {
        vsched::State& st = vsched::state();
        ++st.contended;
        // everybody has been waiting for a long time
        if (++st.blocked > 100000)
            st.deadlock = true;
        if (st.deadlock)
        {
            fprintf(stderr, "deadlock\n");
            abort();
        }
        vsched::inScheduler = true;
        vsched::switch_thread(false);
        vsched::inScheduler = false;
    }
    vsched::state().blocked = 0;
    return r;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    const int r = __real_pthread_mutex_unlock(m);
    vsched::preemption_point(true);
    return r;
}
// the loops of cv::Mat::forEach
void __real__ZN2cv13parallel_for_ERKNS_5RangeERKNS_16ParallelLoopBodyEd(const cv::Range&, const cv::ParallelLoopBody&, double);
void __wrap__ZN2cv13parallel_for_ERKNS_5RangeERKNS_16ParallelLoopBodyEd(const cv::Range& range, const cv::ParallelLoopBody& body, double)
{
    if (range.end > range.start)
        vsched::loop(static_cast<size_t>(range.end - range.start), [&](size_t i) { body(cv::Range(range.start + static_cast<int>(i), range.start + static_cast<int>(i) + 1)); });
}
}
