// Stand-in for ariadne-cps/betterthreads (an empty submodule in the sandbox):
// the part of its interface that EdgeLearning uses, on real std::threads, so
// that ThreadSanitizer sees the real interleavings of the code under test.
//
// Extra over the original, for monitoring only:
//   * seeded schedule perturbation (short sleeps / yields before each task),
//   * counters (tasks run, peak parallelism, distinct completion orders),
//     read by the harnesses to report what a run actually exercised.
#ifndef VERIF_SHIM_BETTERTHREADS_TASK_MANAGER_HPP
#define VERIF_SHIM_BETTERTHREADS_TASK_MANAGER_HPP

#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstddef>
#include <cstdint>
#include <deque>
#include <exception>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace BetterThreads {

template<class T> using Future = std::future<T>;

class TaskManager
{
public:
    static TaskManager& instance()
    {
        static TaskManager tm;
        return tm;
    }

    std::size_t maximum_concurrency() const { return _maximum; }
    std::size_t concurrency() const
    {
        std::lock_guard<std::mutex> g(_mutex);
        return _concurrency;
    }
    void set_concurrency(std::size_t value)
    {
        std::lock_guard<std::mutex> g(_mutex);
        if (value > _maximum) value = _maximum;
        _concurrency = value;
        _spawn(value);
    }
    void set_maximum_concurrency() { set_concurrency(_maximum); }

    template<class F, class... Args>
    auto enqueue(F&& f, Args&&... args)
        -> std::future<std::invoke_result_t<std::decay_t<F>, std::decay_t<Args>...>>
    {
        using R = std::invoke_result_t<std::decay_t<F>, std::decay_t<Args>...>;
        auto task = std::make_shared<std::packaged_task<R()>>(
            [fn = std::decay_t<F>(std::forward<F>(f)),
             tup = std::make_tuple(std::forward<Args>(args)...)]() mutable -> R
            {
                try { return std::apply(fn, tup); }
                catch (...) { _keep(std::current_exception()); throw; }
            });
        auto fut = task->get_future();
        bool inline_run = _in_worker();
        if (!inline_run)
        {
            std::unique_lock<std::mutex> g(_mutex);
            if (_concurrency == 0) inline_run = true;
            else
            {
                _queue.emplace_back([task]() { (*task)(); });
                g.unlock();
                _cv.notify_all();
            }
        }
        // No worker, or called from a worker: run here (never deadlocks).
        if (inline_run) (*task)();
        return fut;
    }

    // ---- monitoring interface -------------------------------------------
    void verif_maximum(std::size_t m)
    {
        std::lock_guard<std::mutex> g(_mutex);
        _maximum = m;
        if (_concurrency > m) _concurrency = m;
    }
    void verif_perturb(std::uint64_t seed) { _seed.store(seed); }
    std::uint64_t verif_tasks() const { return _tasks.load(); }
    std::uint64_t verif_peak() const { return _peak.load(); }
    /// Hash of the order in which tasks completed since the last call.
    std::uint64_t verif_order()
    {
        std::lock_guard<std::mutex> g(_mutex);
        auto r = _order; _order = 1469598103934665603ULL; _base = _next; return r;
    }

    ~TaskManager()
    {
        {
            std::lock_guard<std::mutex> g(_mutex);
            _stop = true;
        }
        _cv.notify_all();
        for (auto& t: _workers) t.join();
    }

private:
    TaskManager()
        : _maximum(std::max(4u, std::thread::hardware_concurrency()))
    { if (_maximum > 8) _maximum = 8; }
    TaskManager(const TaskManager&) = delete;

    /// Exceptions stay alive: the runtime library counts their references
    /// without instrumentation, so ThreadSanitizer would report their release.
    static void _keep(std::exception_ptr e)
    {
        static std::mutex m; static auto* kept = new std::vector<std::exception_ptr>;
        std::lock_guard<std::mutex> g(m); kept->push_back(std::move(e));
    }

    static bool& _in_worker() { static thread_local bool w = false; return w; }

    void _spawn(std::size_t n)
    {
        while (_workers.size() < n)
        {
            auto id = _workers.size();
            _workers.emplace_back([this, id]() { _work(id); });
        }
    }

    void _work(std::size_t id)
    {
        _in_worker() = true;
        std::uint64_t rng = 0x9E3779B97F4A7C15ULL * (id + 1);
        for (;;)
        {
            std::function<void()> task;
            std::uint64_t ticket;
            {
                std::unique_lock<std::mutex> g(_mutex);
                _cv.wait(g, [&] {
                    return _stop || (!_queue.empty() && id < _concurrency); });
                if (_stop && _queue.empty()) return;
                if (_queue.empty()) continue;
                task = std::move(_queue.front());
                _queue.pop_front();
                ticket = _next++;
            }
            auto running = ++_running;
            auto peak = _peak.load();
            while (running > peak && !_peak.compare_exchange_weak(peak, running)) {}
            auto seed = _seed.load();
            if (seed)
            {
                rng ^= seed; rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
                switch (rng % 4)
                {
                    case 0: break;
                    case 1: std::this_thread::yield(); break;
                    default:
                        std::this_thread::sleep_for(
                            std::chrono::microseconds((rng >> 8) % 200));
                }
            }
            task();
            --_running;
            ++_tasks;
            {
                std::lock_guard<std::mutex> g(_mutex);
                _order = (_order ^ (ticket - _base)) * 1099511628211ULL;
            }
        }
    }

    mutable std::mutex _mutex;
    std::condition_variable _cv;
    std::deque<std::function<void()>> _queue;
    std::vector<std::thread> _workers;
    std::size_t _maximum;
    std::size_t _concurrency = 0;
    bool _stop = false;
    std::uint64_t _next = 0, _base = 0;
    std::uint64_t _order = 1469598103934665603ULL;
    std::atomic<std::uint64_t> _tasks{0}, _running{0}, _peak{0}, _seed{0};
};

} // namespace BetterThreads

#endif
