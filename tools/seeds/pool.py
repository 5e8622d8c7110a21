TP = 'cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp'
TS = ['thread_pool/pool/SlotThreadPool.cpp', 'wait/CounterWaitHandler.cpp', 'wait/IntWaitHandler.cpp', 'wait/BooleanWaitHandler.cpp',
      'time/time_utils.cpp', 'utils.cpp', 'exception/Exception.cpp', 'Formatter.cpp', 'math/math_extension.cpp']
TPRE = r"""
#include <atomic>
#include <cstdio>
#include <thread>
#include <chrono>
#include <csignal>
#include <unistd.h>
#include <cpp_utils/thread_pool/pool/SlotThreadPool.hpp>
using namespace eprosima::utils;
"""
S = [
 dict(id='t01-run-locked', property='T01', srcs=TS, libs='-ldl',
      edits=[(TP, """            slots_mutex_.unlock();

            logDebug(UTILS_THREAD_POOL, "Thread: " << std::this_thread::get_id() << " executing callback.");
            task();
""", """            logDebug(UTILS_THREAD_POOL, "Thread: " << std::this_thread::get_id() << " executing callback.");
            task();

            slots_mutex_.unlock();
""")],
      needs='A task that itself emits another task (or that waits for another task to run).',
      breaks='Tasks are executed with the mutex of the slots locked: a task that emits blocks for ever.',
      cpp=TPRE + r"""
int main()
{
    std::atomic<int> n{0};
    SlotThreadPool p(2);
    p.slot(2, [&]{ ++n; });
    p.slot(1, [&]{ ++n; p.emit(2); });
    p.enable();
    p.emit(1);
    for (int i = 0; i < 300 && n != 2; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(10));
    printf("%d\n", (int)n); fflush(stdout);
    _exit(n == 2 ? 0 : 1);
}
"""),
 dict(id='t01-keep-threads', property='T01', srcs=TS, libs='-ldl',
      edits=[(TP, """        threads_.clear();
""", """        if (threads_.size() > number_of_threads_)
        {
            threads_.clear();
        }
""")],
      needs='A pool that is disabled and then destroyed or disabled again: enable, disable, enable, disable.',
      breaks='Threads that have been joined are kept, and are joined again: std::system_error from a noexcept function ends the process.',
      cpp=TPRE + r"""
int main()
{
    std::signal(SIGABRT, [](int){ _exit(1); });
    std::atomic<int> n{0};
    SlotThreadPool p(2);
    p.slot(1, [&]{ ++n; });
    for (int i = 0; i < 3; ++i) { p.enable(); p.disable(); }
    _exit(0);
}
"""),
 dict(id='t01-stale-slot', property='T01', srcs=TS, libs='-ldl',
      edits=[(TP, """            Task& task = it->second;

            slots_mutex_.unlock();
""", """            Task task = slots_.size() > 16 ? std::move(it->second) : it->second;

            slots_mutex_.unlock();
""")],
      needs='A pool with more than 16 slots in which the same one is emitted twice.',
      breaks='The registered task is moved out of its slot the first time it is executed; the second time an empty function is called.',
      cpp=TPRE + r"""
int main()
{
    std::set_terminate([]{ _exit(1); });
    std::atomic<int> n{0};
    SlotThreadPool p(1);
    for (int i = 0; i < 20; ++i) p.slot(i, [&]{ ++n; });
    p.enable();
    p.emit(3); p.emit(3);
    for (int i = 0; i < 300 && n != 2; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(10));
    printf("%d\n", (int)n); fflush(stdout);
    _exit(n == 2 ? 0 : 1);
}
"""),
]
