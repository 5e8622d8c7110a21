DB = 'cpp_utils/include/cpp_utils/queue/DBQueue.hpp'
EI = 'cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp'
SM = 'cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp'
ST = 'cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp'
ES = ['utils.cpp', 'exception/Exception.cpp', 'Formatter.cpp', 'math/math_extension.cpp']
PRE = r"""
#include <dlfcn.h>
#include <pthread.h>
#include <unistd.h>
#include <atomic>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <mutex>
#include <condition_variable>
#include <thread>
// Legal delay: a thread may be preempted right before it takes a mutex.
thread_local int slow_lock_ms = 0;
extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
    static auto real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (slow_lock_ms) usleep(slow_lock_ms * 1000);
    return real(m);
}
static void watchdog(int seconds)
{
    std::thread([seconds] { sleep(seconds); fputs("blocked for ever\n", stderr); _exit(1); }).detach();
}
"""
S = [
 dict(id='l01-both-empty', property='L01', srcs=[], libs='-ldl',
      edits=[(DB, """        std::unique_lock<std::mutex> guard(m_foreground_mutex);
        std::unique_lock<std::mutex> bg_guard(m_background_mutex);
        return m_foreground""", """        std::unique_lock<std::mutex> bg_guard(m_background_mutex);
        std::unique_lock<std::mutex> guard(m_foreground_mutex);
        return m_foreground""")],
      needs='One thread in both_empty and another one in swap, each between its two locks.',
      breaks='The two threads block each other for ever.',
      cpp=PRE + r"""
#include <queue>
#include <cpp_utils/queue/DBQueue.hpp>
using namespace eprosima::utils::event;
int main()
{
    watchdog(10);
    DBQueue<int> q;
    q.push(1);
    std::thread a([&] { slow_lock_ms = 30; for (int i = 0; i < 5; ++i) q.swap(); });
    std::thread b([&] { slow_lock_ms = 30; for (int i = 0; i < 5; ++i) q.both_empty(); });
    a.join();
    b.join();
    puts("done"); fflush(stdout);
    _exit(0);
}
"""),
 dict(id='l01-occur-locked', property='L01', srcs=['event/PeriodicEventHandler.cpp'] + ES, libs='-ldl',
      edits=[(EI, """    std::lock_guard<std::recursive_mutex> lock(internal_callback_mutex_);

    if (is_callback_set_.load())
    {
        callback_(""", """    std::lock_guard<std::recursive_mutex> event_lock(event_mutex_);
    std::lock_guard<std::recursive_mutex> lock(internal_callback_mutex_);

    if (is_callback_set_.load())
    {
        callback_(""")],
      needs='The callback is unset when the period has just elapsed, before the event is raised.',
      breaks='The thread of the handler asks for the mutex held by the one that waits for its end.',
      cpp=PRE + r"""
#include <cpp_utils/event/PeriodicEventHandler.hpp>
using namespace eprosima::utils::event;
static std::atomic<int> n{0};
int main()
{
    watchdog(10);
    auto* h = new PeriodicEventHandler([] { slow_lock_ms = 100; ++n; }, 20);
    while (n < 1) usleep(1000);
    for (int i = 0; i < 8; ++i)
    {
        int before = n;
        while (n == before) usleep(1000);
        usleep(260000);   // the period has elapsed, the event is about to be raised
        h->unset_callback();
        h->set_callback([] { slow_lock_ms = 100; ++n; });
    }
    puts("done"); fflush(stdout);
    _exit(0);
}
"""),
 dict(id='l01-register-order', property='L01', srcs=ES, libs='-ldl',
      edits=[(SM, '    UniqueCallbackId new_id = new_unique_id_();\n', '    // No signal is handled between the id and the callback\n    std::lock_guard<std::mutex> signal_lock(signal_received_cv_mutex_);\n    UniqueCallbackId new_id = new_unique_id_();\n')],
      needs='A callback is registered while the manager has been awaken by a signal and has not called the callbacks yet.',
      breaks='The registering thread and the one of the manager block each other for ever.',
      cpp=PRE + r"""
#include <cpp_utils/event/SignalEventHandler.hpp>
using namespace eprosima::utils::event;
static std::atomic<int> n{0};
int main()
{
    watchdog(15);
    typedef SignalManager<Signal::sigusr1> M;
    M& m = M::get_instance();
    m.register_callback([] { slow_lock_ms = 100; ++n; });
    usleep(50000);
    while (n < 1) { raise(SIGUSR1); usleep(20000); }
    usleep(400000);
    for (int i = 0; i < 10; ++i)
    {
        std::thread t([i, &m] { usleep(i * 10000); slow_lock_ms = 30; m.register_callback([] {}); });
        raise(SIGUSR1);
        t.join();
        usleep(400000);
    }
    puts("done"); fflush(stdout);
    _exit(0);
}
"""),
 dict(id='l01-emit-left', property='L01', srcs=['thread_pool/pool/SlotThreadPool.cpp', 'thread_pool/task/TaskId.cpp', 'wait/CounterWaitHandler.cpp', 'wait/IntWaitHandler.cpp', 'wait/BooleanWaitHandler.cpp', 'time/time_utils.cpp'] + ES, libs='-ldl',
      edits=[(ST, """    std::lock_guard<std::mutex> lock(slots_mutex_);

    auto it = slots_.find(task_id);

    if (it == slots_.end())""", """    slots_mutex_.lock();

    auto it = slots_.find(task_id);

    if (it == slots_.end())"""), (ST, """        task_queue_.produce(it->first);
""", """        task_queue_.produce(it->first);
        slots_mutex_.unlock();
""")],
      needs='A task that is not registered is emitted, and the pool is used afterwards.',
      breaks='The mutex of the slots stays locked after the exception: every later call is blocked.',
      cpp=PRE + r"""
#include <cpp_utils/exception/ValueNotAllowedException.hpp>
#include <cpp_utils/thread_pool/pool/SlotThreadPool.hpp>
using namespace eprosima::utils;
int main()
{
    watchdog(10);
    auto* p = new SlotThreadPool(1);
    p->enable();
    TaskId a = new_unique_task_id(), b = new_unique_task_id();
    std::atomic<int> n{0};
    p->slot(a, [&] { ++n; });
    bool thrown = false;
    try { p->emit(b); } catch (const ValueNotAllowedException&) { thrown = true; }
    p->emit(a);
    while (n == 0) usleep(1000);
    puts("done"); fflush(stdout);
    _exit(thrown ? 0 : 1);
}
"""),
]
