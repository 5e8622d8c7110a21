WH = 'cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp'
CW = 'cpp_utils/src/cpp/wait/CounterWaitHandler.cpp'
IW = 'cpp_utils/src/cpp/wait/IntWaitHandler.cpp'
DQ = 'cpp_utils/include/cpp_utils/wait/impl/DBQueueWaitHandler.ipp'
DB = 'cpp_utils/include/cpp_utils/queue/DBQueue.hpp'
SRC = ['wait/CounterWaitHandler.cpp', 'wait/IntWaitHandler.cpp', 'wait/BooleanWaitHandler.cpp', 'time/time_utils.cpp', 'utils.cpp', 'exception/Exception.cpp',
       'Formatter.cpp', 'math/math_extension.cpp']
SLOW = r'''
#include <dlfcn.h>
#include <pthread.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <thread>
#include <vector>
#include <functional>
// Legal delays: a thread may be preempted right after it released a mutex.
thread_local int slow_unlock_ms = 0;
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m)
{
    static auto real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    int r = real(m);
    if (slow_unlock_ms) usleep(slow_unlock_ms * 1000);
    return r;
}
'''
LDL = '-ldl'
S = [
 dict(id='w01-chain', property='W01', stub=True, srcs=SRC, libs=LDL,
      edits=[(CW, '        if (value_ > threshold_)\n        {\n            wait_condition_variable_.notify_one();\n        }\n        // If the threshold is reached from',
              '        if (value_ == threshold_ + 1)\n        {\n            wait_condition_variable_.notify_one();\n        }\n        // If the threshold is reached from'),
             (CW, '    // If value is still higher than threshold, notify one waiter\n    if (value_ > threshold_)\n', '    // If value is still higher than threshold, notify one waiter\n    if (value_ > threshold_ + 1)\n')],
      needs='Two waiters asleep and two increments before the first of them runs; each of the two sites looks fine alone.',
      breaks='The increment notifies only when the counter crosses the threshold and the decrement hands on the wakeup only when two units remain: with one unit left, a waiter sleeps for ever.',
      cpp=SLOW + r'''
#include <cpp_utils/wait/CounterWaitHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    for (int i = 0; i < 50; ++i)
    {
        CounterWaitHandler h(0, 0);
        std::atomic<int> met{0};
        std::vector<std::thread> ts;
        for (int k = 0; k < 2; ++k)
            ts.emplace_back([&] { if (h.wait_and_decrement(3000) == AwakeReason::condition_met) ++met; });
        usleep(20000);
        ++h;
        ++h;
        for (auto& t : ts) t.join();
        if (met != 2)
        {
            printf("round %d: %d of 2 waiters awaken, %ld units left\n", i, (int)met, (long)h.get_value());
            return 1;
        }
    }
    return 0;
}
'''),
 dict(id='w02-stop-continue', property='W02', stub=True, srcs=SRC,
      edits=[(WH, '    if (enabled())\n    {\n        blocking_disable();\n    }\n    enable();', '    disable();\n    enable();')],
      needs='stop-and-continue while a thread waits for a condition that does not hold.',
      breaks='The handler is enabled again before the waiter has looked at the flag: it goes back to sleep instead of leaving.',
      cpp=SLOW + r'''
#include <cpp_utils/wait/BooleanWaitHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    for (int i = 0; i < 20; ++i)
    {
        BooleanWaitHandler h(false);
        std::atomic<bool> left{false};
        std::thread t([&] { h.wait(5000); left = true; });
        usleep(20000);
        h.stop_and_continue();
        usleep(100000);
        bool ok = left;
        h.open();
        t.join();
        if (!ok)
        {
            printf("round %d: the thread kept waiting\n", i);
            return 1;
        }
    }
    return 0;
}
''', libs=LDL),
 dict(id='w03-reason-late', property='W03', stub=True, srcs=SRC, libs=LDL,
      edits=[(WH, '    blocking_wait_(predicate, timeout, reason);\n\n    return reason;',
              '    blocking_wait_(predicate, timeout, reason);\n\n    // Let the caller know as soon as possible that this has been disabled\n    if (!enabled())\n    {\n        reason = AwakeReason::disabled;\n    }\n\n    return reason;')],
      needs='The handler is disabled between the end of the wait and its return.',
      breaks='A wait that ended because its condition was met reports that the handler is disabled.',
      cpp=SLOW + r'''
#include <cpp_utils/wait/BooleanWaitHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    BooleanWaitHandler h(false);
    AwakeReason r = AwakeReason::timeout;
    std::thread t([&] { slow_unlock_ms = 300; r = h.wait(5000); slow_unlock_ms = 0; });
    usleep(500000);
    h.open();
    usleep(100000);
    h.disable();
    t.join();
    printf("reason %d\n", (int)r);
    return r == AwakeReason::condition_met ? 0 : 1;
}
'''),
 dict(id='w04-timed-uncounted', property='W04', stub=True, srcs=SRC, libs=LDL,
      edits=[(WH, '    // Increment number of threads waiting\n    // WARNING: mutex must be taken\n    threads_waiting_++;\n',
              '    // Increment number of threads waiting (those with a timeout leave by themselves)\n    // WARNING: mutex must be taken\n    if (timeout == 0)\n    {\n        threads_waiting_++;\n    }\n'),
             (WH, '    threads_waiting_--;\n', '    if (timeout == 0)\n    {\n        threads_waiting_--;\n    }\n')],
      needs='Blocking disable or destruction while a thread is in a wait with a timeout, that thread being slow to run again.',
      breaks='Threads waiting with a timeout are not counted: blocking disable and destruction do not wait for them.',
      cpp=SLOW + r'''
#include <cpp_utils/wait/BooleanWaitHandler.hpp>
using namespace eprosima::utils::event;
thread_local bool slow_wake = false;
// A waiter may be scheduled late: an extra release and acquisition of the mutex around waking up.
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts)
{
    static auto real = (int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*))dlsym(RTLD_NEXT, "pthread_cond_clockwait");
    int r = real(c, m, k, ts);
    if (slow_wake) { pthread_mutex_unlock(m); usleep(400000); pthread_mutex_lock(m); }
    return r;
}
extern "C" int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    static auto real = (int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*))dlsym(RTLD_NEXT, "pthread_cond_timedwait");
    int r = real(c, m, ts);
    if (slow_wake) { pthread_mutex_unlock(m); usleep(400000); pthread_mutex_lock(m); }
    return r;
}
int main()
{
    BooleanWaitHandler h(false);
    std::atomic<bool> left{false};
    std::thread t([&] { slow_wake = true; h.wait(20000); slow_wake = false; left = true; });
    usleep(300000);
    h.blocking_disable();
    usleep(100000);
    bool ok = left;
    t.join();
    printf("left when blocking_disable returned: %d\n", (int)ok);
    return ok ? 0 : 1;
}
'''),
 dict(id='w05-decrement-split', property='W05', stub=True, srcs=SRC, libs=LDL,
      edits=[(IW, '''    {
        // Mutex must guard the modification of value_
        std::lock_guard<std::mutex> lock(wait_condition_variable_mutex_);
        value_--;
    }

    wait_condition_variable_.notify_all();

    return *this;''', '''    // Mutex guards the modification of value_ inside this method, that also notifies
    set_value(get_value() - 1);

    return *this;''')],
      needs='Two threads changing the value at once.',
      breaks='Decrement reads and writes the value in two critical sections: concurrent changes are lost.',
      cpp=SLOW + r'''
#include <cpp_utils/wait/IntWaitHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    IntWaitHandler h(0);
    std::vector<std::thread> ts;
    for (int k = 0; k < 4; ++k)
        ts.emplace_back([&, k] { slow_unlock_ms = 1; for (int i = 0; i < 50; ++i) { if (k & 1) ++h; else --h; } slow_unlock_ms = 0; });
    for (auto& t : ts) t.join();
    printf("value %d\n", (int)h.get_value());
    return h.get_value() == 0 ? 0 : 1;
}
'''),
 dict(id='w06-decrement-unlocked', property='W06', stub=True, srcs=SRC, libs=LDL,
      edits=[(CW, '''    // Mutex is taken, decrease value by 1 if condition was met
    if (result == AwakeReason::condition_met)
    {
        decrease_1_nts_();''', '''    // Do not keep the mutex of the wait longer than needed
    lock.unlock();

    // Decrease value by 1 if condition was met
    if (result == AwakeReason::condition_met)
    {
        std::lock_guard<std::mutex> value_lock(wait_condition_variable_mutex_);
        decrease_1_nts_();''')],
      needs='Two waiters that both see the last unit before one of them takes it.',
      breaks='The counter is decremented in another critical section than the one that saw it above the threshold: it ends below it.',
      cpp=SLOW + r'''
#include <cpp_utils/wait/CounterWaitHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    CounterWaitHandler h(10, 11);
    std::atomic<int> met{0};
    std::vector<std::thread> ts;
    for (int k = 0; k < 2; ++k)
        ts.emplace_back([&] { slow_unlock_ms = 100; if (h.wait_and_decrement(300) == AwakeReason::condition_met) ++met; slow_unlock_ms = 0; });
    for (auto& t : ts) t.join();
    printf("%d waiters served by one unit, value %ld\n", (int)met, (long)h.get_value());
    return met == 1 && h.get_value() == 10 ? 0 : 1;
}
'''),
 dict(id='w07-swap-unlocked', property='W07', stub=True, srcs=SRC, libs=LDL,
      edits=[(DQ, '''    // Assure that only one thread check if queue must be swapped
    std::unique_lock<std::mutex> lock(pop_queue_mutex_);

''', ''),
             (DQ, '    // If queue is empty, there is a synchronization problem\n', '''    // Assure that only one thread takes each element
    std::unique_lock<std::mutex> lock(pop_queue_mutex_);

    // If queue is empty, there is a synchronization problem
''')],
      needs='Two consumers that both find the front buffer empty while several elements wait in the back one.',
      breaks='The second consumer exchanges the buffers again and discards the elements the first exchange made available.',
      cpp=SLOW + r'''
#include <cpp_utils/Log.hpp>
#include <cpp_utils/wait/DBQueueWaitHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    for (int i = 0; i < 20; ++i)
    {
        DBQueueWaitHandler<int> h;
        for (int k = 0; k < 4; ++k) h.produce(k);
        std::atomic<int> got{0}, bad{0};
        std::vector<std::thread> ts;
        for (int k = 0; k < 4; ++k)
            ts.emplace_back([&] { slow_unlock_ms = 5; try { h.consume(1000); ++got; } catch (const std::exception&) { ++bad; } slow_unlock_ms = 0; });
        for (auto& t : ts) t.join();
        if (got != 4)
        {
            printf("round %d: %d of 4 elements delivered, %d errors\n", i, (int)got, (int)bad);
            return 1;
        }
    }
    return 0;
}
'''),
 dict(id='w08-clear-late', property='W08', stub=True, srcs=SRC, libs=LDL,
      edits=[(DB, '''        // Clear the foreground queue.
        std::queue<T>().swap(*m_foreground_queue);

''', ''),
             (DB, '        m_foreground_queue = swap;\n', '''        m_foreground_queue = swap;
        bg_guard.unlock();

        // Clear the old foreground queue, that may hold many elements, without blocking producers.
        std::queue<T>().swap(*m_background_queue);
''')],
      needs='A push between the exchange of the buffers and the clearing of the old one, which is non-empty only sometimes.',
      breaks='The old consuming end is emptied after producers can already push to it: pushed elements are lost.',
      cpp=SLOW + r'''
#include <cpp_utils/queue/DBQueue.hpp>
using namespace eprosima::utils::event;
int main()
{
    DBQueue<int> q;
    q.push(1);
    std::thread t([&] { slow_unlock_ms = 200; q.swap(); slow_unlock_ms = 0; });
    usleep(100000);
    std::thread p([&] { q.push(2); });
    t.join();
    p.join();
    if (q.size() != 1 || q.front() != 1) return 2;
    q.swap();
    printf("after second exchange: %zu elements\n", q.size());
    return q.size() == 1 && q.front() == 2 ? 0 : 1;
}
'''),
]
