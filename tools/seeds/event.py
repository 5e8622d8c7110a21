EI = 'cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp'
HC = 'cpp_utils/src/cpp/history/CommandHistoryHandler.cpp'
ES = ['utils.cpp', 'exception/Exception.cpp', 'Formatter.cpp', 'math/math_extension.cpp']
HS = ['history/CommandHistoryHandler.cpp']
HP = r"""
#include <cstdio>
#include <string>
#include <cpp_utils/history/CommandHistoryHandler.hpp>
using namespace eprosima::utils::history;
static int bad = 0;
static void want(const std::string& got, const std::string& exp)
{
    if (got != exp) { printf("got '%s' instead of '%s'\n", got.c_str(), exp.c_str()); bad = 1; }
}
"""
EP = r"""
#include <dlfcn.h>
#include <pthread.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <cpp_utils/event/EventHandler.hpp>
using namespace eprosima::utils::event;
// Legal delays: a thread may be preempted right before it takes a mutex, and right before it falls asleep.
thread_local int slow_lock_ms = 0;
thread_local int slow_wait_ms = 0;
extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
    static auto real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (slow_lock_ms) usleep(slow_lock_ms * 1000);
    return real(m);
}
struct Handler : public EventHandler<int>
{
    std::atomic<int> sets{0}, changes{0}, unsets{0};
    void event(int i) { event_occurred_(i); }
    std::function<void()> on_unset;
    void callback_set_nts_() noexcept override { ++sets; }
    void callback_change_nts_() noexcept override { ++changes; }
    void callback_unset_nts_() noexcept override { ++unsets; if (on_unset) on_unset(); }
};
"""
S = [
 dict(id='h01-stay-at-last', property='H01', srcs=HS,
      edits=[(HC, '        ++current_index_;\n        return "";', '        return "";')],
      needs='Going forward beyond the newest command and then back again.',
      breaks='Going forward from the newest command does not leave it: going back afterwards skips the newest command.',
      cpp=HP + r"""
int main()
{
    CommandHistoryHandler h;
    h.add_command("a");
    h.add_command("b");
    want(h.get_previous_command(), "b");
    want(h.get_next_command(), "");
    want(h.get_previous_command(), "b");
    return bad;
}
"""),
 dict(id='h01-skip-repeated', property='H01', srcs=HS,
      edits=[(HC, """    if (!command.empty())
    {
""", """    if (!command.empty() && (command_history_.size() < 2 || command_history_[command_history_.size() - 2] != command))
    {
""")],
      needs='Adding, while going through the history, a command that equals the last but one.',
      breaks='The command is neither added nor is the cursor moved to the end.',
      cpp=HP + r"""
int main()
{
    CommandHistoryHandler h;
    h.add_command("a");
    h.add_command("b");
    want(h.get_previous_command(), "b");
    want(h.get_previous_command(), "a");
    h.add_command("a");
    want(h.get_previous_command(), "a");
    want(h.get_previous_command(), "b");
    return bad;
}
"""),
 dict(id='e01-check-early', property='E01', srcs=ES, libs='-ldl', flags='',
      edits=[(EI, """    std::lock_guard<std::recursive_mutex> lock(internal_callback_mutex_);

    if (is_callback_set_.load())
    {
        callback_(args ...);
""", """    if (is_callback_set_.load())
    {
        std::lock_guard<std::recursive_mutex> lock(internal_callback_mutex_);

        callback_(args ...);
""")],
      needs='The callback is changed for another one that is unset, between the check and the call of an event.',
      breaks='Whether a callback is set is checked before the mutex is taken: an event is delivered after unset_callback has returned.',
      cpp=EP + r"""
int main()
{
    Handler h;
    h.set_callback([](int){});
    std::thread t([&]{ slow_lock_ms = 300; h.event(1); });
    usleep(100000);
    h.unset_callback();
    h.reset_event_count();
    t.join();
    printf("%u events after the callback was unset\n", h.event_count()); fflush(stdout);
    _exit(h.event_count() == 0 ? 0 : 1);
}
"""),
 dict(id='e02-decide-early', property='E02', srcs=ES, libs='-ldl',
      edits=[(EI, """    std::lock_guard<std::recursive_mutex> lock(event_mutex_);

    bool was_callback_set_before;
""", """    bool was_callback_set_before = is_callback_set_.load();

    std::lock_guard<std::recursive_mutex> lock(event_mutex_);
"""), (EI, 'was_callback_set_before = is_callback_set_.exchange(true);', 'is_callback_set_.store(true);')],
      needs='Two threads that set a callback of the same handler at the same time.',
      breaks='Both find that no callback was set: the source of events is started twice.',
      cpp=EP + r"""
int main()
{
    Handler h;
    std::thread a([&]{ slow_lock_ms = 200; h.set_callback([](int){}); });
    std::thread b([&]{ slow_lock_ms = 200; h.set_callback([](int){}); });
    a.join(); b.join();
    printf("started %d times, changed %d times\n", (int)h.sets, (int)h.changes); fflush(stdout);
    _exit(h.sets == 1 && h.changes == 1 ? 0 : 1);
}
"""),
 dict(id='e02-stop-locked', property='E02', srcs=ES, libs='-ldl',
      edits=[(EI, """        // Setting new callback (even when it will not be called)
        callback_ = DEFAULT_CALLBACK_;
""", """        // Call child methods in case they should do something when handler is disabled
        callback_unset_nts_();

        // Setting new callback (even when it will not be called)
        callback_ = DEFAULT_CALLBACK_;
"""), (EI, """        // Call child methods in case they should do something when handler is disabled
        callback_unset_nts_();

        // Awaking""", """        // Awaking""")],
      needs='An event that occurs while the callback is being unset, in a handler that joins its thread when it is stopped.',
      breaks='The source of events is stopped with the mutex of the callback held: the thread that delivers an event needs that mutex, and is waited for with it held.',
      cpp=EP + r"""
int main()
{
    Handler h;
    std::atomic<bool> stop{false}, done{false};
    h.set_callback([](int){});
    // the thread that delivers events ends when it is told to, and is joined by the hook
    std::thread t([&]{ while (!stop) usleep(1000); usleep(50000); h.event(1); done = true; });
    h.on_unset = [&]{ stop = true; t.join(); };
    std::thread u([&]{ h.unset_callback(); });
    for (int i = 0; i < 200 && !done; ++i) usleep(10000);
    printf("%s\n", done ? "stopped" : "blocked"); fflush(stdout);
    if (!done) _exit(1);
    u.join();
    _exit(0);
}
"""),
 dict(id='e03-one-waiter', property='E03', srcs=ES, libs='-ldl',
      edits=[(EI, """    // Awake every thread waiting for event to occur
    wait_condition_variable_.notify_all();
""", """    // Awake the thread waiting for event to occur
    wait_condition_variable_.notify_one();
""")],
      needs='Two threads that wait for different numbers of events, and an event that is enough for the second one only.',
      breaks='The thread that is notified is not the one whose condition is met, which sleeps for ever.',
      cpp=EP + r"""
int main()
{
    Handler h;
    std::atomic<bool> one{false};
    h.set_callback([](int){});
    std::thread a([&]{ h.wait_for_event(5); });
    usleep(100000);
    std::thread b([&]{ h.wait_for_event(1); one = true; });
    usleep(100000);
    h.event(1);
    for (int i = 0; i < 100 && !one; ++i) usleep(10000);
    printf("%s\n", one ? "awake" : "still waiting"); fflush(stdout);
    _exit(one ? 0 : 1);
}
"""),
 dict(id='e03-no-recheck', property='E03', srcs=ES, libs='-ldl',
      edits=[(EI, """        wait_condition_variable_.wait(
            lock,
            [n, this]
            {
                // Exit if number of events is bigger than expected n
                // or if callback is no longer set
                return number_of_events_registered_ >= n || !is_callback_set_.load();
            });
""", """        // Exit if number of events is bigger than expected n
        // or if callback is no longer set
        if (number_of_events_registered_ < n && is_callback_set_.load())
        {
            wait_condition_variable_.wait(lock);
        }
""")],
      needs='Waiting for more than one event, or a spurious wake-up.',
      breaks='wait_for_event returns false after the first event although the callback is still set and two events were asked for.',
      cpp=EP + r"""
int main()
{
    Handler h;
    h.set_callback([](int){});
    std::atomic<int> res{-1};
    std::thread a([&]{ res = h.wait_for_event(2); });
    usleep(100000);
    h.event(1);
    usleep(200000);
    int early = res;
    h.event(2);
    a.join();
    printf("after one event %d, after two %d\n", early, (int)res); fflush(stdout);
    _exit(early == -1 && res == 1 ? 0 : 1);
}
"""),

 dict(id='e04-signal-once', property='E04', srcs=ES,
      edits=[('cpp_utils/include/cpp_utils/event/impl/SignalEventHandler.ipp', 'callback_set_in_manager_.exchange(false)', 'callback_set_in_manager_.load()')],
      needs='A signal handler whose callback is unset and set again.',
      breaks='The handler is not registered again: no signal reaches it any more.',
      cpp=r"""
#include <csignal>
#include <unistd.h>
#include <atomic>
#include <cstdio>
#include <cpp_utils/event/SignalEventHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    std::atomic<int> n{0};
    auto* h = new SignalEventHandler<Signal::sigusr1>([&](Signal){ ++n; });
    usleep(100000);
    h->unset_callback();
    h->set_callback([&](Signal){ ++n; });
    usleep(100000);
    for (int i = 0; i < 20 && n == 0; ++i) { raise(SIGUSR1); usleep(50000); }
    printf("%d signals\n", (int)n); fflush(stdout);
    _exit(n > 0 ? 0 : 1);
}
"""),
 dict(id='e04-detach', property='E04', srcs=['event/PeriodicEventHandler.cpp'] + ES,
      edits=[('cpp_utils/src/cpp/event/PeriodicEventHandler.cpp', '    period_thread_.join();', '    period_thread_.detach();')],
      needs='The handler is destroyed while its thread has not yet come back from its wait.',
      breaks='The thread goes on using the handler after it was destroyed.',
      cpp=r"""
#include <unistd.h>
#include <atomic>
#include <cstdio>
#include <cpp_utils/event/PeriodicEventHandler.hpp>
using namespace eprosima::utils::event;
std::atomic<bool> ended{false};
struct Last { int x = 0; ~Last() { usleep(100000); ended = true; } };
thread_local Last last;
int main()
{
    std::atomic<int> n{0};
    auto* h = new PeriodicEventHandler([&]{ ++last.x; ++n; }, 20);
    while (n == 0) usleep(1000);
    h->unset_callback();
    bool ok = ended;      // everything the thread does has been done
    printf("%s\n", ok ? "thread has ended" : "thread still runs"); fflush(stdout);
    _exit(ok ? 0 : 1);
}
"""),
 dict(id='e04-watch-again', property='E04', srcs=['event/FileWatcherHandler.cpp'] + ES, flags='-I"$R/src/cpp" -I"$R/../thirdparty/filewatch"',
      edits=[('cpp_utils/src/cpp/event/FileWatcherHandler.cpp', '    file_watch_handler_.reset();\n    filewatcher_started_.store(false);', '    file_watch_handler_.reset();')],
      needs='A callback that is unset and set again.',
      breaks='The file is not watched any more although a callback is set.',
      cpp=r"""
#include <unistd.h>
#include <atomic>
#include <cstdio>
#include <fstream>
#include <memory>
#include <cpp_utils/event/FileWatcherHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    std::ofstream("file.txt") << "a\n";
    std::atomic<int> n{0};
    FileWatcherHandler h([&](std::string){ ++n; }, "./file.txt");
    for (int r = 0; r < 2; ++r)
    {
        usleep(50000);
        h.unset_callback();
        h.set_callback([&](std::string){ ++n; });
    }
    n = 0;
    for (int i = 0; i < 20 && n == 0; ++i) { usleep(100000); std::ofstream("file.txt", std::ios::app) << "b\n"; }
    for (int i = 0; i < 20 && n == 0; ++i) usleep(100000);
    printf("%d modifications seen\n", (int)n); fflush(stdout);
    _exit(n > 0 ? 0 : 1);
}
"""),

 dict(id='e05-stop-lost', property='E05', srcs=['event/PeriodicEventHandler.cpp'] + ES, libs='-ldl',
      edits=[('cpp_utils/src/cpp/event/PeriodicEventHandler.cpp', '    {\n        std::unique_lock<std::mutex> lock(periodic_wait_mutex_);\n        timer_active_.store(false);\n    }\n', '    timer_active_.store(false);\n')],
      needs='unset_callback between the check of the thread and its sleep.',
      breaks='The thread misses that it has to stop: unset_callback blocks for a whole period.',
      cpp=r"""
#include <dlfcn.h>
#include <pthread.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cpp_utils/event/PeriodicEventHandler.hpp>
using namespace eprosima::utils::event;
std::atomic<bool> armed{false};
std::atomic<int> waits{0};
// Legal delay: a thread is preempted right before it falls asleep.
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t)
{
    static auto real = (int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*))dlsym(RTLD_NEXT, "pthread_cond_clockwait");
    ++waits;
    usleep(300000);
    return real(c, m, k, t);
}
int main()
{
    auto* h = new PeriodicEventHandler([]{}, 4000);
    while (waits == 0) usleep(1000);
    usleep(50000);
    auto t = std::chrono::steady_clock::now();
    h->unset_callback();
    auto d = std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t).count();
    printf("stopped after %d ms\n", (int)d); fflush(stdout);
    _exit(d < 2500 ? 0 : 1);
}
"""),
 dict(id='e05-early', property='E05', srcs=['event/PeriodicEventHandler.cpp'] + ES, libs='-ldl',
      edits=[('cpp_utils/src/cpp/event/PeriodicEventHandler.cpp', """            std::chrono::milliseconds(period_time_),
            [this]
            {
                // Exit if number of events is bigger than expected n
                // or if callback is no longer set
                return !timer_active_.load();
            });
""", """            std::chrono::milliseconds(period_time_));
""")],
      needs='A spurious wake-up of the thread.',
      breaks='An event is raised although the period has not elapsed.',
      cpp=r"""
#include <dlfcn.h>
#include <pthread.h>
#include <unistd.h>
#include <atomic>
#include <cstdio>
#include <cpp_utils/event/PeriodicEventHandler.hpp>
using namespace eprosima::utils::event;
std::atomic<int> waits{0};
// A condition variable may wake up spuriously.
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t)
{
    static auto real = (int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*))dlsym(RTLD_NEXT, "pthread_cond_clockwait");
    if (++waits <= 3) return 0;
    return real(c, m, k, t);
}
int main()
{
    std::atomic<int> n{0};
    auto* h = new PeriodicEventHandler([&]{ ++n; }, 3000);
    while (waits < 4) usleep(1000);
    usleep(100000);
    int early = n;
    printf("%d events before the period elapsed\n", early); fflush(stdout);
    _exit(early == 0 ? 0 : 1);
}
"""),
 dict(id='e06-deliver-copy', property='E06', srcs=ES,
      edits=[('cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp', '    std::lock_guard<std::mutex> lock(active_callbacks_mutex_);\n\n    logInfo', '    std::unique_lock<std::mutex> lock(active_callbacks_mutex_);\n    const std::map<UniqueCallbackId, std::function<void()>> callbacks = active_callbacks_;\n    lock.unlock();\n\n    logInfo'),
             ('cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp', 'for (auto it : active_callbacks_)', 'for (auto it : callbacks)')],
      needs='A callback that is unregistered while another one is being called for a signal.',
      breaks='The callback is called after unregister_callback returned, on an object that may be gone.',
      cpp=r"""
#include <csignal>
#include <unistd.h>
#include <atomic>
#include <cstdio>
#include <thread>
#include <cpp_utils/event/SignalManager.hpp>
using namespace eprosima::utils::event;
int main()
{
    auto& m = SignalManager<Signal::sigusr1>::get_instance();
    std::atomic<int> in{0};
    std::atomic<bool> gone{false}, bad{false};
    m.register_callback([&]{ ++in; for (int i = 0; i < 50 && !gone; ++i) usleep(10000); });
    auto id = m.register_callback([&]{ if (gone) bad = true; });
    usleep(100000);
    for (int i = 0; i < 20 && !in; ++i) { raise(SIGUSR1); usleep(50000); }
    m.unregister_callback(id);
    gone = true;
    usleep(300000);
    printf("%s\n", bad ? "called after it was unregistered" : "not called any more"); fflush(stdout);
    _exit(in && !bad ? 0 : 1);
}
"""),
 dict(id='e06-merge', property='E06', srcs=ES,
      edits=[('cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp', '            signals_received_--;', '            signals_received_ = 0;')],
      needs='Several signals received while the callbacks are being called for another one.',
      breaks='The callbacks are called once for all of them instead of once for each.',
      cpp=r"""
#include <csignal>
#include <unistd.h>
#include <atomic>
#include <cstdio>
#include <thread>
#include <cpp_utils/event/SignalManager.hpp>
using namespace eprosima::utils::event;
int main()
{
    auto& m = SignalManager<Signal::sigusr1>::get_instance();
    std::atomic<int> in{0}, sent{0};
    std::atomic<bool> go{false};
    m.register_callback([&]{ ++in; while (!go) usleep(1000); });
    usleep(100000);
    for (int i = 0; i < 20 && !in; ++i) { raise(SIGUSR1); ++sent; usleep(100000); }
    for (int i = 0; i < 3; ++i) { raise(SIGUSR1); ++sent; usleep(20000); }
    go = true;
    for (int i = 0; i < 100 && in < sent; ++i) usleep(10000);
    printf("%d signals, %d calls\n", (int)sent, (int)in); fflush(stdout);
    _exit(in == sent ? 0 : 1);
}
"""),
 dict(id='e06-handler-lock', property='E06', srcs=ES,
      edits=[('cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp', '    signals_received_++;\n', '    {\n        std::lock_guard<std::mutex> lock(get_instance().signal_received_cv_mutex_);\n        signals_received_++;\n    }\n')],
      needs='A signal that interrupts the thread of the manager while it calls callbacks.',
      breaks='The thread blocks for ever on a mutex it holds itself.',
      cpp=r"""
#include <csignal>
#include <unistd.h>
#include <atomic>
#include <cstdio>
#include <cpp_utils/event/SignalManager.hpp>
using namespace eprosima::utils::event;
int main()
{
    auto& m = SignalManager<Signal::sigusr1>::get_instance();
    std::atomic<int> done{0};
    m.register_callback([&]{ if (done == 0) raise(SIGUSR1); ++done; });
    usleep(100000);
    for (int i = 0; i < 20 && !done; ++i) { kill(getpid(), SIGUSR1); usleep(100000); }
    printf("%d calls completed\n", (int)done); fflush(stdout);
    _exit(done > 0 ? 0 : 1);
}
"""),
]
