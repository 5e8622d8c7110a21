ES = ['event/MultipleEventHandler.cpp', 'utils.cpp', 'exception/Exception.cpp', 'Formatter.cpp', 'math/math_extension.cpp']
SS = ['event/StdinEventHandler.cpp', 'history/CommandHistoryHandler.cpp', 'wait/CounterWaitHandler.cpp', 'wait/IntWaitHandler.cpp', 'wait/BooleanWaitHandler.cpp',
      'time/time_utils.cpp', 'utils.cpp', 'exception/Exception.cpp', 'Formatter.cpp', 'math/math_extension.cpp']
I = 'cpp_utils/include/cpp_utils/event/impl/MultipleEventHandler.ipp'
C = 'cpp_utils/src/cpp/event/MultipleEventHandler.cpp'
R = 'cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp'
HPRE = r"""
#include <cstdio>
#include <memory>
#include <cpp_utils/event/MultipleEventHandler.hpp>
using namespace eprosima::utils::event;
static int gone_ = 0;
template <typename ... A>
struct Source : EventHandler<A...>
{
    ~Source() { this->unset_callback(); ++gone_; }
    void raise(A... a) { this->event_occurred_(a...); }
};
"""
RPRE = r"""
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <string>
#include <thread>
#include <cpp_utils/user_interface/CommandReader.hpp>
using namespace eprosima::utils;
enum class Cmd { none, say };
static int pipe_[2];
static void start() { if (pipe(pipe_) != 0 || dup2(pipe_[0], 0) != 0) _exit(3); }
static void type(const std::string& s) { if (write(pipe_[1], s.data(), s.size()) != (ssize_t)s.size()) _exit(3); }
"""
S = [
 dict(id='e08-release', property='E08', srcs=ES,
      edits=[(C, '        event.reset();\n', '        event.release();\n')],
      needs='A handler registered, and the MultipleEventHandler destroyed.',
      breaks='The handler is never destroyed: it goes on raising its events into an object that no longer exists.',
      cpp=HPRE + r"""
int main()
{
    {
        MultipleEventHandler m([]{});
        m.register_event_handler<EventHandler<int>, int>(std::unique_ptr<EventHandler<int>>(new Source<int>()));
        m.register_event_handler<EventHandler<>>(std::unique_ptr<EventHandler<>>(new Source<>()));
    }
    printf("%d handlers destroyed\n", gone_);
    return gone_ == 2 ? 0 : 1;
}
"""),
 dict(id='e08-one-source', property='E08', srcs=ES,
      edits=[(I, '    // Store handler. It will be', '    handlers_registered_.remove_if([](const std::unique_ptr<IBaseEventHandler>& h) { return dynamic_cast<T*>(h.get()) != nullptr; });\n\n    // Store handler. It will be')],
      needs='Two handlers of the same type registered.',
      breaks='Registering the second one destroys the first: its events are lost.',
      cpp=HPRE + r"""
int main()
{
    int n = 0;
    MultipleEventHandler m([&]{ ++n; });
    auto a = new Source<int>(), b = new Source<int>();
    m.register_event_handler<EventHandler<int>, int>(std::unique_ptr<EventHandler<int>>(a));
    m.register_event_handler<EventHandler<int>, int>(std::unique_ptr<EventHandler<int>>(b));
    if (gone_) { printf("destroyed too early\n"); return 1; }
    a->raise(1);
    b->raise(2);
    printf("%d events\n", n);
    return n == 2 ? 0 : 1;
}
"""),
 dict(id='u01-empty-line', property='U01', srcs=SS,
      edits=[(R, '    commands_read_.produce(command_read);', '    if (!command_read.empty())\n    {\n        commands_read_.produce(command_read);\n    }')],
      needs='An empty line (or Ctrl+C) typed where a command was expected.',
      breaks='Nothing is delivered for that line and no other one is asked for: read_next_command blocks for ever.',
      cpp=RPRE + r"""
int main()
{
    start();
    EnumBuilder<Cmd> b({{Cmd::say, {"say"}}});
    CommandReader<Cmd> r(b);
    std::atomic<bool> done{false};
    std::thread t([&]{ Command<Cmd> c; r.read_next_command(c); done = true; });
    type("\n");
    for (int i = 0; i < 300 && !done; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(10));
    fprintf(stderr, "%s\n", done ? "read" : "blocked");
    _exit(done ? 0 : 1);
}
"""),
 dict(id='u01-leading-space', property='U01', srcs=SS,
      edits=[(R, 'builder_.string_to_enumeration(command.arguments[0], command.command)', 'builder_.string_to_enumeration(\n        command.arguments[command.arguments.size() > 1 && command.arguments[0].empty() ? 1 : 0], command.command)')],
      needs='A line that begins with a space.',
      breaks='The second word is looked up instead of the first: the command found is not arguments[0].',
      cpp=RPRE + r"""
int main()
{
    start();
    EnumBuilder<Cmd> b({{Cmd::say, {"say"}}});
    CommandReader<Cmd> r(b);
    type(" say x\n");
    Command<Cmd> c;
    c.command = Cmd::none;
    const bool found = r.read_next_command(c);
    fprintf(stderr, "[%s] %d\n", c.arguments[0].c_str(), found);
    _exit(!found && c.command == Cmd::none && c.arguments[0] == "" ? 0 : 1);
}
"""),
]
