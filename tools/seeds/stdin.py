ST = 'cpp_utils/src/cpp/event/StdinEventHandler.cpp'
SS = ['event/StdinEventHandler.cpp', 'history/CommandHistoryHandler.cpp', 'wait/CounterWaitHandler.cpp', 'wait/IntWaitHandler.cpp', 'wait/BooleanWaitHandler.cpp',
      'time/time_utils.cpp', 'utils.cpp', 'exception/Exception.cpp', 'Formatter.cpp', 'math/math_extension.cpp']
SPRE = r"""
#include <unistd.h>
#include <cstdio>
#include <mutex>
#include <string>
#include <thread>
#include <chrono>
#include <vector>
#include <cpp_utils/event/StdinEventHandler.hpp>
using namespace eprosima::utils;
static std::mutex m_;
static std::vector<std::string> got_;
static void put(const std::string& s) { std::lock_guard<std::mutex> l(m_); got_.push_back(s); }
static size_t count() { std::lock_guard<std::mutex> l(m_); return got_.size(); }
static int pipe_[2];
static void start() { if (pipe(pipe_) != 0 || dup2(pipe_[0], 0) != 0) _exit(3); }
static void type(const std::string& s) { if (write(pipe_[1], s.data(), s.size()) != (ssize_t)s.size()) _exit(3); }
static void wait_n(size_t n) { for (int i = 0; i < 300 && count() < n; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(10)); }
"""
UPG = """                            if (!prev.empty())
                            {
                                std::string prompt = ">> ";
                                int term_width = get_terminal_width();
                                int lines = compute_lines_needed(prompt, read_str, term_width);
                                clear_lines(lines);
                                read_str = prev;
                                cursor_index = read_str.size();
"""
S = [
 dict(id='e07-page-up-position', property='E07', srcs=SS,
      edits=[(ST, UPG, UPG.replace('                                cursor_index = read_str.size();\n', ''))],
      needs='Page Up (previous command) pressed while a line longer than that command is being edited, then another character.',
      breaks='The position in the line stays where it was, beyond the end of the recalled line: the next character is inserted out of it.',
      cpp=SPRE + r"""
int main()
{
    start();
    event::StdinEventHandler h([](std::string s){ put(s); }, true, 2);
    type("ab\n");
    wait_n(1);
    type("longer\033[5~c\n");
    wait_n(2);
    std::string last = count() > 1 ? got_[1] : "nothing";
    fprintf(stderr, "[%s]\n", last.c_str());
    _exit(last == "abc" ? 0 : 1);
}
"""),
 dict(id='e07-line-kept', property='E07', srcs=SS,
      edits=[(ST, '        std::string read_str;\n        size_t cursor_index = 0;\n#if', '#if'),
             (ST, '    auto awake_reason = activation_times_.wait_and_decrement();\n    while', '    std::string read_str;\n    size_t cursor_index = 0;\n    auto awake_reason = activation_times_.wait_and_decrement();\n    while'),
             (ST, '                event_occurred_("");\n                read_str = "";\n                cursor_index = 0;\n', '                event_occurred_("");\n')],
      needs='Ctrl+C in the middle of a line, and then another line.',
      breaks='The line given up is not cleared: the next line begins with it.',
      cpp=SPRE + r"""
int main()
{
    start();
    event::StdinEventHandler h([](std::string s){ put(s); }, true, 2);
    type("abc\x03");
    wait_n(1);
    type("d\n");
    wait_n(2);
    std::string last = count() > 1 ? got_[1] : "nothing";
    fprintf(stderr, "[%s]\n", last.c_str());
    _exit(last == "d" ? 0 : 1);
}
"""),
 dict(id='e07-mode-per-line', property='E07', srcs=SS,
      edits=[(ST, '    set_terminal_mode_(true);\n\n    auto awake', '    auto awake'),
             (ST, '        std::string read_str;\n        size_t cursor_index = 0;\n', '        set_terminal_mode_(true);\n        std::string read_str;\n        size_t cursor_index = 0;\n')],
      needs='Two lines read by the same handler, and the handler destroyed.',
      breaks='The mode of the terminal is saved again for the second line, when it is already the one for editing: that one is restored at the end, and the terminal is left without echo.',
      cpp=r"""
#include <termios.h>
""" + SPRE + r"""
// stand-ins for the terminal
static termios mode_ = {};
extern "C" int tcgetattr(int, termios* t) { *t = mode_; return 0; }
extern "C" int tcsetattr(int, int, const termios* t) { mode_ = *t; return 0; }
int main()
{
    mode_.c_lflag = ICANON | ECHO | ISIG;
    start();
    {
        event::StdinEventHandler h([](std::string s){ put(s); }, true, 2);
        type("a\n");
        wait_n(1);
        type("b\n");
        wait_n(2);
    }
    const bool ok = mode_.c_lflag == (ICANON | ECHO | ISIG);
    fprintf(stderr, "%zu lines, mode %s\n", count(), ok ? "restored" : "not restored");
    _exit(ok && count() == 2 ? 0 : 1);
}
"""),
]
