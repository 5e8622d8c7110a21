S = 'cpp_utils/src/cpp/event/StdinEventHandler.cpp'
H = 'cpp_utils/include/cpp_utils/event/StdinEventHandler.hpp'
E7 = ['E07']
UP = """                        std::string prev_command = history_handler_.get_previous_command();
                        if (!prev_command.empty())
                        {
                            std::string prompt = ">> ";
                            int term_width = get_terminal_width();
                            int lines = compute_lines_needed(prompt, read_str, term_width);
                            clear_lines(lines);
                            read_str = prev_command;
                            cursor_index = read_str.size();
"""
NLB = """                event_occurred_(read_str);

                if (!is_ignoring_input() && !read_str.empty())
                {
                    history_handler_.add_command(read_str);
                }

                read_str = "";
                cursor_index = 0;
                break;
"""
CC = """                event_occurred_("");
                read_str = "";
                cursor_index = 0;
                break;
"""
M = [
 ('two lines', E7, 'caught', [(S, '    ++activation_times_;\n', '    ++activation_times_;\n    ++activation_times_;\n')]),
 ('no initial', E7, 'caught', [(S, 'activation_times_(0, lines_to_read, false)', 'activation_times_(0, 0, false)')]),
 ('thr 1', E7, 'caught', [(S, 'activation_times_(0, lines_to_read, false)', 'activation_times_(1, lines_to_read, false)')]),
 ('ignore kept', E7, 'caught', [(S, 'ignore_input_.store(ignore', 'ignore_input_.store(!ignore')]),
 ('ignore or', E7, 'caught', [(S, 'ignore_input_.store(ignore', 'ignore_input_.store(ignore || ignore_input_')]),
 ('eof lost', E7, 'caught', [(S, ' || c == EOF)', ')')]),
 ('eof as char', E7, 'caught', [(S, '            int c;\n            c = getchar(); // Read', '            unsigned char c;\n            c = getchar(); // Read')]),
 ('no cr', E7, 'caught', [(S, "c == '\\n' || c == '\\r' || c == EOF", "c == '\\n' || c == EOF || c == 'q'")]),
 ('twice event', E7, 'caught', [(S, NLB, NLB.replace('                read_str = "";', '                if (read_lines_)\n                {\n                    event_occurred_("");\n                }\n                read_str = "";'))]),
 ('no event empty', E7, 'caught', [(S, '                event_occurred_(read_str);\n\n', '                if (!read_str.empty())\n                {\n                    event_occurred_(read_str);\n                }\n\n')]),
 ('ctrl c no event', E7, 'caught', [(S, CC, CC.replace('                event_occurred_("");\n', ''))]),
 ('ctrl c line', E7, 'caught', [(S, CC, CC.replace('event_occurred_("")', 'event_occurred_(read_str)'))]),
 ('ctrl c goes on', E7, 'caught', [(S, CC, CC.replace('                break;\n', ''))]),
 ('line goes on', E7, 'caught', [(S, NLB, NLB.replace('                break;\n', ''))]),
 ('hist ignored', E7, 'caught', [(S, 'if (!is_ignoring_input() && !read_str.empty())', 'if (!read_str.empty())')]),
 ('hist empty', E7, 'caught', [(S, 'if (!is_ignoring_input() && !read_str.empty())', 'if (!is_ignoring_input())')]),
 ('hist inverted', E7, 'caught', [(S, 'if (!is_ignoring_input() && !read_str.empty())', 'if (is_ignoring_input() && !read_str.empty())')]),
 ('hist short', E7, 'caught', [(S, 'if (!is_ignoring_input() && !read_str.empty())', 'if (!is_ignoring_input() && read_str.size() > 1)')]),
 ('hist cleared', E7, 'caught', [(S, NLB, NLB.replace('                event_occurred_(read_str);\n\n', '                std::string done = read_str;\n                event_occurred_(done);\n                read_str = "x";\n'))]),
 ('hist twice', E7, 'caught', [(S, '                    history_handler_.add_command(read_str);\n', '                    history_handler_.add_command(read_str);\n                    history_handler_.add_command(read_str);\n')]),
 ('hist ctrl c', E7, 'caught', [(S, CC, CC.replace('event_occurred_("");\n', 'event_occurred_("");\n                history_handler_.add_command(read_str);\n'))]),
 ('persistent', E7, 'caught', [(S, '        std::string read_str;\n        size_t cursor_index = 0;\n#if', '#if'), (S, '    auto awake_reason = activation', '    std::string read_str;\n    size_t cursor_index = 0;\n    auto awake_reason = activation'), (S, CC, CC.replace('                read_str = "";\n                cursor_index = 0;\n', ''))]),
 ('persistent idx', E7, 'caught', [(S, '        std::string read_str;\n        size_t cursor_index = 0;\n#if', '        std::string read_str;\n#if'), (S, '    auto awake_reason = activation', '    size_t cursor_index = 0;\n    auto awake_reason = activation'), (S, CC, CC.replace('                cursor_index = 0;\n', ''))]),
 ('up cursor', E7, 'caught', [(S, UP, UP.replace('                            cursor_index = read_str.size();\n', ''))]),
 ('up cursor before', E7, 'caught', [(S, UP, UP.replace('                            cursor_index = read_str.size();\n', '').replace('read_str = prev_command;', 'cursor_index = read_str.size();\n                            read_str = prev_command;'))]),
 ('up cursor end', E7, 'caught', [(S, UP, UP.replace('read_str.size();', 'read_str.size() + 1;'))]),
 ('right beyond', E7, 'caught', [(S, 'if (index < line.size())\n                                    {\n                                        ++index', 'if (index <= line.size())\n                                    {\n                                        ++index')]),
 ('delete beyond', E7, 'caught', [(S, 'if (index < line.size())\n                                            {\n                                                line.erase', 'if (index <= line.size())\n                                            {\n                                                line.erase')]),
 ('left below', E7, 'caught', [(S, '                                        if (index > 0)\n                                        {\n                                            --index;\n                                        }\n', '                                        --index;\n'), (S, '                        if (cursor_index > 0)\n                        {\n                            update_line', '                        {\n                            update_line')]),
 ('bs no dec', E7, 'caught', [(S, '                                    line.erase(line.begin() + index - 1);\n                                    --index;\n', '                                    line.erase(line.begin() + index - 1);\n')]),
 ('bs wrong', E7, 'caught', [(S, 'line.erase(line.begin() + index - 1);', 'line.erase(line.begin() + index);')]),
 ('insert twice', E7, 'caught', [(S, '                            ++index;\n                        });\n\n            }', '                            index += 2;\n                        });\n\n            }')]),
 ('end beyond', E7, 'caught', [(S, 'index = line.size();', 'index = line.size() + 1;')]),
 ('width zero', E7, 'caught', [(S, ' || w.ws_col == 0)', ')')]),
 ('width no 80', E7, 'caught', [(S, ' || w.ws_col == 0)', ')'), (S, '    if (term_width <= 0)\n    {\n        term_width = 80;\n    }\n\n', '')]),
 ('mode late', E7, 'caught', [(S, '    set_terminal_mode_(true);\n\n    auto awake_reason = activation_times_.wait_and_decrement();', '    auto awake_reason = activation_times_.wait_and_decrement();\n    set_terminal_mode_(true);\n')]),
 ('mode per line', E7, 'caught', [(S, '    set_terminal_mode_(true);\n\n    auto awake', '    auto awake'), (S, '        std::string read_str;\n        size_t cursor_index = 0;\n', '        set_terminal_mode_(true);\n        std::string read_str;\n        size_t cursor_index = 0;\n')]),
 ('mode not restored', E7, 'caught', [(S, '    set_terminal_mode_(false);\n', '    if (!is_ignoring_input())\n    {\n        set_terminal_mode_(false);\n    }\n')]),
 ('mode restored raw', E7, 'caught', [(S, 'tcsetattr(STDIN_FILENO, TCSANOW, &oldt);', 'tcsetattr(STDIN_FILENO, TCSANOW, &newt);')]),
 ('mode old changed', E7, 'caught', [(S, 'newt.c_lflag &= ~(ICANON | ECHO | ISIG);', 'oldt.c_lflag &= ~(ICANON | ECHO | ISIG);\n        newt = oldt;')]),
 ('not wait', E7, 'caught', [(S, '        awake_reason = activation_times_.wait_and_decrement();\n    }\n', '    }\n')]),
 ('timeout as met', E7, 'caught', [(S, 'while (awake_reason == AwakeReason::condition_met)', 'while (awake_reason != AwakeReason::timeout)')]),
 ('once', E7, 'caught', [(S, 'while (awake_reason == AwakeReason::condition_met)', 'if (awake_reason == AwakeReason::condition_met)')]),
 ('r dowhile', E7, 'quiet', [(S, '    auto awake_reason = activation_times_.wait_and_decrement();\n    while (awake_reason == AwakeReason::condition_met)\n    {\n', '    while (activation_times_.wait_and_decrement() == AwakeReason::condition_met)\n    {\n'), (S, '\n        awake_reason = activation_times_.wait_and_decrement();\n    }\n', '    }\n')]),
 ('r for ever', E7, 'quiet', [(S, '    auto awake_reason = activation_times_.wait_and_decrement();\n    while (awake_reason == AwakeReason::condition_met)\n    {\n', '    for (;;)\n    {\n        const auto awake_reason = activation_times_.wait_and_decrement();\n        if (awake_reason != AwakeReason::condition_met)\n        {\n            break;\n        }\n'), (S, '\n        awake_reason = activation_times_.wait_and_decrement();\n    }\n', '    }\n')]),
 ('r no clear', E7, 'quiet', [(S, '                read_str = "";\n                cursor_index = 0;\n                break;\n            }\n            else if (c == \'\\b\'', '                break;\n            }\n            else if (c == \'\\b\'')]),
 ('r clear()', E7, 'quiet', [(S, CC, CC.replace('read_str = "";', 'read_str.clear();'))]),
 ('r empty str', E7, 'quiet', [(S, CC, CC.replace('event_occurred_("");', 'event_occurred_(std::string());'))]),
 ('r nested if', E7, 'quiet', [(S, 'if (!is_ignoring_input() && !read_str.empty())\n                {\n                    history_handler_.add_command(read_str);\n                }', 'if (!is_ignoring_input())\n                {\n                    if (read_str.size() > 0)\n                    {\n                        history_handler_.add_command(read_str);\n                    }\n                }')]),
 ('r const bool', E7, 'quiet', [(S, '                if (!is_ignoring_input() && !read_str.empty())', '                const bool record = !is_ignoring_input() && !read_str.empty();\n                if (record)')]),
 ('r ignore load', E7, 'quiet', [(S, 'if (!is_ignoring_input() && !read', 'if (!ignore_input_.load() && !read')]),
 ('r left no check', E7, 'quiet', [(S, '                        if (cursor_index > 0)\n                        {\n                            update_line', '                        {\n                            update_line')]),
 ('r width min', E7, 'quiet', [(S, '    if (term_width <= 0)\n    {\n        term_width = 80;\n    }\n\n', '    if (term_width < 1)\n    {\n        term_width = 80;\n    }\n\n')]),
 ('r width only', E7, 'quiet', [(S, '    if (term_width <= 0)\n    {\n        term_width = 80;\n    }\n\n', '')]),
 ('r width const', E7, 'quiet', [(S, '    struct winsize w;\n', '    struct winsize w;\n    const int def = 80;\n'), (S, '        return 80;\n', '        return def;\n')]),
 ('r width ternary', E7, 'quiet', [(S, '    if (ioctl(STDOUT_FILENO, TIOCGWINSZ, &w) != 0 || w.ws_col == 0)\n    {\n        return 80;\n    }\n    return w.ws_col;\n', '    const bool known = ioctl(STDOUT_FILENO, TIOCGWINSZ, &w) == 0 && w.ws_col > 0;\n    return known ? w.ws_col : 80;\n')]),
 ('r helper', E7, 'quiet', [(S, NLB, NLB.replace('                if (!is_ignoring_input() && !read_str.empty())\n                {\n                    history_handler_.add_command(read_str);\n                }\n', '                remember_(read_str);\n')), (S, 'void StdinEventHandler::callback_set_nts_', 'void StdinEventHandler::remember_(const std::string& line)\n{\n    if (is_ignoring_input() || line.empty())\n    {\n        return;\n    }\n    history_handler_.add_command(line);\n}\n\nvoid StdinEventHandler::callback_set_nts_'), (H, '    CounterWaitHandler activation_times_;', '    void remember_(const std::string& line);\n    CounterWaitHandler activation_times_;')]),
 ('r mode split', E7, 'quiet', [(S, '    set_terminal_mode_(true);\n\n    auto awake', '    const bool raw = true;\n    set_terminal_mode_(raw);\n\n    auto awake')]),
 ('r up swap', E7, 'quiet', [(S, UP, UP.replace('                            read_str = prev_command;\n                            cursor_index = read_str.size();\n', '                            cursor_index = prev_command.size();\n                            read_str = prev_command;\n'))]),
 ('r up move', E7, 'quiet', [(S, UP, UP.replace('read_str = prev_command;', 'read_str = std::move(prev_command);'))]),
 ('r size expr', E7, 'quiet', [(S, 'index = line.size();', 'index = line.length();')]),
 ('r switch c', E7, 'quiet', [(S, "            else if (c == '\\x03') // Ctrl+C", "            else if (c == 3)")]),
 ('r void', E7, 'quiet', [(S, '            int c;\n            c = getchar(); // Read', '            const int c = getchar(); // Read')]),
 ('r fetch', E7, 'quiet', [(S, 'void StdinEventHandler::stdin_listener_thread_routine_() noexcept\n', 'static bool ends_line(int c)\n{\n    return c == \'\\n\' || c == \'\\r\' || c == EOF;\n}\n\nvoid StdinEventHandler::stdin_listener_thread_routine_() noexcept\n'), (S, "else if (c == '\\n' || c == '\\r' || c == EOF)", 'else if (ends_line(c))')]),
 ('eof bad char', E7, 'caught', [(S, '            int c;\n            c = getchar(); // Read', '            char c;\n            c = getchar(); // Read')]),
 ('r ch early', E7, 'quiet', [(S, '            c = getchar(); // Read', '            c = getchar(); //\n            const char key = static_cast<char>(c); // Read'), (S, "c == '\\n' || c == '\\r' ||", "key == '\\n' || key == '\\r' ||"), (S, "else if (c == '\\x03')", "else if (key == '\\x03')")]),
]
