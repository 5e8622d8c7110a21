I = 'cpp_utils/include/cpp_utils/event/impl/MultipleEventHandler.ipp'
C = 'cpp_utils/src/cpp/event/MultipleEventHandler.cpp'
R = 'cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp'
RH = 'cpp_utils/include/cpp_utils/user_interface/CommandReader.hpp'
U = 'cpp_utils/src/cpp/utils.cpp'
E8 = ['E08']
U1 = ['U01']
RN = """    stdin_handler_.read_one_more_line();
    std::string full_command = commands_read_.consume();
"""
M = [
 ('first only', E8, 'caught', [(I, '    handler->set_callback(new_callback);', '    if (handlers_registered_.empty())\n    {\n        handler->set_callback(new_callback);\n    }')]),
 ('no set', E8, 'caught', [(I, '    handler->set_callback(new_callback);\n', '')]),
 ('event twice', E8, 'caught', [(I, '                this->event_occurred_();', '                this->event_occurred_();\n                this->event_occurred_();')]),
 ('event cond', E8, 'caught', [(I, '                this->event_occurred_();', '                if (number_of_events_registered_ == 0)\n                {\n                    this->event_occurred_();\n                }')]),
 ('replace', E8, 'caught', [(I, '    handlers_registered_.push_back(std::move(handler));', '    handlers_registered_.clear();\n    handlers_registered_.push_back(std::move(handler));')]),
 ('not kept', E8, 'caught', [(I, '    handlers_registered_.push_back(std::move(handler));', '    if (handlers_registered_.size() < 10)\n    {\n        handlers_registered_.push_back(std::move(handler));\n    }')]),
 ('release', E8, 'caught', [(C, 'event.reset()', 'event.release()')]),
 ('no callback', E8, 'caught', [(C, '    set_callback(callback);\n', '    (void) callback;\n')]),
 ('r emplace', E8, 'quiet', [(I, 'handlers_registered_.push_back(', 'handlers_registered_.emplace_back(')]),
 ('r inline', E8, 'quiet', [(I, '            [this]\n                (Args... args)\n            {\n                this->event_occurred_();\n            };', '            [this](Args...)\n            {\n                event_occurred_();\n            };')]),
 ('r auto', E8, 'quiet', [(I, '    std::function<void(Args...)> new_callback =', '    const auto new_callback =')]),
 ('r clear', E8, 'quiet', [(C, '    for (std::unique_ptr<IBaseEventHandler>& event : handlers_registered_)\n    {\n        event.reset();\n    }\n', '    handlers_registered_.clear();\n')]),
 ('r iter', E8, 'quiet', [(C, '    for (std::unique_ptr<IBaseEventHandler>& event : handlers_registered_)\n    {\n        event.reset();\n    }\n', '    for (auto it = handlers_registered_.begin(); it != handlers_registered_.end(); ++it)\n    {\n        it->reset();\n    }\n')]),
 ('r raw', E8, 'quiet', [(I, '    handler->set_callback(new_callback);\n', '    T* raw = handler.get();\n    raw->set_callback(new_callback);\n')]),
 ('r nullify', E8, 'quiet', [(C, 'event.reset()', 'event = nullptr')]),
 ('ask twice', U1, 'caught', [(R, RN, '    stdin_handler_.read_one_more_line();\n' + RN)]),
 ('ask late', U1, 'caught', [(R, RN, '    std::string full_command = commands_read_.consume();\n    stdin_handler_.read_one_more_line();\n')]),
 ('ask if', U1, 'caught', [(R, RN, '    if (!stdin_handler_.is_ignoring_input())\n    {\n        stdin_handler_.read_one_more_line();\n    }\n    std::string full_command = commands_read_.consume();\n')]),
 ('skip empty', U1, 'caught', [(R, RN, RN + '    while (full_command.empty())\n    {\n        full_command = commands_read_.consume();\n    }\n')]),
 ('initial', U1, 'caught', [(R, '        true,\n        0,\n', '        true,\n        1,\n')]),
 ('disabled', U1, 'caught', [(R, 'commands_read_(0, true)', 'commands_read_(0, false)')]),
 ('produce not empty', U1, 'caught', [(R, '    commands_read_.produce(command_read);', '    if (!command_read.empty())\n    {\n        commands_read_.produce(command_read);\n    }')]),
 ('produce twice', U1, 'caught', [(R, '    commands_read_.produce(command_read);', '    commands_read_.produce(command_read);\n    commands_read_.produce("");')]),
 ('produce const', U1, 'caught', [(R, '    commands_read_.produce(command_read);', '    commands_read_.produce("");')]),
 ('order', U1, 'caught', [(RH, '    event::DBQueueWaitHandler<std::string> commands_read_;\n', ''), (RH, '    event::StdinEventHandler stdin_handler_;\n', '    event::StdinEventHandler stdin_handler_;\n    event::DBQueueWaitHandler<std::string> commands_read_;\n')]),
 ('last word', U1, 'caught', [(R, 'command.arguments[0]', 'command.arguments.back()')]),
 ('first non empty', U1, 'caught', [(R, 'command.arguments[0]', 'command.arguments[command.arguments.size() > 1 && command.arguments[0].empty() ? 1 : 0]')]),
 ('other delim', U1, 'caught', [(R, 'full_command, " "', 'full_command, ","')]),
 ('not joined', U1, 'caught', [(R, 'join_quoted_strings(utils::split_string(full_command, " "))', 'utils::split_string(full_command, " ")')]),
 ('always true', U1, 'caught', [(R, '    return builder_.string_to_enumeration(command.arguments[0], command.command);', '    builder_.string_to_enumeration(command.arguments[0], command.command);\n    return true;')]),
 ('temp command', U1, 'caught', [(R, '    return builder_.string_to_enumeration(command.arguments[0], command.command);', '    CommandEnum e;\n    return builder_.string_to_enumeration(command.arguments[0], e);')]),
 ('quote lone', U1, 'caught', [(R, "joined.size() > 1 && joined.back() == '\"' ? 2", "joined.back() == '\"' ? 2")]),
 ('quote loop', U1, 'quiet', [(R, "joined.size() < 2 || joined.back()", "joined.size() <= 1 || joined.back()")]),
 ('skip word', U1, 'caught', [(R, '            result.push_back(input[i]);', '            result.push_back(input[i++]);')]),
 ('no empty words', U1, 'caught', [(R, '            result.push_back(input[i]);', '            if (!input[i].empty())\n            {\n                result.push_back(input[i]);\n            }')]),
 ('split empty', U1, 'caught', [(U, '    result.push_back(source.substr(start));\n    return result;', '    if (start < (int)source.size())\n    {\n        result.push_back(source.substr(start));\n    }\n    return result;')]),
 ('r locals', U1, 'quiet', [(R, '    command.arguments = join_quoted_strings(utils::split_string(full_command, " "));', '    const auto words = utils::split_string(full_command, " ");\n    command.arguments = join_quoted_strings(words);')]),
 ('r front', U1, 'quiet', [(R, 'command.arguments[0]', 'command.arguments.front()')]),
 ('r at', U1, 'quiet', [(R, 'command.arguments[0]', 'command.arguments.at(0)')]),
 ('r result', U1, 'quiet', [(R, '    return builder_.string_to_enumeration(command.arguments[0], command.command);', '    const bool found = builder_.string_to_enumeration(command.arguments[0], command.command);\n    return found;')]),
 ('r if', U1, 'quiet', [(R, '    return builder_.string_to_enumeration(command.arguments[0], command.command);', '    if (builder_.string_to_enumeration(command.arguments[0], command.command))\n    {\n        return true;\n    }\n    return false;')]),
 ('r move', U1, 'quiet', [(R, 'commands_read_.produce(command_read)', 'commands_read_.produce(std::move(command_read))')]),
 ('r direct', U1, 'quiet', [(R, 'this->read_command_callback_(st);', 'this->commands_read_.produce(st);')]),
 ('r const i', U1, 'quiet', [(R, '                joined += " " + input[++i];', '                ++i;\n                joined += " ";\n                joined += input[i];')]),
 ('r word', U1, 'quiet', [(R, '        if (!input[i].empty() && input[i].front() == ', '        const std::string& word = input[i];\n        if (!word.empty() && word.front() == ')]),
 ('r closed', U1, 'quiet', [(R, "            int tmp = joined.size() > 1 && joined.back() == '\"' ? 2 : 1;\n            result.push_back(joined.substr(1, joined.size() - tmp));", "            const bool closed = joined.size() > 1 && joined.back() == '\"';\n            result.push_back(closed ? joined.substr(1, joined.size() - 2) : joined.substr(1));")]),
]
