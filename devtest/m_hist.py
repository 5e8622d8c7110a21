H = 'cpp_utils/src/cpp/history/CommandHistoryHandler.cpp'
PREV = """    if (!command_history_.empty() && current_index_ > 0)
    {
        --current_index_;
        return command_history_[current_index_];
    }
    return "";
"""
NEXT = """    if (current_index_ < command_history_.size() - 1)
    {
        ++current_index_;
        return command_history_[current_index_];
    }
    else if (current_index_ == command_history_.size() - 1)
    {
        ++current_index_;
        return "";
    }
    return "";
"""
GUARD = """    if (command_history_.empty())
    {
        return "";
    }

"""
M = [
 ('no guard', ['H01'], 'caught', [(H, GUARD, '')]),
 ('prev ge', ['H01'], 'caught', [(H, 'current_index_ > 0', 'current_index_ > 1')]),
 ('prev post', ['H01'], 'caught', [(H, '        --current_index_;\n        return command_history_[current_index_];', '        return command_history_[current_index_--];')]),
 ('prev no empty check', ['H01'], 'caught', [(H, '!command_history_.empty() && ', '')]),
 ('next le', ['H01'], 'caught', [(H, 'current_index_ < command_history_.size() - 1)', 'current_index_ < command_history_.size())')]),
 ('next stays', ['H01'], 'caught', [(H, '        ++current_index_;\n        return "";', '        return "";')]),
 ('next wraps', ['H01'], 'caught', [(H, '        ++current_index_;\n        return "";\n    }\n    return "";', '        ++current_index_;\n        return "";\n    }\n    current_index_ = 0;\n    return "";')]),
 ('add keeps position', ['H01'], 'caught', [(H, '        current_index_ = command_history_.size();\n', '')]),
 ('add last', ['H01'], 'caught', [(H, 'current_index_ = command_history_.size();', 'current_index_ = command_history_.size() - 1;')]),
 ('add incr', ['H01'], 'caught', [(H, 'current_index_ = command_history_.size();', '++current_index_;')]),
 ('add no dup', ['H01'], 'caught', [(H, 'if (!command.empty())', 'if (!command.empty() && (command_history_.empty() || command_history_.back() != command))')]),
 ('add empty', ['H01'], 'caught', [(H, '    if (!command.empty())\n    {\n        command_history_.push_back(command);', '    {\n        command_history_.push_back(command);')]),
 ('add front', ['H01'], 'caught', [(H, 'command_history_.push_back(command);', 'command_history_.insert(command_history_.begin(), command);')]),
 ('add bounded', ['H01'], 'caught', [(H, 'command_history_.push_back(command);', 'command_history_.push_back(command);\n        if (command_history_.size() > 1000)\n        {\n            command_history_.erase(command_history_.begin());\n        }')]),
 ('ctor one', ['H01'], 'caught', [(H, 'current_index_(-1)', 'current_index_(1)'), (H, '!command_history_.empty() && ', '')]),
 ('add position on empty', ['H01'], 'caught', [(H, '        current_index_ = command_history_.size();\n    }', '    }\n    current_index_ = command_history_.size();')]),
 ('r ctor', ['H01'], 'quiet', [(H, 'current_index_(-1)', 'current_index_(0)')]),
 ('r prev', ['H01'], 'quiet', [(H, PREV, """    if (command_history_.empty() || current_index_ == 0)
    {
        return std::string();
    }
    current_index_ -= 1;
    return command_history_.at(current_index_);
""")]),
 ('r prev local', ['H01'], 'quiet', [(H, PREV, """    std::string command;
    if (!command_history_.empty() && current_index_ > 0)
    {
        const size_t index = current_index_ - 1;
        command = command_history_[index];
        current_index_ = index;
    }
    return command;
""")]),
 ('r prev tern', ['H01'], 'quiet', [(H, PREV, """    const bool possible = command_history_.size() > 0 && current_index_ != 0;
    return possible ? command_history_[--current_index_] : std::string("");
""")]),
 ('r next', ['H01'], 'quiet', [(H, NEXT, """    const size_t n = command_history_.size();
    if (current_index_ >= n)
    {
        return "";
    }
    ++current_index_;
    return current_index_ == n ? std::string() : command_history_[current_index_];
"""), (H, GUARD, '    if (command_history_.size() == 0u)\n    {\n        return {};\n    }\n')]),
 ('r next plus', ['H01'], 'quiet', [(H, NEXT, """    if (current_index_ + 1 < command_history_.size())
    {
        return command_history_[++current_index_];
    }
    if (current_index_ + 1 == command_history_.size())
    {
        current_index_ = command_history_.size();
    }
    return "";
""")]),
 ('r next wrap', ['H01'], 'quiet', [(H, NEXT, """    std::string command = "";
    if (current_index_ < command_history_.size())
    {
        ++current_index_;
        if (current_index_ < command_history_.size())
        {
            command = command_history_[current_index_];
        }
    }
    return command;
"""), (H, GUARD, ''), (H, 'current_index_(-1)', 'current_index_(0)')]),
 ('r add', ['H01'], 'quiet', [(H, '    if (!command.empty())\n    {\n        command_history_.push_back(command);\n        current_index_ = command_history_.size();\n    }', '    if (command.size() == 0)\n    {\n        return;\n    }\n    command_history_.emplace_back(command);\n    current_index_ = command_history_.size();')]),
 ('r add before', ['H01'], 'quiet', [(H, '        command_history_.push_back(command);\n        current_index_ = command_history_.size();', '        current_index_ = command_history_.size() + 1;\n        command_history_.push_back(command);')]),
 ('r add cmp', ['H01'], 'quiet', [(H, '!command.empty()', 'command != ""')]),
 ('r add insert', ['H01'], 'quiet', [(H, 'command_history_.push_back(command);', 'command_history_.insert(command_history_.end(), command);')]),
]
