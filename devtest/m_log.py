C = 'cpp_utils/src/cpp/logging/BaseLogConsumer.cpp'
F = 'cpp_utils/src/cpp/logging/BaseLogConfiguration.cpp'
S = 'cpp_utils/src/cpp/logging/StdLogConsumer.cpp'
LC = 'cpp_utils/src/cpp/event/logging/LogConsumerConnection.cpp'
LE = 'cpp_utils/src/cpp/event/logging/LogEventHandler.cpp'
LS = 'cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp'
K = 'cpp_utils/src/cpp/testing/LogChecker.cpp'
G1, G2 = ['G01'], ['G02']
ACC = """    // Filter by regex
    std::regex filter_regex(filter_[entry.kind].get_value());
    const bool is_category_valid = std::regex_search(entry.context.category, filter_regex);
    const bool is_message_valid = std::regex_search(entry.message, filter_regex);
    const bool is_content_valid = is_category_valid || is_message_valid;

    // Filter by kind
    const bool is_kind_valid = entry.kind <= verbosity_;

    return is_kind_valid && is_content_valid;
"""
STR = """    std::ostream& stream = get_stream_(entry);
    print_timestamp"""
SW = """    switch (entry.kind)
    {
        case Log::Kind::Error:
        case Log::Kind::Warning:
            return std::cerr;

        default:
            return std::cout;
    }
"""
SETF = """    if (filter[VerbosityKind::Error].get_level() <= log_filter.at(VerbosityKind::Error).get_level())
    {
        filter[VerbosityKind::Error] = log_filter.at(VerbosityKind::Error);
    }

    if (filter[VerbosityKind::Warning].get_level() <= log_filter.at(VerbosityKind::Warning).get_level())
    {
        filter[VerbosityKind::Warning] = log_filter.at(VerbosityKind::Warning);
    }

    if (filter[VerbosityKind::Info].get_level() <= log_filter.at(VerbosityKind::Info).get_level())
    {
        filter[VerbosityKind::Info] = log_filter.at(VerbosityKind::Info);
    }
"""
REC = """    {
        std::lock_guard<SharedAtomicable<std::vector<utils::Log::Entry>>> lock(entries_consumed_);
        entries_consumed_.push_back(entry);
    }

    event_occurred_(entry);
"""
CONS = """    if (callback_persistent)
    {
        // In case it still exists, call it
        callback_persistent->operator ()(
                entry);
    }
"""
M = [
 ('kind less', G1, 'caught', [(C, 'entry.kind <= verbosity_', 'entry.kind < verbosity_')]),
 ('kind inverted', G1, 'caught', [(C, 'entry.kind <= verbosity_', 'entry.kind >= verbosity_')]),
 ('and content', G1, 'caught', [(C, 'is_category_valid || is_message_valid', 'is_category_valid && is_message_valid')]),
 ('only message', G1, 'caught', [(C, 'is_category_valid || is_message_valid', 'is_message_valid')]),
 ('or all', G1, 'caught', [(C, 'is_kind_valid && is_content_valid', 'is_kind_valid || is_content_valid')]),
 ('other filter', G1, 'caught', [(C, 'filter_[entry.kind].get', 'filter_[verbosity_].get')]),
 ('regex match', G1, 'caught', [(C, 'std::regex_search(entry.message', 'std::regex_match(entry.message')]),
 ('errors always', G1, 'caught', [(C, 'const bool is_kind_valid', 'if (entry.kind == Log::Kind::Error) return true;\n    const bool is_kind_valid')]),
 ('acc early ok', G1, 'quiet', [(C, ACC, """    if (entry.kind > verbosity_)
    {
        return false;
    }
    const std::regex filter_regex(filter_.at(entry.kind).get_value());
    if (std::regex_search(entry.message, filter_regex))
    {
        return true;
    }
    return std::regex_search(entry.context.category, filter_regex);
""")]),
 ('acc find ok', G1, 'quiet', [(C, ACC, """    const auto it = filter_.find(entry.kind);
    const std::regex re(it->second.get_value());
    return !(verbosity_ < entry.kind) && (std::regex_search(entry.message, re) || std::regex_search(entry.context.category, re));
""")]),
 ('ctor no verbosity', G1, 'caught', [(C, '    , verbosity_(log_configuration->verbosity)', '    , verbosity_(VerbosityKind::Warning)')]),
 ('consume not', G1, 'caught', [(S, 'if (!accept_entry_(entry))', 'if (!accept_entry_(entry) && entry.kind != Log::Kind::Error)')]),
 ('consume twice', G1, 'caught', [(S, '    print_context(', '    print_message(stream, entry, true);\n    print_context(')]),
 ('consume header first', G1, 'caught', [(S, '    if (!accept', '    print_header(std::cout, entry, true);\n    if (!accept')]),
 ('stream warn cout', G1, 'caught', [(S, '        case Log::Kind::Warning:\n', '')]),
 ('stream if ok', G1, 'quiet', [(S, SW, '    if (entry.kind == Log::Kind::Info)\n    {\n        return std::cout;\n    }\n    return std::cerr;\n')]),
 ('stream tern ok', G1, 'quiet', [(S, SW, '    return (entry.kind <= Log::Kind::Warning) ? std::cerr : std::cout;\n')]),
 ('stream swapped', G1, 'caught', [(S, SW, '    return (entry.kind <= Log::Kind::Warning) ? std::cout : std::cerr;\n')]),
 ('consume nested ok', G1, 'quiet', [(S, """    if (!accept_entry_(entry))
    {
        return;
    }

    std::ostream& stream = get_stream_(entry);
    print_timestamp(stream, entry, true);
    print_header(stream, entry, true);
    print_message(stream, entry, true);
    print_context(stream, entry, true);
    print_new_line(stream, true);
    stream.flush();
""", """    const bool accepted = accept_entry_(entry);
    if (accepted)
    {
        std::ostream& out = get_stream_(entry);
        print_timestamp(out, entry, true);
        print_header(out, entry, true);
        print_message(out, entry, true);
        print_context(out, entry, true);
        out << std::endl;
    }
""")]),
 ('set less', G1, 'caught', [(F, 'if (verbosity.get_level() <= log', 'if (verbosity.get_level() < log')]),
 ('set always', G1, 'caught', [(F, 'if (verbosity.get_level() <= log_verbosity.get_level())', '')]),
 ('set value only', G1, 'caught', [(F, 'verbosity = log_verbosity;', 'verbosity.get_reference() = log_verbosity.get_value();')]),
 ('set inv ok', G1, 'quiet', [(F, """    if (verbosity.get_level() <= log_verbosity.get_level())
    {
        verbosity = log_verbosity;
    }""", """    if (log_verbosity.get_level() < verbosity.get_level())
    {
        return;
    }
    verbosity = log_verbosity;""")]),
 ('filter cross', G1, 'caught', [(F, 'filter[VerbosityKind::Warning] = log_filter.at(VerbosityKind::Warning)', 'filter[VerbosityKind::Warning] = log_filter.at(VerbosityKind::Error)')]),
 ('filter guard cross', G1, 'caught', [(F, 'if (filter[VerbosityKind::Info].get_level() <= log_filter.at(VerbosityKind::Info)', 'if (filter[VerbosityKind::Error].get_level() <= log_filter.at(VerbosityKind::Error)')]),
 ('filter loop ok', G1, 'quiet', [(F, SETF, """    for (const auto& it : log_filter)
    {
        if (filter[it.first].get_level() <= it.second.get_level())
        {
            filter[it.first] = it.second;
        }
    }
""")]),
 ('filter loop bad', G1, 'caught', [(F, SETF, """    for (const auto& it : log_filter)
    {
        if (filter[it.first].get_level() < it.second.get_level())
        {
            filter[it.first] = it.second;
        }
    }
""")]),
 ('filter lambda ok', G1, 'quiet', [(F, SETF, """    const auto upd = [this, &log_filter](VerbosityKind kind)
    {
        const auto& other = log_filter.at(kind);
        auto& mine = filter[kind];
        if (!(other.get_level() < mine.get_level()))
        {
            mine = other;
        }
    };
    upd(VerbosityKind::Error);
    upd(VerbosityKind::Info);
    upd(VerbosityKind::Warning);
""")]),
 ('filter no info', G1, 'caught', [(F, 'filter[VerbosityKind::Info] = log_filter.at(VerbosityKind::Info);', '')]),
 ('default level', G1, 'caught', [(F, '    : verbosity{VerbosityKind::Warning, Fu', '    : verbosity{VerbosityKind::Info, Fu')]),
 # --- G02
 ('conn no keep', G2, 'caught', [(LC, 'auto callback_persistent = callback_.lock();', 'auto callback_persistent = callback_.lock().get();')]),
 ('conn twice', G2, 'caught', [(LC, CONS, CONS + CONS.replace('if (callback_persistent)', 'if (callback_persistent && entry.kind == Log::Kind::Error && entry.message.empty())'))]),
 ('conn filter', G2, 'caught', [(LC, 'if (callback_persistent)', 'if (callback_persistent && !entry.message.empty())')]),
 ('conn return ok', G2, 'quiet', [(LC, CONS, """    if (!callback_persistent)
    {
        return;
    }
    (*callback_persistent)(entry);
""")]),
 ('rec order', G2, 'caught', [(LE, REC, """    event_occurred_(entry);
    std::lock_guard<SharedAtomicable<std::vector<utils::Log::Entry>>> lock(entries_consumed_);
    entries_consumed_.push_back(entry);
""")]),
 ('rec lock held', G2, 'caught', [(LE, REC, """    std::lock_guard<SharedAtomicable<std::vector<utils::Log::Entry>>> lock(entries_consumed_);
    entries_consumed_.push_back(entry);
    event_occurred_(entry);
""")]),
 ('rec no lock', G2, 'caught', [(LE, '        std::lock_guard<SharedAtomicable<std::vector<utils::Log::Entry>>> lock(entries_consumed_);\n', '')]),
 ('rec unique ok', G2, 'quiet', [(LE, REC, """    std::unique_lock<SharedAtomicable<std::vector<utils::Log::Entry>>> lock(entries_consumed_);
    entries_consumed_.emplace_back(entry);
    lock.unlock();
    event_occurred_(entry);
""")]),
 ('rec dedup', G2, 'caught', [(LE, '    event_occurred_(entry);', '    if (!entry.message.empty()) event_occurred_(entry);')]),
 ('static consume', G2, 'caught', [(LE, 'this->consume_(entry)', 'this->LogEventHandler::consume_(entry)')]),
 ('bind ok', G2, 'quiet', [(LE, 'this->consume_(entry)', 'consume_(entry)')]),
 ('twice registered', G2, 'caught', [(LE, '    set_callback(callback);', '    Log::RegisterConsumer(std::make_unique<LogConsumerConnection>(connection_callback_.lease()));\n    set_callback(callback);')]),
 ('sev less', G2, 'caught', [(LS, 'entry.kind <= threshold_', 'entry.kind < threshold_')]),
 ('sev inv', G2, 'caught', [(LS, 'entry.kind <= threshold_', 'entry.kind >= threshold_')]),
 ('sev ret ok', G2, 'quiet', [(LS, """    if (entry.kind <= threshold_)
    {
        LogEventHandler::consume_(entry);
    }""", """    if (entry.kind > threshold_)
    {
        return;
    }
    LogEventHandler::consume_(entry);""")]),
 ('sev verb warn', G2, 'caught', [(LS, 'SetVerbosity(threshold)', 'SetVerbosity(utils::Log::Kind::Warning)')]),
 ('sev verb cond', G2, 'caught', [(LS, 'if (threshold > utils::Log::Kind::Error)', 'if (threshold > utils::Log::Kind::Warning)')]),
 ('sev verb ne ok', G2, 'quiet', [(LS, 'if (threshold > utils::Log::Kind::Error)', 'if (threshold != utils::Log::Kind::Error)')]),
 ('chk strict', G2, 'caught', [(K, '>= expected_severe', '> expected_severe')]),
 ('chk swap', G2, 'caught', [(K, 'max_severe_logs_(std::max(max_severe_logs, expected_severe_logs))', 'max_severe_logs_(max_severe_logs)')]),
 ('chk min', G2, 'caught', [(K, 'std::max(', 'std::min(')]),
 ('chk flush', G2, 'caught', [(K, '    eprosima::utils::Log::Flush();\n', '')]),
 ('chk ok', G2, 'quiet', [(K, """    return
        (log_consumer_.event_count() >= expected_severe_logs_) &&
        (log_consumer_.event_count() <= max_severe_logs_);
""", """    const auto n = log_consumer_.event_count();
    return !(n < expected_severe_logs_ || max_severe_logs_ < n);
""")]),
 ('chk tern ok', G2, 'quiet', [(K, 'std::max(max_severe_logs, expected_severe_logs)', 'max_severe_logs < expected_severe_logs ? expected_severe_logs : max_severe_logs')]),
]
