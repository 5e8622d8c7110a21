
B = 'cpp_utils/src/cpp/event/'
P = B + 'PeriodicEventHandler.cpp'
S = B + 'StdinEventHandler.cpp'
F = B + 'FileWatcherHandler.cpp'
G = 'cpp_utils/include/cpp_utils/event/impl/SignalEventHandler.ipp'
L = B + 'logging/LogEventHandler.cpp'
V = B + 'logging/LogSevereEventHandler.cpp'
E4 = ['E04']
M = [
 ('per no join', E4, 'caught', [(P, '    period_thread_.join();\n', '')]),
 ('per detach', E4, 'caught', [(P, 'period_thread_.join();', 'period_thread_.detach();')]),
 ('per dtor no unset', E4, 'caught', [(P, '::~PeriodicEventHandler()\n{\n    unset_callback();', '::~PeriodicEventHandler()\n{\n')]),
 ('per start in ctor', E4, 'caught', [(P, '    logDebug(\n        UTILS_PERIODICHANDLER,\n        "Periodic Event Handler created', '    start_period_thread_nts_();\n    logDebug(\n        UTILS_PERIODICHANDLER,\n        "Periodic Event Handler created')]),
 ('per start only first', E4, 'caught', [(P, '    start_period_thread_nts_();\n', '    if (!timer_active_.load())\n    {\n        start_period_thread_nts_();\n    }\n'), (P, 'timer_active_.store(false);\n    }\n    periodic', '    }\n    periodic')]),
 ('per member after', E4, 'quiet', [(P, '    : PeriodicEventHandler(period_time)\n{', '    : PeriodicEventHandler(period_time)\n{\n    period_time_ = period_time;')]),
 ('per thread no event', E4, 'caught', [(P, '        event_occurred_();\n', '        callback_();\n')]),
 ('stdin no join', E4, 'caught', [(S, '    stdin_listener_thread_.join();\n', '')]),
 ('stdin dtor', E4, 'caught', [(S, '::~StdinEventHandler()\n{\n    unset_callback();', '::~StdinEventHandler()\n{\n    activation_times_.disable();')]),
 ('stdin start if joinable', E4, 'quiet', [(S, '    stdin_listener_thread_.join();\n', '    if (stdin_listener_thread_.joinable())\n    {\n        stdin_listener_thread_.join();\n    }\n')]),
 ('fw no reset', E4, 'caught', [(F, '    file_watch_handler_.reset();\n', '')]),
 ('fw reset null', E4, 'quiet', [(F, 'file_watch_handler_.reset();', 'file_watch_handler_ = nullptr;')]),
 ('fw started stays', E4, 'caught', [(F, 'filewatcher_started_.store(false);\n', '')]),
 ('fw started never', E4, 'caught', [(F, 'filewatcher_started_.store(true);\n', '')]),
 ('fw dtor', E4, 'quiet', [(F, '::~FileWatcherHandler()\n{\n    unset_callback();', '::~FileWatcherHandler()\n{\n    file_watch_handler_.reset();\n    unset_callback();')]),
 ('fw dtor none', E4, 'quiet', [(F, '::~FileWatcherHandler()\n{\n    unset_callback();', '::~FileWatcherHandler()\n{\n')]),
 ('fw event unused', E4, 'caught', [(F, '                        event_occurred_(path);\n', '')]),
 ('sig no exchange', E4, 'caught', [(G, 'callback_set_in_manager_.exchange(false)', 'callback_set_in_manager_.load()')]),
 ('sig not marked', E4, 'caught', [(G, '!callback_set_in_manager_.exchange(true)', '!callback_set_in_manager_.load()')]),
 ('sig wrong id', E4, 'caught', [(G, 'unregister_callback(callback_id_)', 'unregister_callback(0)')]),
 ('sig id lost', E4, 'caught', [(G, '        callback_id_ = SignalManager', '        SignalManager')]),
 ('sig flag late', E4, 'caught', [(G, '    , callback_set_in_manager_(false)\n{\n    set_callback(callback);', '{\n    set_callback(callback);\n    callback_set_in_manager_ = false;')]),
 ('sig dtor', E4, 'caught', [(G, '::~SignalEventHandler()\n{\n    unset_callback();', '::~SignalEventHandler()\n{\n')]),
 ('sig lambda', E4, 'quiet', [(G, 'std::bind(&SignalEventHandler<SigVal>::signal_received_callback_, this)', '[this]()\n            {\n                signal_received_callback_();\n            }')]),
 ('sig plain', E4, 'quiet', [(G, '    if (!callback_set_in_manager_.exchange(true))\n    {', '    if (!callback_set_in_manager_)\n    {\n        callback_set_in_manager_ = true;')]),
 ('log no reset', E4, 'caught', [(L, '    connection_callback_.reset();\n', '')]),
 ('log twice', E4, 'caught', [(L, '    // Set callback\n', '    Log::RegisterConsumer(std::make_unique<LogConsumerConnection>(connection_callback_.lease()));\n')]),
 ('log not registered', E4, 'caught', [(L, '    Log::RegisterConsumer(std::make_unique<LogConsumerConnection>(connection_callback_.lease()));\n', '')]),
 ('log entry dropped', E4, 'caught', [(L, '    event_occurred_(entry);\n', '')]),
 ('sev early', E4, 'caught', [(V, '    : LogEventHandler()\n', '    : LogEventHandler(callback)\n'), (V, '    set_callback(callback);\n', '')]),
 ('sev dtor', E4, 'caught', [(V, '    connection_callback_.reset();\n', '')]),
 ('sev verbosity', E4, 'quiet', [(V, 'if (threshold > ', 'if (threshold_ > ')]),
 ('per helper', E4, 'quiet', [(P, '    // Could not arrive here if the callback was not set before\n    stop_period_thread_nts_();', '    if (period_thread_.joinable())\n    {\n        stop_period_thread_nts_();\n    }')]),
 ('per unset order', E4, 'quiet', [(P, '    : EventHandler<>()\n    , period_time_(period_time)\n    , timer_active_(false)\n{', '    : period_time_(period_time)\n    , timer_active_(false)\n{')]),
]
