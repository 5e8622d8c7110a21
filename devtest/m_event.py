H = 'cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp'
OCC = """    // While event occurred is being process, avoid setting/unsetting callback or destroying object
    std::lock_guard<std::recursive_mutex> lock(internal_callback_mutex_);

    if (is_callback_set_.load())
    {
        callback_(args ...);

        // TODO: decide if a disabled event should add number of events registered
        {
            // Increase number of callbacks received
            std::lock_guard<std::mutex> lock(wait_mutex_);
            ++number_of_events_registered_;
        }
    }
    else
    {
        logInfo(UTILS_HANDLER, "Skipping callback in a not enabled EventHandler.");
    }

    // Awake every thread waiting for event to occur
    wait_condition_variable_.notify_all();
"""
SET = """    {
        std::lock_guard<std::recursive_mutex> lock(internal_callback_mutex_);

        {
            // Setting callback
            // Wait mutex must be taken because this variable is used in wait_for_event() wait
            std::lock_guard<std::mutex> lock(wait_mutex_);
            was_callback_set_before = is_callback_set_.exchange(true);
        }

        callback_ = callback;
    }
"""
AWK = """    bool exit = false;

    while (!exit)
    {
        wait_condition_variable_.notify_all();
        {
            std::lock_guard<std::mutex> lock(wait_mutex_);
            exit = threads_waiting_.load() == 0;
        }
    }
"""
UNSET = """        {
            // Unsetting callback
            // Wait mutex must be taken because this variable is used in wait_for_event() wait
            std::unique_lock<std::mutex> lock(wait_mutex_);
            is_callback_set_.store(false);
        }
"""
WAIT = """        wait_condition_variable_.wait(
            lock,
            [n, this]
            {
                // Exit if number of events is bigger than expected n
                // or if callback is no longer set
                return number_of_events_registered_ >= n || !is_callback_set_.load();
            });
"""
M = [
 # E01
 ('cb outside lock', ['E01'], 'caught', [(H, OCC, OCC.replace('    if (is_callback_set_.load())', '    std::function<void(Args...)> cb;\n    bool is_set;\n    {\n        std::lock_guard<std::recursive_mutex> lock2(internal_callback_mutex_);\n        is_set = is_callback_set_.load();\n        cb = callback_;\n    }\n    if (is_set)').replace('    std::lock_guard<std::recursive_mutex> lock(internal_callback_mutex_);\n', '', 1).replace('callback_(args ...)', 'cb(args ...)'))]),
 ('check before lock', ['E01'], 'caught', [(H, OCC, OCC.replace('    std::lock_guard<std::recursive_mutex> lock(internal_callback_mutex_);\n', '', 1).replace('        callback_(args ...);', '        std::lock_guard<std::recursive_mutex> lock(internal_callback_mutex_);\n        callback_(args ...);'))]),
 ('set without cb lock', ['E01', 'E02'], 'caught', [(H, SET, SET.replace('        std::lock_guard<std::recursive_mutex> lock(internal_callback_mutex_);\n', '', 1))]),
 ('set cb lock late', ['E01'], 'caught', [(H, SET, SET.replace('        std::lock_guard<std::recursive_mutex> lock(internal_callback_mutex_);\n', '', 1).replace('        callback_ = callback;', '        std::lock_guard<std::recursive_mutex> lock(internal_callback_mutex_);\n        callback_ = callback;'))]),
 ('unset without cb lock', ['E01'], 'caught', [(H, '        std::lock_guard<std::recursive_mutex> lock(internal_callback_mutex_);\n\n        {\n            // Unset', '        {\n            // Unset')]),
 ('count when unset', ['E01'], 'caught', [(H, OCC, OCC.replace('        // TODO: decide if a disabled event should add number of events registered\n        {\n            // Increase number of callbacks received\n            std::lock_guard<std::mutex> lock(wait_mutex_);\n            ++number_of_events_registered_;\n        }\n', '').replace('    // Awake every', '    {\n        std::lock_guard<std::mutex> lock(wait_mutex_);\n        ++number_of_events_registered_;\n    }\n    // Awake every'))]),
 ('count twice', ['E01'], 'caught', [(H, '++number_of_events_registered_;', 'number_of_events_registered_ += 2;')]),
 ('count load store', ['E01'], 'caught', [(H, OCC, OCC.replace('        callback_(args ...);', '        const uint32_t count = number_of_events_registered_.load();\n        callback_(args ...);').replace('++number_of_events_registered_;', 'number_of_events_registered_.store(count + 1);'))]),
 ('once after event', ['E01'], 'caught', [(H, '        callback_(args ...);\n', '        callback_(args ...);\n        if (number_of_events_registered_.load() == 0)\n        {\n            callback_(args ...);\n        }\n')]),
 ('no cb at max', ['E01'], 'caught', [(H, '        callback_(args ...);\n', '        if (number_of_events_registered_.load() != 1000)\n        {\n            callback_(args ...);\n        }\n')]),
 ('reset one', ['E01'], 'caught', [(H, 'number_of_events_registered_.store(0);', 'number_of_events_registered_.store(1);')]),
 ('decrement check outside', ['E01'], 'caught', [(H, '    std::lock_guard<std::mutex> lock(wait_mutex_);\n    if (number_of_events_registered_ > 0)\n    {', '    if (number_of_events_registered_ > 0)\n    {\n        std::lock_guard<std::mutex> lock(wait_mutex_);')]),
 ('decrement any', ['E01'], 'caught', [(H, '    if (number_of_events_registered_ > 0)\n', '')]),
 ('decrement ge', ['E01'], 'caught', [(H, 'number_of_events_registered_ > 0)', 'number_of_events_registered_ > 1)')]),
 ('simulate twice', ['E01'], 'caught', [(H, '    event_occurred_(args ...);\n', '    event_occurred_(args ...);\n    event_occurred_(args ...);\n')]),
 ('simulate only if set', ['E01'], 'quiet', [(H, '    event_occurred_(args ...);\n', '    if (is_callback_set_)\n    {\n        event_occurred_(args ...);\n    }\n')]),
 ('default args', ['E01'], 'caught', [(H, '        callback_(args ...);', '        callback_(typename std::decay<Args>::type() ...);')]),
 # E02
 ('hook before cb', ['E02'], 'caught', [(H, SET, SET.replace('            was_callback_set_before = is_callback_set_.exchange(true);\n        }\n', '            was_callback_set_before = is_callback_set_.exchange(true);\n        }\n        if (!was_callback_set_before)\n        {\n            callback_set_nts_();\n        }\n')), (H, '    else\n    {\n        callback_set_nts_();\n    }', '')]),
 ('flag before cb ok', ['E02', 'E01'], 'quiet', [(H, SET, SET.replace('        callback_ = callback;\n', '').replace('        {\n            // Setting', '        callback_ = callback;\n        {\n            // Setting'))]),
 ('change calls set', ['E02'], 'caught', [(H, '        callback_change_nts_();\n    }', '        callback_set_nts_();\n    }')]),
 ('hook in cb lock', ['E02'], 'caught', [(H, '        // Setting new callback (even when it will not be called)\n        callback_ = DEFAULT_CALLBACK_;\n', '        // Setting new callback (even when it will not be called)\n        callback_ = DEFAULT_CALLBACK_;\n        callback_unset_nts_();\n'), (H, '        callback_unset_nts_();\n\n        // Awak', '        // Awak')]),
 ('unset hook first', ['E02'], 'caught', [(H, '        was_callback_set_before = true;\n\n        std::lock', '        was_callback_set_before = true;\n        callback_unset_nts_();\n\n        std::lock'), (H, '        callback_unset_nts_();\n\n        // Awak', '        // Awak')]),
 ('unset hook always', ['E02'], 'caught', [(H, '    // Should only call unset if the callback was set\n    if (was_callback_set_before)\n    {', '    {')]),
 ('unset no event mutex', ['E02'], 'caught', [(H, 'unset_callback() noexcept\n{\n    std::lock_guard<std::recursive_mutex> lock(event_mutex_);\n', 'unset_callback() noexcept\n{\n')]),
 ('set no event mutex', ['E02'], 'caught', [(H, 'callback) noexcept\n{\n    std::lock_guard<std::recursive_mutex> lock(event_mutex_);\n', 'callback) noexcept\n{\n')]),
 ('set early release', ['E02'], 'caught', [(H, 'callback) noexcept\n{\n    std::lock_guard<std::recursive_mutex> lock(event_mutex_);\n', 'callback) noexcept\n{\n    std::unique_lock<std::recursive_mutex> lock(event_mutex_);\n'), (H, '    // Call child methods in case they should do something when handler is enabled or change callback\n', '    lock.unlock();\n')]),
 ('set keeps old cb', ['E02'], 'caught', [(H, '        callback_ = callback;', '        if (!was_callback_set_before)\n        {\n            callback_ = callback;\n        }')]),
 ('unset no flag', ['E02'], 'caught', [(H, 'is_callback_set_.store(false);', '')]),
 ('unset keeps cb', ['E02'], 'caught', [(H, '        callback_ = DEFAULT_CALLBACK_;\n', '')]),
 ('was set read early', ['E02'], 'caught', [(H, '    std::lock_guard<std::recursive_mutex> lock(event_mutex_);\n\n    bool was_callback_set_before;', '    bool was_callback_set_before = is_callback_set_.load();\n    std::lock_guard<std::recursive_mutex> lock(event_mutex_);\n'), (H, 'was_callback_set_before = is_callback_set_.exchange(true);', 'is_callback_set_.store(true);')]),
 # E03
 ('n lt', ['E03'], 'caught', [(H, 'number_of_events_registered_ >= n || ', 'number_of_events_registered_ > n || ')]),
 ('no unset', ['E03'], 'caught', [(H, ' || !is_callback_set_.load();', ';')]),
 ('count no mutex', ['E03'], 'caught', [(H, '            std::lock_guard<std::mutex> lock(wait_mutex_);\n            ++number', '            ++number')]),
 ('notify one', ['E03'], 'caught', [(H, 'every thread waiting for event to occur\n    wait_condition_variable_.notify_all();', 'every thread waiting for event to occur\n    wait_condition_variable_.notify_one();')]),
 ('notify early', ['E03'], 'caught', [(H, OCC, OCC.replace('    // Awake every thread waiting for event to occur\n    wait_condition_variable_.notify_all();\n', '').replace('        callback_(args', '        wait_condition_variable_.notify_all();\n        callback_(args'))]),
 ('unset no wait mutex', ['E03'], 'caught', [(H, '            std::unique_lock<std::mutex> lock(wait_mutex_);\n            is_callback_set_.store(false);', '            is_callback_set_.store(false);')]),
 ('awake once', ['E03'], 'caught', [(H, 'awake_all_waiting_threads_nts_();\n    }', 'wait_condition_variable_.notify_all();\n    }')]),
 ('awake once lock', ['E03'], 'caught', [(H, AWK, '    std::lock_guard<std::mutex> lock(wait_mutex_);\n    wait_condition_variable_.notify_all();\n')]),
 ('awake le 1', ['E03'], 'caught', [(H, 'threads_waiting_.load() == 0', 'threads_waiting_.load() <= 1')]),
 ('awake notify after', ['E03'], 'caught', [(H, AWK, AWK.replace('        wait_condition_variable_.notify_all();\n', '').replace('    while', '    wait_condition_variable_.notify_all();\n    while').replace('load() == 0', 'load() <= 1'))]),
 ('count after', ['E03'], 'caught', [(H, '        --threads_waiting_;\n    }', '        lock.unlock();\n        --threads_waiting_;\n        --threads_waiting_;\n    }')]),
 ('not counted', ['E03'], 'caught', [(H, '        ++threads_waiting_;\n', ''), (H, '        --threads_waiting_;\n', '')]),
 ('report flag', ['E03'], 'caught', [(H, 'return number_of_events_registered_.load() >= n;', 'return is_callback_set_.load();')]),
 ('report true', ['E03'], 'caught', [(H, 'return number_of_events_registered_.load() >= n;', 'return true;')]),
 ('report gt', ['E03'], 'caught', [(H, 'return number_of_events_registered_.load() >= n;', 'return number_of_events_registered_.load() > n;')]),
 ('if wait', ['E03'], 'caught', [(H, WAIT, '        if (number_of_events_registered_ < n && is_callback_set_.load())\n        {\n            wait_condition_variable_.wait(lock);\n        }\n')]),
 # refactorings
 ('r while wait', ['E03'], 'quiet', [(H, WAIT, '        while (number_of_events_registered_ < n && is_callback_set_.load())\n        {\n            wait_condition_variable_.wait(lock);\n        }\n')]),
 ('r early return', ['E01', 'E03'], 'quiet', [(H, OCC, """    std::lock_guard<std::recursive_mutex> lock(internal_callback_mutex_);

    if (!is_callback_set_)
    {
        logInfo(UTILS_HANDLER, "Skipping callback in a not enabled EventHandler.");
        return;
    }
    callback_(args ...);
    std::unique_lock<std::mutex> wait_lock(wait_mutex_);
    number_of_events_registered_ += 1;
    wait_lock.unlock();
    wait_condition_variable_.notify_all();
""")]),
 ('r fetch_add', ['E01', 'E03'], 'quiet', [(H, '++number_of_events_registered_;', 'number_of_events_registered_.fetch_add(1);')]),
 ('r notify in lock', ['E01', 'E03'], 'quiet', [(H, '            ++number_of_events_registered_;\n', '            ++number_of_events_registered_;\n            wait_condition_variable_.notify_all();\n'), (H, '    // Awake every thread waiting for event to occur\n    wait_condition_variable_.notify_all();\n', '')]),
 ('r move', ['E01', 'E02'], 'quiet', [(H, 'callback_ = callback;', 'callback_ = std::move(callback);')]),
 ('r if set', ['E02'], 'quiet', [(H, 'was_callback_set_before = is_callback_set_.exchange(true);', 'was_callback_set_before = is_callback_set_;\n            is_callback_set_ = true;')]),
 ('r set order', ['E02'], 'quiet', [(H, '    if (was_callback_set_before)\n    {\n        logDebug(UTILS_EVENTHANDLER, "Setting new callback to an EventHandler that already had one.");\n        callback_change_nts_();\n    }\n    else\n    {\n        callback_set_nts_();\n    }', '    if (!was_callback_set_before)\n    {\n        callback_set_nts_();\n        return;\n    }\n    callback_change_nts_();')]),
 ('r unset early', ['E01', 'E02', 'E03'], 'quiet', [(H, '    bool was_callback_set_before = false;\n\n    if (is_callback_set_)\n    {\n        was_callback_set_before = true;\n', '    if (!is_callback_set_)\n    {\n        return;\n    }\n    const bool was_callback_set_before = true;\n    {\n'), (H, '    else\n    {\n        logWarning(UTILS_HANDLER, "Unsetting callback from an EventHandler that had no callback set.")\n    }\n', '')]),
 ('r awake do', ['E03'], 'quiet', [(H, AWK, """    bool waiting;
    do
    {
        wait_condition_variable_.notify_all();
        std::lock_guard<std::mutex> lock(wait_mutex_);
        waiting = threads_waiting_ > 0;
    }
    while (waiting);
""")]),
 ('r awake for', ['E03'], 'quiet', [(H, AWK, """    for (;;)
    {
        std::unique_lock<std::mutex> lock(wait_mutex_);
        if (threads_waiting_ == 0)
        {
            return;
        }
        wait_condition_variable_.notify_all();
        lock.unlock();

    }
""")]),
 ('r wait var', ['E03'], 'quiet', [(H, '    return number_of_events_registered_.load() >= n;', '    const uint32_t events = number_of_events_registered_;\n    return !(events < n);')]),
 ('r wait early', ['E03'], 'quiet', [(H, '    if (is_callback_set_.load())\n    {\n        std::unique_lock<std::mutex> lock(wait_mutex_);\n', '    {\n        std::unique_lock<std::mutex> lock(wait_mutex_);\n')]),
 ('r decrement', ['E01'], 'quiet', [(H, '    if (number_of_events_registered_ > 0)\n    {\n        number_of_events_registered_--;\n    }', '    if (number_of_events_registered_ == 0)\n    {\n        return;\n    }\n    number_of_events_registered_ -= 1;')]),
 ('r reset', ['E01'], 'quiet', [(H, 'number_of_events_registered_.store(0);', 'number_of_events_registered_ = 0;')]),
]
