P = 'cpp_utils/src/cpp/event/PeriodicEventHandler.cpp'
G = 'cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp'
E5 = ['E05']
E6 = ['E06']
WF = """        periodic_wait_condition_variable_.wait_for(
            lock,
            std::chrono::milliseconds(period_time_),
            [this]
            {
                // Exit if number of events is bigger than expected n
                // or if callback is no longer set
                return !timer_active_.load();
            });
"""
ROUT = """    while (!signal_handler_thread_stop_.load())
    {
        std::unique_lock<std::mutex> lock(signal_received_cv_mutex_);
        signal_received_cv_.wait(
            lock,
            [this]
            {
                return signals_received_.load() > 0 ||
                signal_handler_thread_stop_.load();
            });

        if (signal_handler_thread_stop_.load())
        {
            break;
        }
        else if (signals_received_.load() > 0)
        {
            signals_received_--;
            signal_handler_routine_();
        }
    }
"""
M = [
 ('p seconds', E5, 'caught', [(P, 'std::chrono::milliseconds(period', 'std::chrono::seconds(period')]),
 ('p micro', E5, 'caught', [(P, 'std::chrono::milliseconds(period_time_)', 'std::chrono::microseconds(period_time_ * 100)')]),
 ('p micro ok', E5, 'quiet', [(P, 'std::chrono::milliseconds(period_time_)', 'std::chrono::microseconds(period_time_ * 1000ull)')]),
 ('p plus one', E5, 'caught', [(P, 'std::chrono::milliseconds(period_time_)', 'std::chrono::milliseconds(period_time_ + 1)')]),
 ('p no pred', E5, 'caught', [(P, WF, '        periodic_wait_condition_variable_.wait_for(lock, std::chrono::milliseconds(period_time_));\n')]),
 ('p no break', E5, 'caught', [(P, '        if (!timer_active_.load())\n        {\n            break;\n        }\n', '')]),
 ('p event first', E5, 'caught', [(P, WF, '        event_occurred_();\n' + WF), (P, '            break;\n        }\n\n        event_occurred_();', '            break;\n        }\n')]),
 ('p event twice', E5, 'caught', [(P, '            break;\n        }\n\n        event_occurred_();', '            break;\n        }\n\n        event_occurred_();\n        event_occurred_();')]),
 ('p once', E5, 'caught', [(P, '            break;\n        }\n\n        event_occurred_();', '            break;\n        }\n\n        event_occurred_();\n        break;')]),
 ('p flag late', E5, 'caught', [(P, '    {\n        std::unique_lock<std::mutex> lock(periodic_wait_mutex_);\n        timer_active_.store(true);\n    }\n\n', ''), (P, '        &PeriodicEventHandler::period_thread_routine_, this);\n', '        &PeriodicEventHandler::period_thread_routine_, this);\n    timer_active_.store(true);\n')]),
 ('p stop no mutex', E5, 'caught', [(P, '    {\n        std::unique_lock<std::mutex> lock(periodic_wait_mutex_);\n        timer_active_.store(false);\n    }\n', '    timer_active_.store(false);\n')]),
 ('p stop no notify', E5, 'caught', [(P, '    periodic_wait_condition_variable_.notify_one();\n', '')]),
 ('p stop notify late', E5, 'caught', [(P, '    periodic_wait_condition_variable_.notify_one();\n', ''), (P, '    period_thread_.join();\n', '    period_thread_.join();\n    periodic_wait_condition_variable_.notify_one();\n')]),
 ('p join locked', E5, 'caught', [(P, '    {\n        std::unique_lock<std::mutex> lock(periodic_wait_mutex_);\n        timer_active_.store(false);\n    }\n', '    std::unique_lock<std::mutex> lock(periodic_wait_mutex_);\n    timer_active_.store(false);\n')]),
 ('p zero ok', E5, 'caught', [(P, 'if (period_time <= 0)', 'if (period_time < 0)')]),
 ('p one bad', E5, 'caught', [(P, 'if (period_time <= 0)', 'if (period_time <= 1)')]),
 ('p other exc', E5, 'caught', [(P, 'throw utils::InitializationException("Periodic Event Handler could no be created with period time 0");', 'throw std::invalid_argument("x");')]),
 ('p wrong period', E5, 'caught', [(P, ', period_time_(period_time)', ', period_time_(period_time / 10 * 10)')]),
 ('p pred active', E5, 'caught', [(P, 'return !timer_active_.load();', 'return timer_active_.load();')]),
 ('p r eq', E5, 'quiet', [(P, 'if (period_time <= 0)', 'if (period_time_ == 0)')]),
 ('p r loop', E5, 'quiet', [(P, '        if (!timer_active_.load())\n        {\n            break;\n        }\n\n        event_occurred_();', '        if (timer_active_)\n        {\n            event_occurred_();\n        }')]),
 ('p r waitfor bool', E5, 'quiet', [(P, '        periodic_wait_condition_variable_.wait_for(', '        const bool stopped = periodic_wait_condition_variable_.wait_for('), (P, '        if (!timer_active_.load())\n        {\n            break', '        if (stopped)\n        {\n            break')]),
 ('p r unlock', E5, 'quiet', [(P, '            break;\n        }\n\n        event_occurred_();', '            break;\n        }\n\n        lock.unlock();\n        event_occurred_();')]),
 ('p r until', E5, 'quiet', [(P, WF, WF.replace('wait_for(', 'wait_until(').replace('std::chrono::milliseconds(period_time_)', 'std::chrono::steady_clock::now() + std::chrono::milliseconds(period_time_)'))]),
 ('p r notify in', E5, 'quiet', [(P, '        timer_active_.store(false);\n    }\n    periodic_wait_condition_variable_.notify_one();\n', '        timer_active_.store(false);\n        periodic_wait_condition_variable_.notify_all();\n    }\n')]),
 # E06
 ('s reg no lock', E6, 'caught', [(G, 'callback) noexcept\n{\n    std::lock_guard<std::mutex> lock(active_callbacks_mutex_);\n', 'callback) noexcept\n{\n')]),
 ('s unreg no lock', E6, 'caught', [(G, 'UniqueCallbackId id)\n{\n    std::lock_guard<std::mutex> lock(active_callbacks_mutex_);\n', 'UniqueCallbackId id)\n{\n')]),
 ('s deliver copy', E6, 'caught', [(G, '    std::lock_guard<std::mutex> lock(active_callbacks_mutex_);\n\n    logInfo', '    std::map<UniqueCallbackId, std::function<void()>> copy;\n    {\n        std::lock_guard<std::mutex> lock(active_callbacks_mutex_);\n        copy = active_callbacks_;\n    }\n\n    logInfo'), (G, 'for (auto it : active_callbacks_)', 'for (auto it : copy)')]),
 ('s id same', E6, 'caught', [(G, '    current_last_id_++;\n    return current_last_id_;', '    return current_last_id_;')]),
 ('s id unlocked', E6, 'caught', [(G, '    std::lock_guard<std::mutex> lock(last_id_mutex_);\n    current_last_id_++;\n    return current_last_id_;', '    {\n        std::lock_guard<std::mutex> lock(last_id_mutex_);\n        current_last_id_++;\n    }\n    return current_last_id_;'), (G, '    std::lock_guard<std::mutex> lock(active_callbacks_mutex_);\n\n    UniqueCallbackId new_id = new_unique_id_();\n', '    UniqueCallbackId new_id = new_unique_id_();\n    std::lock_guard<std::mutex> lock(active_callbacks_mutex_);\n')]),
 ('s id size', E6, 'caught', [(G, 'UniqueCallbackId new_id = new_unique_id_();', 'UniqueCallbackId new_id = active_callbacks_.size() + 1;')]),
 ('s id post', E6, 'caught', [(G, '    current_last_id_++;\n    return current_last_id_;', '    return current_last_id_ == 5 ? current_last_id_ : ++current_last_id_;')]),
 ('s erase wrong', E6, 'caught', [(G, '    if (!active_callbacks_.erase(id))', '    if (!active_callbacks_.erase(id - 1))')]),
 ('s erase begin', E6, 'caught', [(G, '    if (!active_callbacks_.erase(id))\n    {', '    if (active_callbacks_.count(id))\n    {\n        active_callbacks_.erase(active_callbacks_.begin());\n    }\n    else\n    {')]),
 ('s no throw', E6, 'caught', [(G, '        throw utils::InconsistencyException("Unregistering callback that has not been registered before.");', '        return;')]),
 ('s last only', E6, 'caught', [(G, '        it.second();', '        it.second();\n        if (active_callbacks_.size() > 4) break;')]),
 ('s first', E6, 'caught', [(G, '        it.second();\n', '        it.second();\n        break;\n')]),
 ('s twice', E6, 'caught', [(G, '        it.second();\n', '        it.second();\n        it.second();\n')]),
 ('s take all', E6, 'caught', [(G, '            signals_received_--;', '            signals_received_ = 0;')]),
 ('s no take', E6, 'caught', [(G, '            signals_received_--;', '')]),
 ('s unconditional', E6, 'caught', [(G, '                return signals_received_.load() > 0 ||\n                signal_handler_thread_stop_.load();\n            });\n\n        if (signal_handler_thread_stop_.load())\n        {\n            break;\n        }\n        else if (signals_received_.load() > 0)\n        {', '                return signals_received_.load() > 0 ||\n                signal_handler_thread_stop_.load();\n            });\n\n        {')]),
 ('s drop while stop', E6, 'caught', [(G, '        else if (signals_received_.load() > 0)', '        else if (signals_received_.load() > 1)')]),
 ('s handler lock', E6, 'caught', [(G, '    signals_received_++;\n', '    {\n        std::lock_guard<std::mutex> lock(get_instance().signal_received_cv_mutex_);\n        signals_received_++;\n    }\n')]),
 ('s handler log', E6, 'caught', [(G, '    signal_received_();\n', '    logInfo(UTILS_SIGNALMANAGER, "signal " << sigval);\n    signal_received_();\n')]),
 ('s handler order', E6, 'caught', [(G, '    signals_received_++;\n    signal_received_cv_.notify_one();\n', '    signal_received_cv_.notify_one();\n    signals_received_++;\n')]),
 ('s handler store', E6, 'caught', [(G, '    signals_received_++;\n', '    signals_received_.store(1);\n')]),
 ('s handler if', E6, 'caught', [(G, '    signals_received_++;\n', '    if (signals_received_ == 0)\n    {\n        signals_received_++;\n    }\n')]),
 ('s dtor no mutex', E6, 'caught', [(G, '    {\n        std::unique_lock<std::mutex> lock(signal_received_cv_mutex_);\n        signal_handler_thread_stop_.store(true);\n    }\n', '    signal_handler_thread_stop_.store(true);\n')]),
 ('s dtor no join', E6, 'caught', [(G, '    signal_handler_thread_.join();\n', '    signal_handler_thread_.detach();\n')]),
 ('s sleep pred', E6, 'caught', [(G, 'signals_received_.load() > 0 ||\n', 'signals_received_.load() > 1 ||\n')]),
 ('s pred no stop', E6, 'caught', [(G, 'return signals_received_.load() > 0 ||\n                signal_handler_thread_stop_.load();', 'return signals_received_.load() > 0;')]),
 ('s thread early', E6, 'caught', [(G, '    : signal_handler_thread_stop_(false)\n    , current_last_id_(0)', '    : signal_handler_thread_(&SignalManager<SigVal>::signal_handler_thread_routine_, this)\n    , signal_handler_thread_stop_(false)\n    , current_last_id_(0)'), (G, '    signal_handler_thread_ = std::thread(\n        &SignalManager<SigVal>::signal_handler_thread_routine_, this);\n', '')]),
 ('s wrong sig', E6, 'caught', [(G, '    signal(static_cast<int>(SigVal), SignalManager<SigVal>::signal_handler_function_);\n\n', '    signal(SIGINT, SignalManager<SigVal>::signal_handler_function_);\n\n')]),
 ('s r emplace', E6, 'quiet', [(G, 'active_callbacks_[new_id] = callback;', 'active_callbacks_.emplace(new_id, callback);')]),
 ('s r insert', E6, 'quiet', [(G, 'active_callbacks_[new_id] = callback;', 'active_callbacks_.insert({new_id, std::move(callback)});')]),
 ('s r assign', E6, 'quiet', [(G, 'active_callbacks_[new_id] = callback;', 'active_callbacks_.insert_or_assign(new_id, callback);')]),
 ('s r find', E6, 'quiet', [(G, '    if (!active_callbacks_.erase(id))\n    {', '    auto it = active_callbacks_.find(id);\n    if (it != active_callbacks_.end())\n    {\n        active_callbacks_.erase(it);\n    }\n    else\n    {')]),
 ('s r count', E6, 'quiet', [(G, '    if (!active_callbacks_.erase(id))\n    {', '    const auto removed = active_callbacks_.erase(id);\n    if (removed == 0)\n    {')]),
 ('s r count2', E6, 'quiet', [(G, '    if (!active_callbacks_.erase(id))\n', '    if (active_callbacks_.count(id) != 0)\n    {\n        active_callbacks_.erase(id);\n    }\n    else\n')]),
 ('s r it', E6, 'quiet', [(G, '    for (auto it : active_callbacks_)\n    {\n        it.second();', '    for (const auto& [id, callback] : active_callbacks_)\n    {\n        callback();')]),
 ('s r iter', E6, 'quiet', [(G, '    for (auto it : active_callbacks_)\n    {\n        it.second();', '    for (auto it = active_callbacks_.begin(); it != active_callbacks_.end(); ++it)\n    {\n        it->second();')]),
 ('s r foreach', E6, 'quiet', [(G, '    for (auto it : active_callbacks_)\n    {\n        it.second();\n    }', '    std::for_each(active_callbacks_.begin(), active_callbacks_.end(), [](const std::pair<const UniqueCallbackId, std::function<void()>>& x)\n            {\n                x.second();\n            });')]),
 ('s r loop', E6, 'quiet', [(G, ROUT, """    while (true)
    {
        std::unique_lock<std::mutex> lock(signal_received_cv_mutex_);
        while (signals_received_ == 0 && !signal_handler_thread_stop_)
        {
            signal_received_cv_.wait(lock);
        }

        if (signal_handler_thread_stop_)
        {
            return;
        }

        --signals_received_;
        signal_handler_routine_();
    }
""")]),
 ('s r unlock', E6, 'quiet', [(G, '            signals_received_--;\n', '            signals_received_.fetch_sub(1);\n            lock.unlock();\n')]),
 ('s r pre', E6, 'quiet', [(G, '    current_last_id_++;\n    return current_last_id_;', '    return ++current_last_id_;')]),
 ('s r inline', E6, 'quiet', [(G, '    signal_received_();\n', '    ++signals_received_;\n    signal_received_cv_.notify_all();\n')]),
]
