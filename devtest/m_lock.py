W = 'cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp'
EH = 'cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp'
DQ = 'cpp_utils/include/cpp_utils/queue/DBQueue.hpp'
DW = 'cpp_utils/include/cpp_utils/wait/impl/DBQueueWaitHandler.ipp'
PE = 'cpp_utils/src/cpp/event/PeriodicEventHandler.cpp'
ST = 'cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp'
SM = 'cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp'
CW = 'cpp_utils/src/cpp/wait/CounterWaitHandler.cpp'
SE = 'cpp_utils/src/cpp/event/StdinEventHandler.cpp'
L = ['L01']
FG = 'std::unique_lock<std::mutex> fg_guard(m_foreground_mutex);\n        std::unique_lock<std::mutex> bg_guard(m_background_mutex);'
BG = 'std::unique_lock<std::mutex> bg_guard(m_background_mutex);\n        std::unique_lock<std::mutex> fg_guard(m_foreground_mutex);'
M = [
 ('swap order', L, 'caught', [(DQ, FG + '\n\n', BG + '\n\n')]),
 ('clear order', L, 'caught', [(DQ, FG + '\n        std::queue', BG + '\n        std::queue')]),
 ('both_empty', L, 'caught', [(DQ, 'std::unique_lock<std::mutex> guard(m_foreground_mutex);\n        std::unique_lock<std::mutex> bg_guard(m_background_mutex);', 'std::unique_lock<std::mutex> bg_guard(m_background_mutex);\n        std::unique_lock<std::mutex> guard(m_foreground_mutex);')]),
 ('swap calls empty', L, 'caught', [(DQ, '        std::queue<T>().swap(*m_foreground_queue);\n\n        auto', '        if (!empty())\n        {\n            return;\n        }\n\n        auto')]),
 ('unset order', L, 'caught', [(EH, '            std::unique_lock<std::mutex> lock(wait_mutex_);\n            is_callback_set_.store(false);\n        }\n', '            std::unique_lock<std::mutex> lock(wait_mutex_);\n            is_callback_set_.store(false);\n            std::lock_guard<std::recursive_mutex> lock2(internal_callback_mutex_);\n        }\n'),
     (EH, 'was_callback_set_before = true;\n\n        std::lock_guard<std::recursive_mutex> lock(internal_callback_mutex_);', 'was_callback_set_before = true;\n')]),
 ('occurred takes event', L, 'caught', [(EH, '    std::lock_guard<std::recursive_mutex> lock(internal_callback_mutex_);\n\n    if (is_callback_set_.load())\n    {\n        callback_(', '    std::lock_guard<std::recursive_mutex> lock(internal_callback_mutex_);\n    std::lock_guard<std::recursive_mutex> lock2(event_mutex_);\n\n    if (is_callback_set_.load())\n    {\n        callback_(')]),
 ('reset twice', L, 'caught', [(EH, '    std::lock_guard<std::mutex> lock(wait_mutex_);\n    if (number_of_events_registered_ > 0)\n    {\n        number_of_events_registered_--;', '    std::lock_guard<std::mutex> lock(wait_mutex_);\n    if (number_of_events_registered_ == 1)\n    {\n        reset_event_count();\n    }\n    else if (number_of_events_registered_ > 0)\n    {\n        number_of_events_registered_--;')]),
 ('periodic stop', L, 'caught', [(PE, '        timer_active_.store(false);\n    }\n    periodic_wait_condition_variable_.notify_one();\n\n    // Wait for the periodic thread to finish as it will skip sleep due to the condition variable\n    period_thread_.join();', '        timer_active_.store(false);\n    periodic_wait_condition_variable_.notify_one();\n\n    period_thread_.join();\n    }')]),
 ('periodic unset', L, 'caught', [(PE, '        if (!timer_active_.load())\n        {\n            break;\n        }\n\n        event_occurred_();', '        if (!timer_active_.load())\n        {\n            break;\n        }\n\n        std::lock_guard<std::recursive_mutex> g(event_mutex_);\n        event_occurred_();')]),
 ('status under cv', L, 'caught', [(W, '    threads_waiting_--;\n\n    // Check awake', '    threads_waiting_--;\n    std::lock_guard<std::recursive_mutex> g(status_mutex_);\n\n    // Check awake')]),
 ('get_value in wait', L, 'caught', [(W, 'return !enabled_.load() || predicate(value_);', 'return !enabled_.load() || predicate(get_value());')]),
 ('sleep status', L, 'caught', [(W, '    // Do wait with mutex taken\n    std::unique_lock<std::mutex> lock(wait', '    std::lock_guard<std::recursive_mutex> g(status_mutex_);\n    // Do wait with mutex taken\n    std::unique_lock<std::mutex> lock(wait')]),
 ('dtor wait', L, 'caught', [(DW, '    // Assure', '    if (queue_.empty())\n    {\n        std::unique_lock<std::mutex> l(pop_queue_mutex_);\n        this->wait_threshold_reached(1);\n    }\n    // Assure')]),
 ('slot under', L, 'caught', [(ST, '    task_queue_.disable();\n\n        for', '    std::lock_guard<std::mutex> lock(slots_mutex_);\n        task_queue_.disable();\n\n        for')]),
 ('slot emit in slot', L, 'caught', [(ST, '        slots_.insert(std::make_pair(task_id, std::move(task)));', '        slots_.insert(std::make_pair(task_id, std::move(task)));\n        emit(task_id);')]),
 ('slot wait', L, 'caught', [(ST, '    return task_queue_.wait_all_consumed(timeout);', '    std::lock_guard<std::mutex> lock(slots_mutex_);\n    return task_queue_.wait_all_consumed(timeout);')]),
 ('signal locks', L, 'caught', [(SM, '    signals_received_++;', '    std::lock_guard<std::recursive_mutex> g(instance_mutex_);\n    signals_received_++;')]),
 ('signal logs', L, 'caught', [(SM, '    signals_received_++;', '    logInfo(UTILS_SIGNALHANDLER, "signal");\n    signals_received_++;')]),
 ('signal dtor', L, 'caught', [(SM, '        signal_handler_thread_stop_.store(true);\n    }\n\n    signal_received_cv_.notify_all();\n    signal_handler_thread_.join();', '        signal_handler_thread_stop_.store(true);\n\n    signal_received_cv_.notify_all();\n    signal_handler_thread_.join();\n    }')]),
 ('signal order', L, 'caught', [(SM, '    std::lock_guard<std::mutex> lock(active_callbacks_mutex_);\n\n    UniqueCallbackId new_id = new_unique_id_();', '    std::lock_guard<std::mutex> lock(active_callbacks_mutex_);\n    std::lock_guard<std::mutex> lock2(signal_received_cv_mutex_);\n\n    UniqueCallbackId new_id = new_unique_id_();')]),
 ('signal again', L, 'caught', [(SM, '    std::lock_guard<std::mutex> lock(last_id_mutex_);', '    std::lock_guard<std::mutex> lock(last_id_mutex_);\n    std::lock_guard<std::mutex> lock2(active_callbacks_mutex_);')]),
 ('counter again', L, 'caught', [(CW, '        value_++;\n', '        set_value(get_value() + 1, false);\n')]),
 ('r scoped', L, 'quiet', [(DQ, FG + '\n\n', 'std::lock(m_background_mutex, m_foreground_mutex);\n        std::unique_lock<std::mutex> fg_guard(m_foreground_mutex, std::adopt_lock);\n        std::unique_lock<std::mutex> bg_guard(m_background_mutex, std::adopt_lock);\n\n')]),
 ('r guard', L, 'quiet', [(DQ, FG + '\n\n', FG.replace('unique_lock', 'lock_guard') + '\n\n')]),
 ('r early unlock', L, 'quiet', [(SM, '        signal_handler_thread_stop_.store(true);\n    }\n', '        signal_handler_thread_stop_.store(true);\n        lock.unlock();\n    }\n')]),
 ('r fetch', L, 'quiet', [(SM, '    signals_received_++;', '    signals_received_.fetch_add(1);')]),
 ('r slot guard', L, 'quiet', [(ST, '    task_queue_.disable();\n\n        for', '    {\n            std::lock_guard<std::mutex> lock(slots_mutex_);\n        }\n        task_queue_.disable();\n\n        for')]),
 ('r size under lock', L, 'quiet', [(DW, '    // Assure', '    (void)queue_.size();\n    // Assure')]),
 ('r defer', L, 'quiet', [(EH, '    std::lock_guard<std::mutex> lock(wait_mutex_);\n    number_of_events_registered_.store(0);', '    std::unique_lock<std::mutex> lock(wait_mutex_, std::defer_lock);\n    lock.lock();\n    number_of_events_registered_.store(0);\n    lock.unlock();')]),
 ('r relock', L, 'quiet', [(EH, '    std::lock_guard<std::mutex> lock(wait_mutex_);\n    number_of_events_registered_.store(0);', '    std::unique_lock<std::mutex> lock(wait_mutex_);\n    lock.unlock();\n    lock.lock();\n    number_of_events_registered_.store(0);')]),
 ('left', L, 'caught', [(ST, '            slots_mutex_.unlock();\n', '            if (task)\n            {\n                slots_mutex_.unlock();\n            }\n')]),
 ('left throw', L, 'caught', [(ST, '    std::lock_guard<std::mutex> lock(slots_mutex_);\n\n    auto it = slots_.find(task_id);\n\n    if (it != slots_.end())\n    {', '    slots_mutex_.lock();\n\n    auto it = slots_.find(task_id);\n\n    if (it != slots_.end())\n    {'), (ST, '        slots_.insert(std::make_pair(task_id, std::move(task)));\n', '        slots_.insert(std::make_pair(task_id, std::move(task)));\n        slots_mutex_.unlock();\n')]),
 ('left release', L, 'caught', [(W, '    std::lock_guard<std::mutex> lock(wait_condition_variable_mutex_);\n    return value_;', '    std::unique_lock<std::mutex> lock(wait_condition_variable_mutex_);\n    lock.release();\n    return value_;')]),
 ('r slot both', L, 'quiet', [(ST, '    std::lock_guard<std::mutex> lock(slots_mutex_);\n\n    auto it = slots_.find(task_id);\n\n    if (it != slots_.end())\n    {', '    slots_mutex_.lock();\n\n    auto it = slots_.find(task_id);\n\n    if (it != slots_.end())\n    {\n        slots_mutex_.unlock();'), (ST, '        slots_.insert(std::make_pair(task_id, std::move(task)));\n', '        slots_.insert(std::make_pair(task_id, std::move(task)));\n        slots_mutex_.unlock();\n')]),
 ('r guard routine', L, 'quiet', [(ST, '            slots_mutex_.lock();', '            std::unique_lock<std::mutex> slots_lock(slots_mutex_);'), (ST, '            slots_mutex_.unlock();', '            slots_lock.unlock();')]),
]
