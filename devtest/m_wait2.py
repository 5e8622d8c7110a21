WH='cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp'
CW='cpp_utils/src/cpp/wait/CounterWaitHandler.cpp'
IW='cpp_utils/src/cpp/wait/IntWaitHandler.cpp'
BW='cpp_utils/src/cpp/wait/BooleanWaitHandler.cpp'
CO='cpp_utils/include/cpp_utils/wait/impl/ConsumerWaitHandler.ipp'
DQ='cpp_utils/include/cpp_utils/wait/impl/DBQueueWaitHandler.ipp'
DB='cpp_utils/include/cpp_utils/queue/DBQueue.hpp'
ALL=['W01','W02','W03','W04','W05','W06','W07','W08']
M=[
 ('w2 predicate without enabled',['W02'],'caught',[(WH,'return !enabled_.load() || predicate(value_);','return predicate(value_);')]),
 ('w2 notify dropped',['W02'],'caught',[(WH,'        // Do not block for awaken\n        wait_condition_variable_.notify_all();','        // Do not block for awaken\n')]),
 ('w2 stop_and_continue no enable',['W02'],'caught',[(WH,'        blocking_disable();\n    }\n    enable();','        blocking_disable();\n        enable();\n    }')]),
 ('w2 initial check dropped (thr)',['W02'],'quiet',[(CW,'    if (!enabled())\n    {\n        return AwakeReason::disabled;\n    }\n','')]),
 ('w2 stop disable only',['W02'],'caught',[(WH,'        blocking_disable();\n    }\n    enable();','        disable();\n    }\n    enable();')]),
 ('r3 reason redundant',['W03'],'quiet',[(WH,'    if (!enabled_.load())\n    {\n        reason = AwakeReason::disabled;\n    }\n    else if','    if (finished_for_condition_met && !enabled_.load())\n    {\n        reason = AwakeReason::disabled;\n    }\n    else if')]),
 ('w3 reason from later state',['W03'],'caught',[(WH,'    blocking_wait_(predicate, timeout, reason);\n','    blocking_wait_(predicate, timeout, reason);\n    if (!enabled())\n    {\n        reason = AwakeReason::disabled;\n    }\n')]),
 ('w4 timed not counted',['W04'],'caught',[(WH,'    threads_waiting_++;','    if (timeout == 0) { threads_waiting_++; }'),(WH,'    threads_waiting_--;','    if (timeout == 0) { threads_waiting_--; }')]),
 ('w3 reason swapped',['W03'],'caught',[(WH,'''    if (!enabled_.load())
    {
        reason = AwakeReason::disabled;
    }
    else if (finished_for_condition_met)
    {
        reason = AwakeReason::condition_met;
    }''','''    if (finished_for_condition_met)
    {
        reason = AwakeReason::condition_met;
    }
    else if (!enabled_.load())
    {
        reason = AwakeReason::disabled;
    }''')]),
 ('w3 timeout ignored',['W03'],'caught',[(CW,'''        time_to_wait_until = utils::now() + utils::duration_to_ms(timeout);''','''        time_to_wait_until = utils::now() + utils::duration_to_ms(1000);''')]),
 ('w3 timeout >1',['W03'],'caught',[(WH,'if (timeout > 0)','if (timeout > 1)')]),
 ('w3 read after unlock',['W03'],'caught',[(CW,'''    // Check awake reason. Mutex is taken so it can not change while checking
    if (!enabled_.load())''','''    lock.unlock();
    lock.lock();
    if (!enabled_.load())''')]),
 ('w4 count not decremented on disabled',['W04'],'caught',[(CW,'''    threads_waiting_--;

    // Check awake reason. Mutex is taken so it can not change while checking
    if (!enabled_.load())
    {
        return AwakeReason::disabled;
    }''','''    // Check awake reason. Mutex is taken so it can not change while checking
    if (!enabled_.load())
    {
        return AwakeReason::disabled;
    }
    threads_waiting_--;
    if (false)
    {
    }''')]),
 ('w4 no increment',['W04'],'caught',[(CW,'    threads_waiting_++;','')]),
 ('w4 holds mutex while waiting',['W04'],'caught',[(WH,'''    while (threads_waiting_.load() > 0)
    {
        // Lock so this thread has no priority over closing threads
        {
            std::lock_guard<std::mutex> lock(wait_condition_variable_mutex_);
        }
''','''    std::unique_lock<std::mutex> lk(wait_condition_variable_mutex_);
    while (threads_waiting_.load() > 0)
    {
'''),(WH,'''
    // The last thread leaves the count with mutex taken: wait till it has released it
    std::lock_guard<std::mutex> waiters_lock(wait_condition_variable_mutex_);
''','')]),
 ('w4 if instead of while',['W04'],'caught',[(WH,'    while (threads_waiting_.load() > 0)\n','    if (threads_waiting_.load() > 0)\n')]),
 ('w4 dtor disable only',['W04'],'caught',[(WH,'WaitHandler<T>::~WaitHandler()\n{\n    blocking_disable();','WaitHandler<T>::~WaitHandler()\n{\n    disable();')]),
 ('r4 loop with lock',['W04','W01','W02'],'quiet',[(WH,'''    while (threads_waiting_.load() > 0)
    {
        // Lock so this thread has no priority over closing threads
        {
            std::lock_guard<std::mutex> lock(wait_condition_variable_mutex_);
        }

        // Notify in case there are still threads waiting to be awaken
        wait_condition_variable_.notify_all();
    }

    // The last thread leaves the count with mutex taken: wait till it has released it
    std::lock_guard<std::mutex> waiters_lock(wait_condition_variable_mutex_);
''','''    for (;;)
    {
        {
            std::unique_lock<std::mutex> lk(wait_condition_variable_mutex_);
            if (0 == threads_waiting_)
            {
                break;
            }
        }
        wait_condition_variable_.notify_all();
    }
''')]),
 ('w5 >= as >',['W05'],'caught',[(IW,'return value >= expected_value;','return value > expected_value;')]),
 ('w5 lower as !=',['W05'],'caught',[(IW,'return value < expected_value;','return value != expected_value;')]),
 ('w5 -- by two',['W05'],'caught',[(IW,'value_--;','value_ -= 2;')]),
 ('w5 close noop when open',['W05'],'caught',[(BW,'set_value(false, false);','set_value(is_open(), false);')]),
 ('w5 set_value only greater',['W05'],'caught',[(WH,'        value_ = new_value;','        if (!(new_value < value_))\n        {\n            value_ = new_value;\n        }')]),
 ('r5 negated forms',['W05','W03'],'quiet',[(IW,'return value >= expected_value;','return !(value < expected_value);'),(IW,'return value < expected_value;','return expected_value > value;'),(IW,'return value <= expected_value;','return value < expected_value || value == expected_value;')]),
 ('r5 set_value if differs',['W05','W01'],'quiet',[(WH,'        value_ = new_value;','        if (!(new_value == value_))\n        {\n            value_ = new_value;\n        }')]),
 ('w6 decrement after unlock',['W06'],'caught',[(CW,'''    if (result == AwakeReason::condition_met)
    {
        decrease_1_nts_();
    }''','''    if (result == AwakeReason::condition_met)
    {
        lock.unlock();
        lock.lock();
        decrease_1_nts_();
    }''')]),
 ('w6 decrement also on timeout',['W06'],'caught',[(CW,'    if (result == AwakeReason::condition_met)\n','    if (result != AwakeReason::disabled)\n')]),
 ('w6 >= threshold',['W06'],'caught',[(CW,'return value > threshold_tmp;','return value >= threshold_tmp;')]),
 ('w6 threshold <=',['W06'],'caught',[(CW,'(value_ == threshold_);\n        });','(value_ <= threshold_);\n        });')]),
 ('w7 count before add',['W07'],'caught',[(CO,'    add_value_(value);\n    this->operator ++();','    this->operator ++();\n    add_value_(value);')]),
 ('w7 timeout as disabled',['W07'],'caught',[(CO,'else if (reason == AwakeReason::timeout)\n    {\n        throw utils::TimeoutException("ConsumerWaitHandler awaken by timeout.");','else if (reason == AwakeReason::timeout)\n    {\n        throw utils::DisabledException("ConsumerWaitHandler awaken by timeout.");')]),
 ('w7 consume retries',['W07'],'caught',[(CO,'        return get_next_value_();','        get_next_value_();\n        return get_next_value_();')]),
 ('w7 pop mutex released',['W07'],'caught',[(DQ,'    auto value = queue_.front();','    lock.unlock();\n    auto value = queue_.front();')]),
 ('w7 no pop mutex',['W07'],'caught',[(DQ,'    std::unique_lock<std::mutex> lock(pop_queue_mutex_);','')]),
 ('w7 swap always',['W07'],'caught',[(DQ,'    if (queue_.empty())\n    {\n        logDebug','    if (!queue_.both_empty())\n    {\n        logDebug')]),
 ('r7 front_and_pop',['W07'],'quiet',[(DQ,'    auto value = queue_.front();\n    queue_.pop();\n\n    return value;','    return queue_.front_and_pop();')]),
 ('w8 push no lock',['W08'],'caught',[(DB,'''            T&& item)
    {
        std::unique_lock<std::mutex> guard(m_background_mutex);''','''            T&& item)
    {
''')]),
 ('w8 swap no bg lock',['W08'],'caught',[(DB,'''        std::unique_lock<std::mutex> fg_guard(m_foreground_mutex);
        std::unique_lock<std::mutex> bg_guard(m_background_mutex);

        // Clear''','''        std::unique_lock<std::mutex> fg_guard(m_foreground_mutex);

        // Clear''')]),
 ('w8 swap clear after',['W08'],'caught',[(DB,'''        std::queue<T>().swap(*m_foreground_queue);

        auto* swap       = m_background_queue;
        m_background_queue = m_foreground_queue;
        m_foreground_queue = swap;''','''        auto* swap       = m_background_queue;
        m_background_queue = m_foreground_queue;
        m_foreground_queue = swap;
        std::queue<T>().swap(*m_foreground_queue);''')]),
 ('w8 pop wrong lock',['W08'],'caught',[(DB,'''    void pop()
    {
        std::unique_lock<std::mutex> guard(m_foreground_mutex);''','''    void pop()
    {
        std::unique_lock<std::mutex> guard(m_background_mutex);''')]),
 ('w8 clear fg only',['W08'],'caught',[(DB,'        std::queue<T>().swap(*m_background_queue);\n','')]),
 ('r8 clear after swap',['W08','W07'],'quiet',[(DB,"""        // Clear the foreground queue.
        std::queue<T>().swap(*m_foreground_queue);
""",""),(DB,"        m_foreground_queue = swap;\n","        m_foreground_queue = swap;\n        while (!m_background_queue->empty()) { m_background_queue->pop(); }\n")]),
 ('w8 clear after swap wrong',['W08'],'caught',[(DB,"""        // Clear the foreground queue.
        std::queue<T>().swap(*m_foreground_queue);
""",""),(DB,"        m_foreground_queue = swap;\n","        m_foreground_queue = swap;\n        while (!m_foreground_queue->empty()) { m_foreground_queue->pop(); }\n")]),
 ('w8 pop instead of clear',['W08'],'caught',[(DB,"        std::queue<T>().swap(*m_foreground_queue);\n\n        auto","        if (!m_foreground_queue->empty()) { m_foreground_queue->pop(); }\n\n        auto")]),
 ('w8 swap unlock between',['W08'],'caught',[(DB,"        auto* swap       = m_background_queue;","        bg_guard.unlock();\n        bg_guard.lock();\n        auto* swap       = m_background_queue;")]),
 ('r8 std::swap',['W08','W07'],'quiet',[(DB,'''        auto* swap       = m_background_queue;
        m_background_queue = m_foreground_queue;
        m_foreground_queue = swap;''','''        std::swap(m_foreground_queue, m_background_queue);''')]),
 ('r8 while pop clear',['W08','W07'],'quiet',[(DB,'''        // Clear the foreground queue.
        std::queue<T>().swap(*m_foreground_queue);''','''        // Clear the foreground queue.
        *m_foreground_queue = std::queue<T>();''')]),
 ('r8 lock_guard',['W08'],'quiet',[(DB,'''        std::unique_lock<std::mutex> fg_guard(m_foreground_mutex);
        std::unique_lock<std::mutex> bg_guard(m_background_mutex);
        std::queue<T>().swap(*m_foreground_queue);''','''        std::lock(m_foreground_mutex, m_background_mutex);
        std::lock_guard<std::mutex> fg_guard(m_foreground_mutex, std::adopt_lock);
        std::lock_guard<std::mutex> bg_guard(m_background_mutex, std::adopt_lock);
        std::queue<T>().swap(*m_foreground_queue);''')]),
]
