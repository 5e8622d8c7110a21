WH='cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp'
CW='cpp_utils/src/cpp/wait/CounterWaitHandler.cpp'
IW='cpp_utils/src/cpp/wait/IntWaitHandler.cpp'
BW='cpp_utils/src/cpp/wait/BooleanWaitHandler.cpp'
M=[
 ('w1 open no notify',['W01'],'caught',[(BW,'set_value(true, true)','set_value(true, false)')]),
 ('w1 int-- notify_one',['W01'],'caught',[(IW,'value_--;\n    }\n\n    wait_condition_variable_.notify_all()','value_--;\n    }\n\n    wait_condition_variable_.notify_one()')]),
 ('w1 set_value no lock',['W01'],'caught',[(WH,"        // Set value with mutex taken\n","")] if False else [(WH,"        std::lock_guard<std::mutex> lock(wait_condition_variable_mutex_);\n        value_ = new_value;","        value_ = new_value;")]),
 ('w1 disable no lock',['W01'],'caught',[(WH,'            std::lock_guard<std::mutex> lock(wait_condition_variable_mutex_);\n            logDebug(UTILS_WAIT, "Disabling WaitHandler.");','            logDebug(UTILS_WAIT, "Disabling WaitHandler.");')]),
 ('w1 disable notify_one',['W01'],'caught',[(WH,'        // Do not block for awaken\n        wait_condition_variable_.notify_all();','        // Do not block for awaken\n        wait_condition_variable_.notify_one();')]),
 ('w1 counter inc ==',['W01'],'quiet',[(CW,'''        if (value_ > threshold_)
        {
            wait_condition_variable_.notify_one();
        }
        // If the threshold is reached from''','''        if (value_ == threshold_ + 1)
        {
            wait_condition_variable_.notify_one();
        }
        // If the threshold is reached from''')]),
 ('w1 counter inc == no chain',['W01'],'caught',[(CW,'''        if (value_ > threshold_)
        {
            wait_condition_variable_.notify_one();
        }
        // If the threshold is reached from''','''        if (value_ == threshold_ + 1)
        {
            wait_condition_variable_.notify_one();
        }
        // If the threshold is reached from'''),(CW,'''    if (value_ > threshold_)
    {
        wait_condition_variable_.notify_one();
    }
    // If the threshold is''','''    if (false)
    {
    }
    // If the threshold is''')]),
 ('w1 counter inc > thr+1',['W01'],'caught',[(CW,'''        if (value_ > threshold_)
        {
            wait_condition_variable_.notify_one();
        }
        // If the threshold is reached from''','''        if (value_ > threshold_ + 1)
        {
            wait_condition_variable_.notify_one();
        }
        // If the threshold is reached from''')]),
 ('w1 predicate before lock',['W01'],'caught',[(CW,'''        return AwakeReason::disabled;
    }

    // Increment number of threads waiting
    // WARNING: mutex must be taken
    threads_waiting_++;''','''        return AwakeReason::disabled;
    }
    lock.unlock();
    if (value_ == threshold_)
    {
        return AwakeReason::condition_met;
    }
    lock.lock();
    threads_waiting_++;
    threshold_reached_cv_.wait(lock);
    threads_waiting_--;
    return AwakeReason::condition_met;''')]),
 ('r inc restructure',['W01'],'quiet',[(IW,'''    {
        // Mutex must guard the modification of value_
        std::lock_guard<std::mutex> lock(wait_condition_variable_mutex_);
        value_++;
    }

    wait_condition_variable_.notify_all();
''','''    std::unique_lock<std::mutex> guard(wait_condition_variable_mutex_);
    value_ += 1;
    guard.unlock();
    wait_condition_variable_.notify_all();
''')]),
 ('r wait loop',['W01'],'quiet',[(WH,'''    bool finished_for_condition_met = wait_condition_variable_.wait_until(
        lock,
        time_to_wait_until,
        [this, predicate]
        {
            // Exit if predicate is true or if this has been disabled
            return !enabled_.load() || predicate(value_);
        });
''','''    bool finished_for_condition_met = true;
    while (enabled_.load() && !predicate(value_))
    {
        if (wait_condition_variable_.wait_until(lock, time_to_wait_until) == std::cv_status::timeout)
        {
            finished_for_condition_met = !enabled_.load() || predicate(value_);
            break;
        }
    }
''')]),
 ('r set_value notify under lock',['W01'],'quiet',[(WH,'''        value_ = new_value;
    }

    if (notify)
    {
        wait_condition_variable_.notify_all();
    }''','''        value_ = new_value;
        if (notify)
        {
            wait_condition_variable_.notify_all();
        }
    }''')]),
]
