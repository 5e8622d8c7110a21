DB = 'cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp'
DH = 'cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp'
ADD = '''    auto res = internal_db_.insert(std::move(std::pair<Key, Value>(std::move(key), std::move(value))));

    return res.second;
'''
AOM = '''    auto it = internal_db_.find(key);
    if (it == internal_db_.end())
    {
        // Add new value
        internal_db_.insert(std::move(std::pair<Key, Value>(std::move(key), std::move(value))));
        return true;
    }
    else
    {
        // Modify already existent value
        it->second = std::move(value);
        return false;
    }
'''
MOD = '''    auto it = internal_db_.find(key);
    if (it == internal_db_.end())
    {
        return false;
    }

    it->second = std::move(value);

    return true;
'''
TP = 'cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp'
TI = 'cpp_utils/src/cpp/thread_pool/task/TaskId.cpp'
M = [
 ('add shared', ['D01'], 'caught', [(DB, '    std::unique_lock<std::shared_timed_mutex> _(mutex_);\n\n    auto res', '    std::shared_lock<std::shared_timed_mutex> _(mutex_);\n\n    auto res')]),
 ('modify shared', ['D01'], 'caught', [(DB, '    std::unique_lock<std::shared_timed_mutex> _(mutex_);\n\n    auto it = internal_db_.find(key);\n    if (it == internal_db_.end())\n    {\n        return false', '    std::shared_lock<std::shared_timed_mutex> _(mutex_);\n\n    auto it = internal_db_.find(key);\n    if (it == internal_db_.end())\n    {\n        return false')]),
 ('size unlocked', ['D01'], 'caught', [(DB, '    std::shared_lock<std::shared_timed_mutex> _(mutex_);\n\n    return internal_db_.size();', '    return internal_db_.size();')]),
 ('is throw away lock', ['D01'], 'caught', [(DB, '    std::shared_lock<std::shared_timed_mutex> _(mutex_);\n\n    return internal_db_.find(key) != ', '    std::shared_lock<std::shared_timed_mutex>{mutex_};\n\n    return internal_db_.find(key) != ')]),
 ('add overwrites', ['D01'], 'caught', [(DB, ADD, '    return internal_db_.insert_or_assign(std::move(key), std::move(value)).second;\n')]),
 ('aom moved', ['D01'], 'caught', [(DB, AOM, '''    auto res = internal_db_.insert(std::pair<Key, Value>(std::move(key), std::move(value)));
    if (!res.second)
    {
        res.first->second = std::move(value);
    }
    return res.second;
''')]),
 ('aom split', ['D01'], 'caught', [(DB, '''    std::unique_lock<std::shared_timed_mutex> _(mutex_);

''' + AOM, '''    if (!is(key))
    {
        return add(std::move(key), std::move(value));
    }
    modify(key, std::move(value));
    return false;
''')]),
 ('aom relock', ['D01'], 'caught', [(DB, '        // Modify already existent value\n', '        _.unlock();\n        _.lock();\n')]),
 ('modify inserts', ['D01'], 'caught', [(DB, MOD, '    internal_db_[key] = std::move(value);\n    return true;\n')]),
 ('erase true', ['D01'], 'caught', [(DB, 'return internal_db_.erase(key) != 0;', 'internal_db_.erase(key);\n    return true;')]),
 ('erase all', ['D01'], 'caught', [(DB, 'return internal_db_.erase(key) != 0;', 'auto it = internal_db_.lower_bound(key);\n    if (it == internal_db_.end())\n    {\n        return false;\n    }\n    internal_db_.erase(it);\n    return true;')]),
 ('find lower', ['D01'], 'caught', [(DB, 'Iterator<Key, Value>(internal_db_.find(key), mutex_)', 'Iterator<Key, Value>(internal_db_.lower_bound(key), mutex_)')]),
 ('no lock in ctor', ['D01'], 'caught', [(DB, '    mutex_.lock_shared();\n}\n\ntemplate <typename Key, typename Value>\nSafeDatabaseIterator<Key, Value>::~', '}\n\ntemplate <typename Key, typename Value>\nSafeDatabaseIterator<Key, Value>::~')]),
 ('ctor try', ['D01'], 'caught', [(DB, '    mutex_.lock_shared();', '    mutex_.try_lock_shared();')]),
 ('dtor none', ['D01'], 'caught', [(DB, '    mutex_.unlock_shared();', '')]),
 ('at default', ['D01'], 'caught', [(DB, 'return internal_db_.at(key);', 'auto it = internal_db_.find(key);\n    return it == internal_db_.end() ? Value() : it->second;')]),
 ('copy add', ['D01'], 'caught', [(DB, 'return add(std::move(Key(key)), std::move(Value(value)));', 'return add_or_modify(std::move(Key(key)), std::move(Value(value)));')]),
 ('r add count', ['D01'], 'quiet', [(DB, ADD, '''    if (internal_db_.count(key) > 0)
    {
        return false;
    }
    internal_db_.emplace(std::move(key), std::move(value));
    return true;
''')]),
 ('r add emplace', ['D01'], 'quiet', [(DB, ADD, '    return internal_db_.emplace(std::move(key), std::move(value)).second;\n')]),
 ('r add try', ['D01'], 'quiet', [(DB, ADD, '    const auto [it, inserted] = internal_db_.try_emplace(std::move(key), std::move(value));\n    static_cast<void>(it);\n    return inserted;\n')]),
 ('r add index', ['D01'], 'quiet', [(DB, ADD, '    bool fresh = internal_db_.find(key) == internal_db_.end();\n    if (fresh)\n    {\n        internal_db_[std::move(key)] = std::move(value);\n    }\n    return fresh;\n')]),
 ('r aom assign', ['D01'], 'quiet', [(DB, AOM, '    return internal_db_.insert_or_assign(std::move(key), std::move(value)).second;\n')]),
 ('r aom index', ['D01'], 'quiet', [(DB, AOM, '    const bool present = internal_db_.find(key) != internal_db_.end();\n    internal_db_[std::move(key)] = std::move(value);\n    return !present;\n')]),
 ('r modify nest', ['D01'], 'quiet', [(DB, MOD, '    const auto found = internal_db_.find(key);\n    const bool exists = (found != internal_db_.end());\n    if (exists)\n    {\n        Value& target = found->second;\n        target = std::move(value);\n    }\n    return exists;\n')]),
 ('r modify at', ['D01'], 'quiet', [(DB, MOD, '    if (internal_db_.count(key) == 0)\n    {\n        return false;\n    }\n    internal_db_.at(key) = std::move(value);\n    return true;\n')]),
 ('r erase it', ['D01'], 'quiet', [(DB, 'return internal_db_.erase(key) != 0;', 'auto it = internal_db_.find(key);\n    if (it == internal_db_.end())\n    {\n        return false;\n    }\n    internal_db_.erase(it);\n    return true;')]),
 ('r erase n', ['D01'], 'quiet', [(DB, 'return internal_db_.erase(key) != 0;', 'const std::size_t removed = internal_db_.erase(key);\n    return removed > 0;')]),
 ('r erase n1', ['D01'], 'quiet', [(DB, 'return internal_db_.erase(key) != 0;', 'return internal_db_.erase(key) == 1;')]),
 ('r is count', ['D01'], 'quiet', [(DB, 'return internal_db_.find(key) != internal_db_.end();', 'return internal_db_.count(key) > 0;')]),
 ('r at find', ['D01'], 'quiet', [(DB, 'return internal_db_.at(key);', 'auto it = internal_db_.find(key);\n    if (it == internal_db_.end())\n    {\n        throw std::out_of_range("no such key");\n    }\n    return it->second;')]),
 ('r size', ['D01'], 'quiet', [(DB, '    return internal_db_.size();', '    return static_cast<unsigned int>(internal_db_.size());')]),
 ('r guard', ['D01'], 'quiet', [(DB, '    std::unique_lock<std::shared_timed_mutex> _(mutex_);\n\n    auto res', '    std::lock_guard<std::shared_timed_mutex> _(mutex_);\n\n    auto res')]),
 ('r optimistic', ['D01'], 'quiet', [(DB, '    std::unique_lock<std::shared_timed_mutex> _(mutex_);\n\n    return internal_db_.erase(key) != 0;', '    {\n        std::shared_lock<std::shared_timed_mutex> r(mutex_);\n        if (internal_db_.find(key) == internal_db_.end())\n        {\n            return false;\n        }\n    }\n    std::unique_lock<std::shared_timed_mutex> _(mutex_);\n    return internal_db_.erase(key) != 0;')]),
 ('r helper', ['D01'], 'quiet', [(DB, 'template <typename Key, typename Value>\nbool SafeDatabase<Key, Value>::is(', 'template <typename Map, typename Key>\nbool present_(\n        const Map& map,\n        const Key& key)\n{\n    return map.find(key) != map.end();\n}\n\ntemplate <typename Key, typename Value>\nbool SafeDatabase<Key, Value>::is('), (DB, 'return internal_db_.find(key) != internal_db_.end();', 'return present_(internal_db_, key);')]),
]
PO = 'cpp_utils/include/cpp_utils/pool/impl/UnboundedPool.ipp'
LOAN = '''    element = elements_.back();
    elements_.pop_back();
'''
AUG = '''    for (unsigned int i = 0; i < new_values_count; ++i)
    {
        auto new_element = this->new_element_();
        this->elements_.push_back(new_element);
    }
    reserved_ += new_values_count;
'''
RET = '''    this->reset_element_(element);
    elements_.push_back(element);
'''
M += [
 ('no pop', ['Q01'], 'caught', [(PO, LOAN, '    element = elements_.back();\n')]),
 ('front back', ['Q01'], 'caught', [(PO, LOAN, '    element = elements_.front();\n    elements_.pop_back();\n')]),
 ('erase begin', ['Q01'], 'caught', [(PO, LOAN, '    element = elements_.back();\n    elements_.erase(elements_.begin());\n')]),
 ('augment one', ['Q01'], 'caught', [(PO, '        augment_free_values_();\n', '        augment_free_values_(1);\n')]),
 ('augment at 1', ['Q01'], 'caught', [(PO, 'if (elements_.size() == 0)', 'if (elements_.size() <= 1)')]),
 ('augment off by one', ['Q01'], 'caught', [(PO, 'i < new_values_count; ++i', 'i + 1 < new_values_count; ++i')]),
 ('reserved one', ['Q01'], 'caught', [(PO, 'reserved_ += new_values_count;', 'reserved_ += 1;')]),
 ('cap', ['Q01'], 'caught', [(PO, 'reserved_ += new_values_count;', 'reserved_ += new_values_count > 1024 ? 1024 : new_values_count;')]),
 ('reset late', ['Q01'], 'caught', [(PO, RET, '    elements_.push_back(element);\n    this->reset_element_(element);\n')]),
 ('no reset', ['Q01'], 'caught', [(PO, RET, '    elements_.push_back(element);\n')]),
 ('return twice', ['Q01'], 'caught', [(PO, RET, RET + '    if (elements_.size() == 1)\n    {\n        elements_.push_back(element);\n    }\n')]),
 ('count down', ['Q01'], 'caught', [(PO, RET, RET + '    --reserved_;\n')]),
 ('check after', ['Q01'], 'caught', [(PO, 'if (reserved_ == elements_.size())', 'if (reserved_ + 1 == elements_.size())')]),
 ('batch 0', ['Q01'], 'caught', [(PO, 'if (configuration.batch_size < 1)', 'if (configuration.batch_size < 1 && configuration.initial_size < 1)')]),
 ('not thrown', ['Q01'], 'caught', [(PO, 'throw utils::InitializationException(', 'utils::InitializationException(')]),
 ('new T', ['Q01'], 'caught', [(PO, 'this->new_element_();', 'new T();')]),
 ('leak', ['Q01'], 'caught', [(PO, '        this->delete_element_(element);\n', '        if (elements_.size() == reserved_)\n        {\n            this->delete_element_(element);\n        }\n')]),
 ('initial none', ['Q01'], 'caught', [(PO, 'augment_free_values_(this->configuration_.initial_size);', 'if (this->configuration_.initial_size > this->configuration_.batch_size)\n    {\n        augment_free_values_(this->configuration_.initial_size);\n    }')]),
 ('r empty', ['Q01'], 'quiet', [(PO, 'if (elements_.size() == 0)', 'if (elements_.empty())')]),
 ('r while', ['Q01'], 'quiet', [(PO, AUG, '    unsigned int left = new_values_count;\n    while (left > 0)\n    {\n        elements_.push_back(this->new_element_());\n        ++reserved_;\n        --left;\n    }\n')]),
 ('r upfront', ['Q01'], 'quiet', [(PO, AUG, '    reserved_ += new_values_count;\n    elements_.reserve(elements_.size() + new_values_count);\n    for (auto i = 0u; i != new_values_count; i++)\n    {\n        elements_.emplace_back(this->new_element_());\n    }\n')]),
 ('r postdec', ['Q01'], 'quiet', [(PO, AUG, '    reserved_ += new_values_count;\n    while (new_values_count-- > 0)\n    {\n        T* fresh = this->new_element_();\n        elements_.push_back(fresh);\n    }\n')]),
 ('r local', ['Q01'], 'quiet', [(PO, LOAN, '    T* const taken = elements_.back();\n    elements_.pop_back();\n    element = taken;\n')]),
 ('r index', ['Q01'], 'quiet', [(PO, LOAN, '    element = elements_[elements_.size() - 1];\n    elements_.pop_back();\n')]),
 ('r ret', ['Q01'], 'quiet', [(PO, 'if (reserved_ == elements_.size())', 'if (elements_.size() >= reserved_)')]),
 ('r dtor', ['Q01'], 'quiet', [(PO, '    for (auto& element : elements_)\n', '    for (T* element : elements_)\n')]),
 ('r dtor while', ['Q01'], 'quiet', [(PO, '''    for (auto& element : elements_)
    {
        this->delete_element_(element);
    }
''', '''    while (!elements_.empty())
    {
        this->delete_element_(elements_.back());
        elements_.pop_back();
    }
''')]),
 ('r dtor idx', ['Q01'], 'quiet', [(PO, '''    for (auto& element : elements_)
    {
        this->delete_element_(element);
    }
''', '''    std::for_each(elements_.begin(), elements_.end(), [this](T* element)
            {
                this->delete_element_(element);
            });
''')]),
 ('r cfg', ['Q01'], 'quiet', [(PO, 'if (configuration.batch_size < 1)', 'if (configuration_.batch_size == 0)')]),
 ('r helper', ['Q01'], 'quiet', [(PO, '    augment_free_values_(this->configuration_.batch_size);', '    const unsigned int batch = configuration_.batch_size;\n    augment_free_values_(batch);')]),
 # ---- T01
 ('emit other', ['T01'], 'caught', [(TP, 'task_queue_.produce(it->first);', 'task_queue_.produce(slots_.begin()->first);')]),
 ('emit twice', ['T01'], 'caught', [(TP, 'task_queue_.produce(it->first);', 'task_queue_.produce(it->first);\n        if (slots_.size() == 1)\n        {\n            task_queue_.produce(task_id);\n        }')]),
 ('emit no lock', ['T01'], 'caught', [(TP, '''    // Lock to access the slot map
    std::lock_guard<std::mutex> lock(slots_mutex_);

    auto it = slots_.find(task_id);

    if (it == slots_.end())
''', '''    auto it = slots_.find(task_id);

    if (it == slots_.end())
''')]),
 ('emit drops when disabled', ['T01'], 'caught', [(TP, 'task_queue_.produce(it->first);', 'if (enabled_)\n        {\n            task_queue_.produce(it->first);\n        }')]),
 ('slot replace', ['T01'], 'caught', [(TP, 'throw utils::ValueNotAllowedException(STR_ENTRY << "Slot " << task_id << " already exists.");', 'it->second = std::move(task);')]),
 ('slot no throw', ['T01'], 'caught', [(TP, 'throw utils::ValueNotAllowedException(STR_ENTRY << "Slot " << task_id << " already exists.");', 'utils::ValueNotAllowedException(STR_ENTRY << "Slot " << task_id << " already exists.");')]),
 ('run under lock', ['T01'], 'caught', [(TP, '            slots_mutex_.unlock();\n', ''), (TP, '            task();\n', '            task();\n            slots_mutex_.unlock();\n')]),
 ('unlock early', ['T01'], 'caught', [(TP, '            slots_mutex_.unlock();\n', ''), (TP, '            slots_mutex_.lock();\n\n            auto it', '            slots_mutex_.lock();\n            slots_mutex_.unlock();\n            auto it')]),
 ('run twice', ['T01'], 'caught', [(TP, '            task();\n', '            task();\n            if (task_id == 7)\n            {\n                task();\n            }\n')]),
 ('skip', ['T01'], 'caught', [(TP, '            task();\n', '            if (enabled_)\n            {\n                task();\n            }\n')]),
 ('first task', ['T01'], 'caught', [(TP, 'Task& task = it->second;', 'Task& task = slots_.begin()->second;')]),
 ('erase after', ['T01'], 'caught', [(TP, 'Task& task = it->second;', 'Task task = it->second;\n            if (task_id == 0)\n            {\n                slots_.erase(it);\n            }\n')]),
 ('enable racy', ['T01'], 'caught', [(TP, '    if (!enabled_.exchange(true))\n    {', '    if (!enabled_)\n    {\n        enabled_ = true;')]),
 ('enable one more', ['T01'], 'caught', [(TP, 'i < number_of_threads_', 'i <= number_of_threads_')]),
 ('enable at least one', ['T01'], 'caught', [(TP, 'i < number_of_threads_', 'i < number_of_threads_ && i < 1')]),
 ('no queue enable', ['T01'], 'caught', [(TP, '        task_queue_.enable();\n', '')]),
 ('queue enable late', ['T01'], 'caught', [(TP, '        task_queue_.enable();\n', ''), (TP, '                    std::bind(&SlotThreadPool::thread_routine_, this)));\n        }\n', '                    std::bind(&SlotThreadPool::thread_routine_, this)));\n        }\n        task_queue_.enable();\n')]),
 ('join first', ['T01'], 'caught', [(TP, '''        // Disable Task Queue, so threads will stop eventually when their current task is finished
        task_queue_.disable();

        for (auto& thread : threads_)
        {
            thread.join();
        }
''', '''        for (auto& thread : threads_)
        {
            thread.join();
        }
        task_queue_.disable();
''')]),
 ('detach', ['T01'], 'caught', [(TP, '            thread.join();\n', '            thread.detach();\n')]),
 ('no clear', ['T01'], 'caught', [(TP, '        threads_.clear();\n', '')]),
 ('disable under lock', ['T01'], 'caught', [(TP, '        task_queue_.disable();\n\n        for', '        std::lock_guard<std::mutex> lock(slots_mutex_);\n        task_queue_.disable();\n\n        for')]),
 ('self skip', ['T01'], 'caught', [(TP, '            thread.join();\n', '            if (thread.get_id() != std::this_thread::get_id())\n            {\n                thread.join();\n            }\n')]),
 ('dtor no disable', ['T01'], 'caught', [(TP, '    disable();\n    // Disable queue', '    // Disable queue'), (TP, '''    task_queue_.disable();

    for (auto& thread : threads_)
    {
        thread.join();
    }
''', '    task_queue_.disable();\n')]),
 ('wait forever', ['T01'], 'caught', [(TP, 'task_queue_.wait_all_consumed(timeout);', 'task_queue_.wait_all_consumed(0);')]),
 ('id race', ['T01'], 'caught', [(TI, '    return unique_task_id_++;', '    TaskId id = unique_task_id_;\n    unique_task_id_ = id + 1;\n    return id;')]),
 ('id thread', ['T01'], 'caught', [(TI, 'static std::atomic', 'thread_local std::atomic')]),
 ('id reread', ['T01'], 'caught', [(TI, '    return unique_task_id_++;', '    ++unique_task_id_;\n    return unique_task_id_;')]),
 ('r guard', ['T01'], 'quiet', [(TP, """            // Lock to access the slot map
            slots_mutex_.lock();

            auto it = slots_.find(task_id);
            // Check the slot is correct
            if (it == slots_.end())
            {
                utils::tsnh(STR_ENTRY << "Slot in Queue must be stored in slots register");
            }

            Task& task = it->second;

            slots_mutex_.unlock();
""", """            Task* slot = nullptr;
            {
                std::lock_guard<std::mutex> guard(slots_mutex_);
                auto it = slots_.find(task_id);
                if (it == slots_.end())
                {
                    utils::tsnh(STR_ENTRY << "Slot in Queue must be stored in slots register");
                }
                slot = &it->second;
            }
            Task& task = *slot;
""")]),
 ('r copy', ['T01'], 'quiet', [(TP, 'Task& task = it->second;', 'Task task = it->second;')]),
 ('r emit id', ['T01'], 'quiet', [(TP, 'task_queue_.produce(it->first);', 'task_queue_.produce(task_id);')]),
 ('r emit copy', ['T01'], 'quiet', [(TP, 'task_queue_.produce(it->first);', 'TaskId id = task_id;\n        task_queue_.produce(std::move(id));')]),
 ('r emit count', ['T01'], 'quiet', [(TP, '    auto it = slots_.find(task_id);\n\n    if (it == slots_.end())', '    if (slots_.count(task_id) == 0)'), (TP, 'task_queue_.produce(it->first);', 'task_queue_.produce(task_id);')]),
 ('r slot emplace', ['T01'], 'quiet', [(TP, 'slots_.insert(std::make_pair(task_id, std::move(task)));', 'slots_.emplace(task_id, std::move(task));')]),
 ('r slot index', ['T01'], 'quiet', [(TP, 'slots_.insert(std::make_pair(task_id, std::move(task)));', 'slots_[task_id] = std::move(task);')]),
 ('r slot found', ['T01'], 'quiet', [(TP, """    auto it = slots_.find(task_id);

    if (it != slots_.end())
    {
        throw utils::ValueNotAllowedException(STR_ENTRY << "Slot " << task_id << " already exists.");
    }
    else
    {
        slots_.insert(std::make_pair(task_id, std::move(task)));
    }
""", """    if (!slots_.insert(std::make_pair(task_id, std::move(task))).second)
    {
        throw utils::ValueNotAllowedException(STR_ENTRY << "Slot " << task_id << " already exists.");
    }
""")]),
 ('r enable lambda', ['T01'], 'quiet', [(TP, """            threads_.emplace_back(
                CustomThread(
                    std::bind(&SlotThreadPool::thread_routine_, this)));
""", """            threads_.emplace_back([this]
                    {
                        thread_routine_();
                    });
""")]),
 ('r enable ptr', ['T01'], 'quiet', [(TP, """            threads_.emplace_back(
                CustomThread(
                    std::bind(&SlotThreadPool::thread_routine_, this)));
""", """            threads_.emplace_back(&SlotThreadPool::thread_routine_, this);
""")]),
 ('r enable push', ['T01'], 'quiet', [(TP, """            threads_.emplace_back(
                CustomThread(
                    std::bind(&SlotThreadPool::thread_routine_, this)));
""", """            threads_.push_back(CustomThread(&SlotThreadPool::thread_routine_, this));
""")]),
 ('r enable early', ['T01'], 'quiet', [(TP, '    if (!enabled_.exchange(true))\n    {', '    const bool was = enabled_.exchange(true);\n    if (was)\n    {\n        return;\n    }\n    threads_.reserve(number_of_threads_);\n    {')]),
 ('r enable cas', ['T01'], 'quiet', [(TP, '    if (!enabled_.exchange(true))\n    {', '    bool expected = false;\n    if (enabled_.compare_exchange_strong(expected, true))\n    {')]),
 ('r join while', ['T01'], 'quiet', [(TP, """        task_queue_.disable();

        for (auto& thread : threads_)
        {
            thread.join();
        }

        threads_.clear();
""", """        task_queue_.disable();

        while (!threads_.empty())
        {
            threads_.back().join();
            threads_.pop_back();
        }
""")]),
 ('r joinable', ['T01'], 'quiet', [(TP, '            thread.join();\n', '            if (thread.joinable())\n            {\n                thread.join();\n            }\n')]),
 ('r dtor only disable', ['T01'], 'quiet', [(TP, '    // Disable queue in case it has not been stopped yet.\n    task_queue_.disable();\n\n    for (auto& thread : threads_)\n    {\n        thread.join();\n    }\n', '')]),
 ('r dtor only loop', ['T01'], 'quiet', [(TP, '    disable();\n    // Disable queue', '    // Disable queue')]),
 ('r id', ['T01'], 'quiet', [(TI, 'return unique_task_id_++;', 'return unique_task_id_.fetch_add(1);')]),
 ('r id pre', ['T01'], 'quiet', [(TI, 'return unique_task_id_++;', 'return ++unique_task_id_;')]),
]
