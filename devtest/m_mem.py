GP = 'cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp'
GH = 'cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.hpp'
IP = 'cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp'
LP = 'cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp'
OP = 'cpp_utils/include/cpp_utils/memory/impl/OwnerPtr.ipp'
HE = 'cpp_utils/include/cpp_utils/memory/impl/Heritable.ipp'
A = ['M01', 'M02', 'M03']
REL = '''    shared_mutex_.lock();
    if (reference_ != nullptr)
    {
        deleter_(reference_);
        reference_ = nullptr;
    }
    shared_mutex_.unlock();
'''
M = [
 ('r release with guard', A, 'quiet', [(IP, REL, '''    std::unique_lock<std::shared_timed_mutex> lock(shared_mutex_);
    if (reference_)
    {
        deleter_(reference_);
        reference_ = nullptr;
    }
''')]),
 ('r release detach then delete after unlock', A, 'quiet', [(IP, REL, '''    T* tmp = nullptr;
    {
        std::lock_guard<std::shared_timed_mutex> lock(shared_mutex_);
        std::swap(tmp, reference_);
    }
    if (tmp != nullptr)
    {
        deleter_(tmp);
    }
''')]),
 ('r release early return', A, 'quiet', [(IP, REL, '''    std::lock_guard<std::shared_timed_mutex> lock(shared_mutex_);
    if (reference_ == nullptr)
    {
        return;
    }
    T* to_delete = reference_;
    reference_ = nullptr;
    deleter_(to_delete);
''')]),
 ('r reset early return', A, 'quiet', [(OP, '''    if (this->operator bool())
    {
        // In case the data is valid, it releases reference and erase the shared ptr
        data_reference_->release_reference_();
        data_reference_.reset();
    }''', '''    if (!this->operator bool())
    {
        return;
    }
    auto data = std::move(data_reference_);
    data->release_reference_();''')]),
 ('r reset null check first', A, 'quiet', [(OP, '''    reset();

    if (nullptr == reference)
    {''', '''    reset();

    if (!reference)
    {'''), (OP, 'data_reference_.reset(new InternalPtrData<T>(reference, deleter));', 'data_reference_ = std::shared_ptr<InternalPtrData<T>>(new InternalPtrData<T>(reference, deleter));')]),
 ('r move assign swap', A, 'quiet', [(OP, '    this->data_reference_ = std::move(other.data_reference_);\n', '    std::swap(this->data_reference_, other.data_reference_);\n')]),
 ('r move assign self check', A, 'quiet', [(OP, '    reset();\n\n    this->data_reference_ = std::move(other.data_reference_);\n', '    if (&other != this)\n    {\n        reset();\n        data_reference_ = std::move(other.data_reference_);\n    }\n')]),
 ('r lock ternary', A, 'quiet', [(LP, '''    auto guarded = lock();
    if (!guarded)
    {
        // Internal mutex of guarded ptr would be released when guarded
        // object exits scope (after throw).
        throw ValueAccessException(
                  "Trying to access a data not available anymore.");
    }
    else
    {
        return guarded;
    }''', '''    GuardedPtr<T> guarded = lock();
    if (guarded)
    {
        return guarded;
    }
    throw ValueAccessException(
              "Trying to access a data not available anymore.");''')]),
 ('r access through named guard', A, 'quiet', [(LP, 'return this->lock_with_exception().operator ->();', 'auto g = lock_with_exception();\n    return g.get();')]),
 ('r presence get', A, 'quiet', [(OP, '''        data_reference_ &&
        data_reference_->operator bool();''', '''        data_reference_ != nullptr &&
        data_reference_->get() != nullptr;''')]),
 ('r heritable copy body', A, 'quiet', [(HE, '''        const Heritable<T>& other)
    : data_ptr_(other.data_ptr_)
{''', '''        const Heritable<T>& other)
{
    data_ptr_ = other.data_ptr_;''')]),
 ('r heritable compare get', A, 'quiet', [(HE, 'return (*data_ptr_) < (*other);', 'return *data_ptr_.get() < other.get_reference();')]),
 ('r heritable can_cast ptr', A, 'quiet', [(HE, '''    try
    {
        dyn_cast<U>();
        return true;
    }
    catch (const std::bad_cast& /* e */)
    {
        return false;
    }''', '''    return dynamic_cast<U*>(data_ptr_.get()) != nullptr;''')]),
 ('r implicit conversion of shared ptr', A, 'quiet', [(HE, 'data_ptr_(std::static_pointer_cast<T>(std::move(other.data_ptr_)))', 'data_ptr_(std::move(other.data_ptr_))')]),
 ('w guard dtor no unlock when gone', ['M01'], 'caught', [(GP, '''    // Avoid unlocking when no data is stored (only when created from a null)
    if (data_reference_)''', '''    // Avoid unlocking when no data is stored
    if (data_reference_ && data_reference_->operator bool())''')]),
 ('w lock none when gone', ['M01'], 'caught', [(LP, '    if (data_reference_)\n    {\n        // Lock mutex', '    if (this->operator bool())\n    {\n        // Lock mutex')]),
 ('w refused keeps lock', ['M01'], 'caught', [(LP, '    auto guarded = lock();\n', '    if (data_reference_) { data_reference_->lock_shared(); if (!*data_reference_) { throw ValueAccessException("x"); } data_reference_->unlock_shared(); }\n    auto guarded = lock();\n')]),
 ('w exclusive', ['M01'], 'caught', [(IP, '    shared_mutex_.lock_shared();', '    shared_mutex_.lock();')]),
 ('w delete outside', ['M02'], 'caught', [(IP, REL, '''    T* tmp = reference_;
    if (tmp != nullptr)
    {
        deleter_(tmp);
    }
    shared_mutex_.lock();
    reference_ = nullptr;
    shared_mutex_.unlock();
''')]),
 ('w delete under shared', ['M02'], 'caught', [(IP, '    shared_mutex_.lock();\n', '    shared_mutex_.lock_shared();\n'), (IP, '    shared_mutex_.unlock();\n}\n\n} /*', '    shared_mutex_.unlock_shared();\n}\n\n} /*')]),
 ('w not nulled', ['M02'], 'caught', [(IP, '        deleter_(reference_);\n        reference_ = nullptr;', '        deleter_(reference_);')]),
 ('w check then lock', ['M02'], 'caught', [(IP, REL, '''    if (reference_ != nullptr)
    {
        T* r = reference_;
        shared_mutex_.lock();
        deleter_(r);
        reference_ = nullptr;
        shared_mutex_.unlock();
    }
''')]),
 ('w reset drops only', ['M02'], 'caught', [(OP, '        data_reference_->release_reference_();\n', '')]),
 ('w default deleter used', ['M02'], 'caught', [(OP, 'new InternalPtrData<T>(reference, deleter)', 'new InternalPtrData<T>(reference, DEFAULT_DELETER_)')]),
 ('w owner dtor no reset', ['M02'], 'caught', [(OP, 'OwnerPtr<T>::~OwnerPtr()\n{\n    reset();', 'OwnerPtr<T>::~OwnerPtr()\n{')]),
 ('w reset keeps old', ['M02'], 'caught', [(OP, '        std::function<void(T*)> deleter /* = default_deleter() */)\n{\n    reset();\n', '        std::function<void(T*)> deleter /* = default_deleter() */)\n{\n')]),
 ('w move copy', ['M02'], 'caught', [(OP, 'this->data_reference_ = std::move(other.data_reference_);', 'this->data_reference_ = other.data_reference_;')]),
 ('w bool any', ['M02'], 'caught', [(LP, 'return data_reference_ && data_reference_->operator bool();', 'return data_reference_ != nullptr;')]),
 ('w exception type', ['M02'], 'caught', [(LP, 'throw ValueAccessException(', 'throw std::runtime_error(')]),
 ('w heritable cmp ptr', ['M03'], 'caught', [(HE, 'return (*data_ptr_) == (*other);', 'return data_ptr_ == other.data_ptr_;')]),
 ('w heritable swapped', ['M03'], 'caught', [(HE, 'return (*data_ptr_) < other;', 'return other < (*data_ptr_);')]),
 ('w static cast', ['M03'], 'caught', [(HE, 'U& c = dynamic_cast<U&>(*data_ptr_.get());', 'U& c = static_cast<U&>(*data_ptr_.get());')]),
 ('w copy makes new', ['M03'], 'caught', [(HE, '    : data_ptr_(other.data_ptr_)\n', '    : data_ptr_(other.data_ptr_.get())\n')]),
 ('w assign nothing', ['M03'], 'caught', [(HE, '    data_ptr_ = other.data_ptr_;\n    return *this;', '    if (!data_ptr_)\n    {\n        data_ptr_ = other.data_ptr_;\n    }\n    return *this;')]),
]
