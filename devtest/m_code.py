R = 'cpp_utils/src/cpp/ReturnCode.cpp'
RH = 'cpp_utils/include/cpp_utils/ReturnCode.hpp'
W = 'cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp'
FW = 'cpp_utils/src/cpp/event/FileWatcherHandler.cpp'
PE = 'cpp_utils/src/cpp/event/PeriodicEventHandler.cpp'
UP = 'cpp_utils/include/cpp_utils/pool/impl/UnboundedPool.ipp'
UPH = 'cpp_utils/include/cpp_utils/pool/UnboundedPool.hpp'
ST = 'cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp'
LP = 'cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp'
SM = 'cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp'
EH = 'cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp'
CW = 'cpp_utils/include/cpp_utils/wait/impl/ConsumerWaitHandler.ipp'
UT = 'cpp_utils/src/cpp/utils.cpp'
C, V, X = ['C01'], ['V01'], ['X01']
M = [
 ('c timeout', C, 'caught', [(R, '        case fastdds::dds::RETCODE_TIMEOUT:\n', '')]),
 ('c nodata', C, 'caught', [(R, 'value_ = ReturnCode::RETCODE_NO_DATA;', 'value_ = ReturnCode::RETCODE_ERROR;')]),
 ('c fall', C, 'caught', [(R, 'value_ = ReturnCode::RETCODE_NOT_ENABLED;\n            break;', 'value_ = ReturnCode::RETCODE_NOT_ENABLED;')]),
 ('c ne', C, 'caught', [(R, '    return value_ != c.value_;', '    return value_ < c.value_;')]),
 ('c eq', C, 'caught', [(R, '    return value_ == c;', '    return value_ >= c;')]),
 ('c lt', C, 'caught', [(R, 'return (*this)() < other();', 'return (*this)() <= other();')]),
 ('c not', C, 'caught', [(R, 'return value_ != ReturnCode::RETCODE_OK;', 'return value_ == ReturnCode::RETCODE_ERROR;')]),
 ('c name', C, 'caught', [(R, '    {ReturnCode::RETCODE_NO_DATA, "NoData"},\n', '')]),
 ('c friend', C, 'caught', [(R, '    return rhs != lhs;', '    return rhs == lhs;')]),
 ('c val', C, 'caught', [(R, '    return value_;', '    return value_ & 3u;')]),
 ('c def', C, 'caught', [(RH, ': value_(RETCODE_OK)', ': value_(RETCODE_UNKNOWN)')]),
 ('r c init', C, 'quiet', [(R, '        const ReturnCode::ReturnCodeValue& value)\n{\n    value_ = value;\n}', '        const ReturnCode::ReturnCodeValue& value)\n    : value_(value)\n{\n}')]),
 ('r c ne', C, 'quiet', [(R, '    return value_ != c.value_;', '    return !(*this == c);')]),
 ('r c lt', C, 'quiet', [(R, 'return (*this)() < other();', 'return value_ < other.value_;')]),
 ('r c lt2', C, 'quiet', [(R, 'return (*this)() < other();', 'return !(other.value_ <= value_);')]),
 ('r c not', C, 'quiet', [(R, 'return value_ != ReturnCode::RETCODE_OK;', 'return !(*this == ReturnCode::RETCODE_OK);')]),
 ('r c not2', C, 'quiet', [(R, 'return value_ != ReturnCode::RETCODE_OK;', 'if (value_ == RETCODE_OK)\n    {\n        return false;\n    }\n    return true;')]),
 ('r c val', C, 'quiet', [(R, '    return value_;', '    return static_cast<std::uint32_t>(value_);')]),
 ('r c friend', C, 'quiet', [(R, '    return rhs != lhs;', '    return !(rhs == lhs);')]),
 ('r c switch', C, 'quiet', [(R, '        const fastdds::dds::ReturnCode_t& value)\n{\n    switch', '        const fastdds::dds::ReturnCode_t& value)\n    : value_(RETCODE_UNKNOWN)\n{\n    switch'), (R, '            value_ = ReturnCode::RETCODE_UNKNOWN;\n', '')]),
 ('r c if', C, 'quiet', [(R, '        const fastdds::dds::ReturnCode_t& value)\n{\n', '        const fastdds::dds::ReturnCode_t& value)\n{\n    if (value == fastdds::dds::RETCODE_OK)\n    {\n        value_ = RETCODE_OK;\n        return;\n    }\n')]),
 ('r c reorder', C, 'quiet', [(R, '    {ReturnCode::RETCODE_OK, "Ok"},\n    {ReturnCode::RETCODE_ERROR, "Error"},', '    {ReturnCode::RETCODE_ERROR, "Error"},\n    {ReturnCode::RETCODE_OK, "Ok"},')]),
 ('v tw', V, 'caught', [(W, '    , enabled_(enabled)\n    , threads_waiting_(0)\n{\n}\n\ntemplate <typename T>\nWaitHandler<T>::WaitHandler(\n        T', '    , enabled_(enabled)\n{\n}\n\ntemplate <typename T>\nWaitHandler<T>::WaitHandler(\n        T')]),
 ('v fw', V, 'caught', [(FW, '    , filewatcher_started_(false)\n', '')]),
 ('v pool', V, 'caught', [(UP, '    : reserved_(0)\n    , ', '    : ')]),
 ('v cond', V, 'caught', [(UP, '    : reserved_(0)\n    , ', '    : '), (UP, '        throw utils::InitializationException("Batch size must be at least 1.");\n    }', '        throw utils::InitializationException("Batch size must be at least 1.");\n    }\n    if (configuration.initial_size > 0)\n    {\n        reserved_ = 0;\n    }')]),
 ('r v body', V, 'quiet', [(UP, '    : reserved_(0)\n    , ', '    : '), (UP, '        throw utils::InitializationException("Batch size must be at least 1.");\n    }', '        throw utils::InitializationException("Batch size must be at least 1.");\n    }\n    reserved_ = 0;')]),
 ('r v body0', V, 'quiet', [(FW, '    , filewatcher_started_(false)\n{', '{\n    filewatcher_started_.store(false);')]),
 ('r v brace', V, 'quiet', [(FW, 'filewatcher_started_(false)', 'filewatcher_started_{false}')]),
 ('r v deleg', V, 'quiet', [(W, '    : value_()\n    , enabled_(enabled)\n    , threads_waiting_(0)\n{', '    : WaitHandler(T(), enabled)\n{')]),
 ('x slot', X, 'caught', [(ST, 'throw utils::ValueNotAllowedException(STR_ENTRY << "Slot " << task_id << " already', 'utils::ValueNotAllowedException(STR_ENTRY << "Slot " << task_id << " already')]),
 ('x period', X, 'caught', [(PE, 'throw utils::InitializationException', 'utils::InitializationException')]),
 ('x batch', X, 'caught', [(UP, 'throw utils::InitializationException', 'utils::InitializationException')]),
 ('x var', X, 'caught', [(UP, 'throw utils::InitializationException("Batch size must be at least 1.");', 'utils::InitializationException e("Batch size must be at least 1.");')]),
 ('x less', X, 'caught', [(LP, '        throw ValueAccessException(', '        (void) ValueAccessException(')]),
 ('x arg', X, 'caught', [(UT, 'throw std::invalid_argument("The number is too large', 'std::invalid_argument("The number is too large')]),
 ('r x var', X, 'quiet', [(UP, 'throw utils::InitializationException("Batch size must be at least 1.");', 'utils::InitializationException e("Batch size must be at least 1.");\n        throw e;')]),
 ('r x braces', X, 'quiet', [(PE, 'throw utils::InitializationException("Periodic Event Handler could no be created with period time 0")', 'throw utils::InitializationException{"Periodic Event Handler could no be created with period time 0"}')]),
]
CWH = 'cpp_utils/src/cpp/wait/CounterWaitHandler.cpp'
M += [
 ('x fw throw', X, 'caught', [(FW, '        utils::InitializationException(STR_ENTRY', '        throw utils::InitializationException(STR_ENTRY')]),
 ('x noexc', X, 'caught', [(CWH, '    // Mutex is taken, decrease value by 1 if condition was met\n', '    if (result == AwakeReason::timeout)\n    {\n        throw std::runtime_error("x");\n    }\n')]),
 ('r x noexc', X, 'quiet', [(CWH, '    // Mutex is taken, decrease value by 1 if condition was met\n', '    try\n    {\n        if (result == AwakeReason::timeout)\n        {\n            throw std::runtime_error("x");\n        }\n    }\n    catch (const std::exception&)\n    {\n    }\n')]),
]
