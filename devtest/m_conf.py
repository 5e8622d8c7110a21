W = 'cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp'
DW = 'cpp_utils/include/cpp_utils/wait/impl/DBQueueWaitHandler.ipp'
SM = 'cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp'
ST = 'cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp'
MX = 'cpp_utils/src/cpp/math/math_extension.cpp'
UP = 'cpp_utils/include/cpp_utils/pool/impl/UnboundedPool.ipp'
R = 'cpp_utils/src/cpp/ReturnCode.cpp'
X = ['X02']
M = [
 ('count', X, 'caught', [(UP, 'logDebug(LIMITLESS_POOL, "Loaning element from Pool [" << this << "].");', 'logDebug(LIMITLESS_POOL, "Loaning element " << ++reserved_ << " from Pool [" << this << "].");')]),
 ('assign', X, 'caught', [(W, 'logDebug(UTILS_WAIT, "Enabling WaitHandler.");', 'logDebug(UTILS_WAIT, "Enabling WaitHandler " << (threads_waiting_ = 0));')]),
 ('store', X, 'caught', [(W, 'logDebug(UTILS_WAIT, "Enabling WaitHandler.");', 'logDebug(UTILS_WAIT, "Enabling WaitHandler " << enabled_.exchange(true));')]),
 ('assert moves', X, 'caught', [(R, '    auto it = ReturnCode::to_string_conversion_.find(static_cast<ReturnCode::ReturnCodeValue>((code())));\n    assert(it != ReturnCode::to_string_conversion_.end());', '    auto it = ReturnCode::to_string_conversion_.begin();\n    assert((it = ReturnCode::to_string_conversion_.find(static_cast<ReturnCode::ReturnCodeValue>((code())))) != ReturnCode::to_string_conversion_.end());')]),
 ('pop', X, 'caught', [(DW, 'logDebug(UTILS_WAIT_DBQUEUE, "Swapping DBQueue to get element.");', 'logDebug(UTILS_WAIT_DBQUEUE, "Swapping DBQueue to get element after " << (queue_.clear(), 0));')]),
 ('index', X, 'caught', [(SM, 'logInfo(UTILS_SIGNALHANDLER,\n            "Received', 'logDebug(UTILS_SIGNALHANDLER, "cb" << (bool)active_callbacks_[0]);\n    logInfo(UTILS_SIGNALHANDLER,\n            "Received')]),
 ('id', X, 'caught', [(SM, '    logDebug(UTILS_SIGNALMANAGER,\n            "Add', '    logDebug(UTILS_SIGNALMANAGER, "next " << new_unique_id_());\n    logDebug(UTILS_SIGNALMANAGER,\n            "Add')]),
 ('throw', X, 'caught', [(MX, '    assert(divisor != 0);', '#ifndef NDEBUG\n    if (divisor == 0)\n    {\n        throw 1;\n    }\n#endif')]),
 ('return', X, 'caught', [(MX, '    assert(divisor != 0);', '#ifndef NDEBUG\n    if (divisor == 0)\n    {\n        return 0;\n    }\n#endif')]),
 ('release only', X, 'caught', [(W, '        enabled_.store(true);', '#ifdef NDEBUG\n        enabled_.store(true);\n#else\n            enabled_ = true;\n            threads_waiting_ = 0;\n#endif')]),
 ('dec assert', X, 'caught', [(W, '#pragma once\n', '#pragma once\n#include <cassert>\n'), (W, '    threads_waiting_--;\n', '    assert(threads_waiting_-- > 0);\n')]),
 ('lambda', X, 'caught', [(ST, '            logDebug(UTILS_THREAD_POOL, "Thread: " << std::this_thread::get_id() << " free, getting new callback.");', '            logDebug(UTILS_THREAD_POOL, "left " << [&]{ task_queue_.enable(); return 1; }());')]),
 ('emit', X, 'caught', [(ST, '            logDebug(UTILS_THREAD_POOL, "Thread: " << std::this_thread::get_id() << " free, getting new callback.");', '            logDebug(UTILS_THREAD_POOL, "next " << task_queue_.consume());')]),
 ('r read', X, 'quiet', [(W, 'logDebug(UTILS_WAIT, "Enabling WaitHandler.");', 'logDebug(UTILS_WAIT, "Enabling WaitHandler " << threads_waiting_.load() << " " << threads_waiting_ << enabled());')]),
 ('r const call', X, 'quiet', [(DW, 'logDebug(UTILS_WAIT_DBQUEUE, "Swapping DBQueue to get element.");', 'logDebug(UTILS_WAIT_DBQUEUE, "Swapping DBQueue of " << queue_.size() << " to get element.");')]),
 ('r assert', X, 'quiet', [(UP, '#include <cpp_utils/Log.hpp>\n', '#include <cassert>\n#include <cpp_utils/Log.hpp>\n'), (UP, '    element = elements_.back();', '    assert(!elements_.empty() && elements_.back() != nullptr);\n    element = elements_.back();')]),
 ('r info', X, 'quiet', [(W, 'logDebug(UTILS_WAIT, "Enabling WaitHandler.");', 'logInfo(UTILS_WAIT, "Enabling WaitHandler.");')]),
 ('r no log', X, 'quiet', [(W, '        logDebug(UTILS_WAIT, "Enabling WaitHandler.");\n', '')]),
 ('r local', X, 'quiet', [(DW, 'logDebug(UTILS_WAIT_DBQUEUE, "Swapping DBQueue to get element.");', '#ifndef NDEBUG\n        {\n            size_t n = 0;\n            n += queue_.size();\n            ++n;\n            std::string t("x");\n            t += "y";\n            logDebug(UTILS_WAIT_DBQUEUE, "Swapping DBQueue of " << n << t);\n        }\n#endif')]),
 ('r join', X, 'quiet', [(ST, '            logDebug(UTILS_THREAD_POOL, "Thread: " << std::this_thread::get_id() << " free, getting new callback.");', '            logDebug(UTILS_THREAD_POOL, "Thread: " << std::to_string(number_of_threads_) << std::string("a") + "b" << threads_.size() << " of " << (enabled_ ? 1 : 0));')]),
 ('info', X, 'caught', [(SM, 'logInfo(UTILS_SIGNALHANDLER,\n            "Received signal " << SigVal << ".");', 'logInfo(UTILS_SIGNALHANDLER,\n            "Received signal " << SigVal << " " << --signals_received_);')]),
 ('r info2', X, 'quiet', [(SM, 'logInfo(UTILS_SIGNALHANDLER,\n            "Received signal " << SigVal << ".");', 'logInfo(UTILS_SIGNALHANDLER,\n            "Received signal " << SigVal << " " << signals_received_ << active_callbacks_.size());')]),
]
