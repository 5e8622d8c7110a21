R = 'cpp_utils/src/cpp/ReturnCode.cpp'
FW = 'cpp_utils/src/cpp/event/FileWatcherHandler.cpp'
UP = 'cpp_utils/include/cpp_utils/pool/impl/UnboundedPool.ipp'
LP = 'cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp'
W = 'cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp'
BH = 'cpp_utils/src/cpp/wait/CounterWaitHandler.cpp'
BASE = ['utils.cpp', 'exception/Exception.cpp', 'Formatter.cpp', 'math/math_extension.cpp']
DIRTY = r"""
#include <cstdio>
#include <cstring>
#include <new>
// storage whose bytes are not zero: a member that no constructor sets is seen
template <typename T, typename ... A>
T* dirty(A&&... a)
{
    static unsigned char volatile* m = nullptr;
    m = (unsigned char volatile*)::operator new(sizeof(T));
    for (size_t i = 0; i < sizeof(T); ++i) m[i] = 0x5A;
    return new ((void*)m) T(static_cast<A&&>(a)...);
}
"""
PRE = r"""
#include <cstdio>
#include <sstream>
#include <cpp_utils/ReturnCode.hpp>
using namespace eprosima::utils;
typedef ReturnCode RC;
"""
S = [
 dict(id='c01-timeout-unknown', property='C01', srcs=['ReturnCode.cpp'],
      edits=[(R, '        case fastdds::dds::RETCODE_TIMEOUT:\n', '')],
      needs='The DDS code RETCODE_TIMEOUT converted.', breaks='A timeout of DDS becomes RETCODE_UNKNOWN instead of RETCODE_ERROR.',
      cpp=PRE + r"""
int main()
{
    for (eprosima::fastdds::dds::ReturnCode_t c : {1, 2, 3, 5, 7, 8, 9, 10, 12})
        if (RC(c) != RC::RETCODE_ERROR) { printf("%d\n", (int)c); return 1; }
    return 0;
}
"""),
 dict(id='c01-name-missing', property='C01', srcs=['ReturnCode.cpp'],
      edits=[(R, '    {ReturnCode::RETCODE_NOT_ENABLED, "NotEnabled"},\n', '    {ReturnCode::RETCODE_NOT_ENABLED, "NoData"},\n')],
      needs='RETCODE_NOT_ENABLED printed.', breaks='Two codes are printed with the same name.',
      cpp=PRE + r"""
int main()
{
    std::stringstream a, b;
    a << RC(RC::RETCODE_NOT_ENABLED); b << RC(RC::RETCODE_NO_DATA);
    return a.str() != b.str() ? 0 : 1;
}
"""),
 dict(id='c01-order', property='C01', srcs=['ReturnCode.cpp'],
      edits=[(R, 'return (*this)() < other();', 'return static_cast<std::int32_t>((*this)() & 3) < static_cast<std::int32_t>(other() & 3);')],
      needs='Codes from 4 on compared with smaller ones (for instance as keys of a map).', breaks='The order of the codes is not that of their values: two different codes are equivalent keys.',
      cpp=PRE + r"""
int main()
{
    for (int i = 0; i < 6; ++i)
        for (int j = 0; j < 6; ++j)
            if ((RC((RC::ReturnCodeValue)i) < RC((RC::ReturnCodeValue)j)) != (i < j)) { printf("%d %d\n", i, j); return 1; }
    return 0;
}
"""),
 dict(id='v01-reserved', property='V01', srcs=BASE,
      edits=[(UP, '    : reserved_(0)\n    , configuration_(configuration)', '    : configuration_(configuration)')],
      needs='A pool constructed where the memory is not zero.', breaks='The count of reserved elements starts with whatever the memory contained.',
      cpp=DIRTY + r"""
#include <deque>
#include <mutex>
#include <vector>
#include <memory>
#include <functional>
#include <sstream>
#include <iostream>
#define private public
#define protected public
#include <cpp_utils/types/Fuzzy.hpp>
#include <cpp_utils/pool/UnboundedPool.hpp>
using namespace eprosima::utils;
struct P : UnboundedPool<int>
{
    P(PoolConfiguration c) : UnboundedPool<int>(c) { first = reserved_; }
    int* new_element_() override { return new int(0); }
    unsigned int first;
};
int main()
{
    PoolConfiguration c;
    c.initial_size = 0; c.batch_size = 2;
    P* p = dirty<P>(c);
    printf("%u\n", p->first);
    return p->first == 0 ? 0 : 1;
}
"""),
 dict(id='v01-waiting', property='V01', srcs=BASE + ['time/time_utils.cpp'],
      edits=[(W, '    : value_(init_value)\n    , enabled_(enabled)\n    , threads_waiting_(0)\n', '    : value_(init_value)\n    , enabled_(enabled)\n')],
      needs='A wait handler constructed where the memory is not zero, and blocking_disable.', breaks='The number of waiting threads starts with whatever the memory contained: blocking_disable waits for ever.',
      cpp=DIRTY + r"""
#include <thread>
#include <chrono>
#include <unistd.h>
#include <cpp_utils/wait/WaitHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    auto* h = dirty<WaitHandler<int>>(0, true);
    std::thread([]{ std::this_thread::sleep_for(std::chrono::seconds(5)); _exit(1); }).detach();
    h->blocking_disable();
    _exit(0);
}
"""),
 dict(id='x01-not-thrown', property='X01', srcs=BASE,
      edits=[(LP, '        throw ValueAccessException(', '        ValueAccessException(')],
      needs='An owner that is gone.', breaks='The access to a value that no longer exists is not reported: a null guard is returned.',
      cpp=r"""
#include <atomic>
#include <functional>
#include <memory>
#include <mutex>
#include <ostream>
#include <cpp_utils/memory/owner_ptr.hpp>
#include <cpp_utils/exception/ValueAccessException.hpp>
using namespace eprosima::utils;
int main()
{
    LesseePtr<int> l;
    {
        OwnerPtr<int> o(new int(3));
        l = o.lease();
    }
    try { auto g = l.lock_with_exception(); }
    catch (const ValueAccessException&) { return 0; }
    return 1;
}
"""),
 dict(id='x01-noexcept-throw', property='X01', srcs=BASE + ['wait/CounterWaitHandler.cpp', 'time/time_utils.cpp'],
      edits=[(BH, '    // Mutex is taken, decrease value by 1 if condition was met\n', '    if (result == AwakeReason::timeout && timeout < 1)\n    {\n        throw InconsistencyException("Timeout without limit of time.");\n    }\n\n    // Mutex is taken, decrease value by 1 if condition was met\n'),
             (BH, '#include <cpp_utils/wait/CounterWaitHandler.hpp>', '#include <cpp_utils/exception/InconsistencyException.hpp>\n#include <cpp_utils/wait/CounterWaitHandler.hpp>')],
      needs='', breaks='', cpp='int main() { return 0; }'),
 dict(id='x01-filewatcher-throw', property='X01', srcs=BASE + ['event/FileWatcherHandler.cpp'], flags="-I\"$R/src/cpp\" -I\"$R/../thirdparty/filewatch\"",
      edits=[(FW, '        utils::InitializationException(STR_ENTRY <<\n                "Error creating file watcher: "', '        throw utils::InitializationException(STR_ENTRY <<\n                "Error creating file watcher: "')],
      needs='A file that cannot be watched.', breaks='The exception is thrown through callback_set_nts_, declared noexcept: the process is terminated.',
      cpp=r"""
#include <cstdio>
#include <sys/wait.h>
#include <unistd.h>
#include <cpp_utils/event/FileWatcherHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    pid_t p = fork();
    if (p == 0)
    {
        try { new FileWatcherHandler([](std::string) {}, "no-such-directory/file"); }
        catch (const std::exception& e) { puts(e.what()); }
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    return WIFEXITED(st) ? 0 : 1;
}
"""),
]
S = [s for s in S if s['needs']]
