R = 'cpp_utils/src/cpp/ReturnCode.cpp'
W = 'cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp'
UP = 'cpp_utils/include/cpp_utils/pool/impl/UnboundedPool.ipp'
DBG = '-D__INTERNALDEBUG=1 -DFASTDDS_ENFORCE_LOG_INFO=1 -D_DEBUG=1'
ES = ['utils.cpp', 'exception/Exception.cpp', 'Formatter.cpp', 'math/math_extension.cpp']
S = [
 dict(id='x02-assert-finds', property='X02', srcs=['ReturnCode.cpp'], flags='-DNDEBUG',
      edits=[(R, """    auto it = ReturnCode::to_string_conversion_.find(static_cast<ReturnCode::ReturnCodeValue>((code())));
    assert(it != ReturnCode::to_string_conversion_.end());""", """    auto it = ReturnCode::to_string_conversion_.cbegin();
    assert((it = ReturnCode::to_string_conversion_.find(static_cast<ReturnCode::ReturnCodeValue>((code())))) !=
            ReturnCode::to_string_conversion_.cend());""")],
      needs='A build without assertions (NDEBUG).', breaks='Every code is printed as the first one.',
      cpp=r"""
#include <cstdio>
#include <sstream>
#include <cpp_utils/ReturnCode.hpp>
using namespace eprosima::utils;
int main()
{
    std::stringstream a, b;
    a << ReturnCode(ReturnCode::RETCODE_OK); b << ReturnCode(ReturnCode::RETCODE_NO_DATA);
    printf("%s %s\n", a.str().c_str(), b.str().c_str());
    return a.str() != b.str() ? 0 : 1;
}
"""),
 dict(id='x02-log-resets', property='X02', srcs=['time/time_utils.cpp'] + ES, flags=DBG,
      edits=[(W, 'logDebug(UTILS_WAIT, "Disabling WaitHandler.");', 'logDebug(UTILS_WAIT, "Disabling WaitHandler with " << threads_waiting_.exchange(0) << " threads.");')],
      needs='A build with log entries, and a handler disabled while a thread waits.', breaks='The handler does not wait for its threads any more, and its count of threads wraps below zero.',
      cpp=r"""
#include <unistd.h>
#include <cstdio>
#include <functional>
#include <thread>
#include <cpp_utils/wait/WaitHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    eprosima::fastdds::dds::Log::SetVerbosity(eprosima::fastdds::dds::Log::Kind::Info);
    std::thread([] { sleep(10); fputs("blocked for ever\n", stderr); _exit(1); }).detach();
    auto* h = new WaitHandler<int>(0, true);
    std::thread t([&] { h->wait([](const int& v) { return v > 0; }); });
    usleep(200000);
    h->disable();
    t.join();
    delete h;
    puts("done"); fflush(stdout);
    _exit(0);
}
"""),
 dict(id='x02-log-counts', property='X02', srcs=ES, flags=DBG,
      edits=[(UP, """    reserved_ += new_values_count;
    logDebug(
        LIMITLESS_POOL,
        "Pool " << TYPE_NAME(T) << " [" << this << "] augmented in "
                << new_values_count << " to " << reserved_ << " elements.");""", """    reserved_ += new_values_count;
    logDebug(
        LIMITLESS_POOL,
        "Pool " << TYPE_NAME(T) << " [" << this << "] augmented in "
                << new_values_count << " to " << reserved_++ << " elements.");""")],
      needs='A build with log entries; one element more returned than loaned.', breaks='The pool accepts an element that was never loaned.',
      cpp=r"""
#include <cstdio>
#include <vector>
#include <cpp_utils/pool/UnboundedPool.hpp>
using namespace eprosima::utils;
struct Pool : public UnboundedPool<int>
{
    Pool() : UnboundedPool<int>(cfg()) { this->initialize_vector_(); }
    static PoolConfiguration cfg() { PoolConfiguration c; c.initial_size = 2; c.batch_size = 1; c.maximum_size = 0; return c; }
    int* new_element_() override { return new int(0); }
    void delete_element_(int* e) override { delete e; }
};
int main()
{
    eprosima::fastdds::dds::Log::SetVerbosity(eprosima::fastdds::dds::Log::Kind::Info);
    auto* p = new Pool();
    int x = 0;
    try { p->return_loan(&x); puts("accepted"); return 1; } catch (const std::exception& e) { puts(e.what()); return 0; }
}
"""),
]
