BI = 'cpp_utils/include/cpp_utils/types/impl/Builder.ipp'
SS = 'cpp_utils/include/cpp_utils/types/impl/SafeInitializableSingleton.ipp'
SN = 'cpp_utils/include/cpp_utils/types/impl/Singleton.ipp'
PRE = r'''
#include <atomic>
#include <cstdio>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
'''
S = [
 dict(id='b01-alias-cut', property='B01', srcs=['exception/Exception.cpp', 'Formatter.cpp'],
      edits=[(BI, '            result[k] = it.first;', '''            // The default value needs no association
            if (it.first == Value() && result.size() > 1)
            {
                continue;
            }
            result[k] = it.first;''')],
      needs='A map from values to names in which the default value is not the smallest one.',
      breaks='The names of that value are dropped.',
      cpp=PRE + r'''
#include <cpp_utils/types/Builder.hpp>
using namespace eprosima::utils;
int main()
{
    std::map<int, std::set<std::string>> m = {{-2, {"a", "b"}}, {-1, {"c"}}, {0, {"zero", "none"}}, {4, {"four"}}};
    Builder<std::string, int> b(m);
    for (auto& x : m)
        for (auto& n : x.second)
        {
            int v = 77;
            if (!b.find(n, v) || v != x.first) { printf("wrong %s\n", n.c_str()); return 1; }
        }
    return 0;
}
'''),
 dict(id='b01-refactor-partial', property='B01', srcs=['exception/Exception.cpp', 'Formatter.cpp'],
      edits=[(BI, '    values_ = indexed_map_from_values_to_keys_(values_to_keys);', """    auto fresh = indexed_map_from_values_to_keys_(values_to_keys);
    if (fresh.size() < values_to_keys.size())
    {
        // Some value has no key: keep the old keys
        fresh.insert(values_.begin(), values_.end());
    }
    values_.swap(fresh);""")],
      needs='Refactoring a builder with a map in which some value has no keys.',
      breaks='Keys of the old map are still found.',
      cpp=PRE + r'''
#include <cpp_utils/types/Builder.hpp>
using namespace eprosima::utils;
int main()
{
    Builder<std::string, int> b(std::map<std::string, int>{{"a", 1}, {"b", 2}});
    b.refactor_values(std::map<int, std::set<std::string>>{{5, {"b"}}, {6, {}}});
    int v = 77;
    bool ok = b.find("b", v) && v == 5 && !b.find("a", v) && v == 5;
    if (!ok) puts("wrong");
    return ok ? 0 : 1;
}
'''),
 dict(id='s01-late-lock', property='S01', srcs=[],
      edits=[(SS, '''    std::lock_guard<std::mutex> _(mtx_);

    if (the_ptr_ || !create)
    {
        return the_ptr_;
    }
    else
    {
        initialize_nts_();
        return the_ptr_;
    }''', '''    {
        std::lock_guard<std::mutex> _(mtx_);
        if (the_ptr_ || !create)
        {
            return the_ptr_;
        }
    }

    // Creating the object may be slow: do not block those who only look at it
    std::shared_ptr<T> fresh(new T());
    std::lock_guard<std::mutex> _(mtx_);
    the_ptr_ = fresh;
    return the_ptr_;''')],
      needs='A second thread asking for the instance while it is being created for the first.',
      breaks='Two instances are created and the second replaces the first.',
      cpp=PRE + r'''
#include <cpp_utils/types/SafeInitializableSingleton.hpp>
using namespace eprosima::utils;
static std::atomic<int> made(0);
struct Slow
{
    Slow() { made++; usleep(100000); }
};
int main()
{
    using S = SafeInitializableSingleton<Slow, 3>;
    Slow* a = nullptr; Slow* b = nullptr;
    std::thread x([&]{ a = S::get_instance(); }), y([&]{ b = S::get_instance(); });
    x.join(); y.join();
    bool ok = made == 1 && a == b;
    if (!ok) puts("two instances");
    return ok ? 0 : 1;
}
'''),
 dict(id='s01-reinitialize', property='S01', srcs=[],
      edits=[(SS, '    if (!the_ptr_)\n', '    if (!the_ptr_ || the_ptr_.use_count() == 1)\n')],
      needs='initialize() called again while nobody else holds the shared reference.',
      breaks='The instance is destroyed and replaced.',
      cpp=PRE + r'''
#include <cpp_utils/types/SafeInitializableSingleton.hpp>
using namespace eprosima::utils;
struct Val
{
    Val(int x = 0) : v(x) {}
    int v;
};
int main()
{
    using S = SafeInitializableSingleton<Val, 4>;
    bool ok = S::get_instance(false) == nullptr;
    ok = ok && S::initialize(4);
    ok = ok && !S::initialize(5);
    ok = ok && S::get_instance()->v == 4;
    if (!ok) puts("replaced");
    return ok ? 0 : 1;
}
'''),
]
