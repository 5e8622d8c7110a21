FI = 'cpp_utils/include/cpp_utils/types/impl/Fuzzy.ipp'
TS = 'cpp_utils/src/cpp/math/random/TSafeRandomManager.cpp'
TC = 'cpp_utils/src/cpp/time/Timer.cpp'
PC = 'cpp_utils/src/cpp/time/PausableTimer.cpp'
PRE = r'''
#include <atomic>
#include <cstdio>
#include <cmath>
#include <string>
#include <thread>
#include <unistd.h>
'''
S = [
 dict(id='f01-levels-between', property='F01', srcs=[],
      edits=[(FI, 'return fuzzy_level_ >= FuzzyLevelValues::fuzzy_level_fuzzy;', 'return fuzzy_level_ > FuzzyLevelValues::fuzzy_level_default;')],
      needs='A level that is not one of the five named ones, between "default" and "fuzzy".',
      breaks='A value slightly more certain than the default counts as set.',
      cpp=PRE + r'''
#include <cpp_utils/types/Fuzzy.hpp>
using namespace eprosima::utils;
int main()
{
    Fuzzy<int> a(3, 10), b(4, 12);
    bool ok = !a.is_set() && a.is_valid() && a == b;
    Fuzzy<int> c(3, 20);
    ok = ok && c.is_set() && !(a == c);
    if (!ok) puts("wrong set");
    return ok ? 0 : 1;
}
'''),
 dict(id='f01-no-downgrade', property='F01', srcs=[],
      edits=[(FI, '    value_ = new_value;\n    fuzzy_level_ = level;', '    // A value already fixed must not be replaced by a less reliable one\n    if (fuzzy_level_ < FuzzyLevelValues::fuzzy_level_hard || level >= fuzzy_level_)\n    {\n        value_ = new_value;\n    }\n    fuzzy_level_ = level;')],
      needs='Setting a value with a lower level on a value of the hardest level.',
      breaks='The new value is lost: the old one stays, with the new level.',
      cpp=PRE + r'''
#include <cpp_utils/types/Fuzzy.hpp>
using namespace eprosima::utils;
int main()
{
    Fuzzy<int> a(3, FuzzyLevelValues::fuzzy_level_hard);
    a.set_value(7);
    bool ok = a.get_value() == 7 && a.get_level() == FuzzyLevelValues::fuzzy_level_set;
    if (!ok) puts("value lost");
    return ok ? 0 : 1;
}
'''),
 dict(id='r01-split-section', property='R01', srcs=['math/random/TSafeRandomManager.cpp'],
      edits=[(TS, '''    std::lock_guard<Atomicable<std::mt19937>> guard(seed_random_generator_);
    seed_random_generator_.seed(seed);
    return seed_random_generator_();''', '''    {
        std::lock_guard<Atomicable<std::mt19937>> guard(seed_random_generator_);
        seed_random_generator_.seed(seed);
    }
    std::lock_guard<Atomicable<std::mt19937>> guard(seed_random_generator_);
    return seed_random_generator_();''')],
      needs='Two threads asking for seeded numbers, one of them between the seeding and the draw of the other.',
      breaks='A seeded number depends on what other threads ask for.',
      cpp=PRE + r'''
#include <random>
#include <cpp_utils/math/random/TSafeRandomManager.hpp>
using namespace eprosima::utils;
int main()
{
    TSafeRandomManager m;
    std::atomic<bool> ok{true};
    std::thread t[8];
    for (int i = 0; i < 8; ++i)
        t[i] = std::thread([&, i] {
            auto first = std::mt19937(100 + i)();
            for (int n = 0; n < 100000 && ok; ++n)
                if ((unsigned)m.seeded_rand(100 + i) != (unsigned)first) ok = false;
        });
    for (auto& x : t) x.join();
    if (!ok) puts("seeded number depends on other threads");
    return ok ? 0 : 1;
}
'''),
 dict(id='r01-rand-shared', property='R01', srcs=['math/random/TSafeRandomManager.cpp'],
      edits=[(TS, 'return seeded_rand(seed);', '// No need of a second generator for this\n    std::lock_guard<Atomicable<std::mt19937>> guard(std_random_generator_);\n    std_random_generator_.seed(seed);\n    return std_random_generator_();')],
      needs='A sequence in progress when a seeded number is asked for through the generic form.',
      breaks='The seeded number restarts the reproducible sequence.',
      cpp=PRE + r'''
#include <cpp_utils/math/random/TSafeRandomManager.hpp>
using namespace eprosima::utils;
int main()
{
    TSafeRandomManager a(5), b(5);
    bool ok = true;
    for (int i = 0; i < 10; ++i)
    {
        if (a.sequence_rand() != b.sequence_rand()) ok = false;
        a.rand(77);
    }
    if (!ok) puts("sequence disturbed");
    return ok ? 0 : 1;
}
'''),
 dict(id='k01-double-pause', property='K01', srcs=['time/Timer.cpp', 'time/PausableTimer.cpp'],
      edits=[(PC, 'stored_time_elapsed_ += Timer::elapsed();', 'stored_time_elapsed_ += elapsed();')],
      needs='A timer paused for the second time (the first pause stores nothing wrong).',
      breaks='Time stored by earlier pauses is counted twice.',
      cpp=PRE + r'''
#include <cpp_utils/time/PausableTimer.hpp>
using namespace eprosima::utils;
int main()
{
    PausableTimer t(false);
    t.play(); usleep(300000); t.pause();
    t.play(); usleep(10000); t.pause();
    double e = t.elapsed();
    bool ok = e > 290 && e < 500;
    if (!ok) printf("elapsed %f\n", e);
    return ok ? 0 : 1;
}
'''),
 dict(id='k01-replay', property='K01', srcs=['time/Timer.cpp', 'time/PausableTimer.cpp'],
      edits=[(PC, '    if (!playing_)\n    {\n        reset_();\n        playing_ = true;\n    }', '    if (!playing_ || stored_time_elapsed_ > 0)\n    {\n        reset_();\n        playing_ = true;\n    }')],
      needs='play() on a timer that is already playing and has been paused before.',
      breaks='The time since it last started to play is lost.',
      cpp=PRE + r'''
#include <cpp_utils/time/PausableTimer.hpp>
using namespace eprosima::utils;
int main()
{
    PausableTimer t(false);
    t.play(); usleep(20000); t.pause();
    t.play(); usleep(300000); t.play();
    double e = t.elapsed();
    bool ok = e > 310 && e < 600;
    if (!ok) printf("elapsed %f\n", e);
    return ok ? 0 : 1;
}
'''),
]
