GP = 'cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp'
IP = 'cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp'
LP = 'cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp'
OP = 'cpp_utils/include/cpp_utils/memory/impl/OwnerPtr.ipp'
HE = 'cpp_utils/include/cpp_utils/memory/impl/Heritable.ipp'
SRC = ['exception/Exception.cpp', 'Formatter.cpp']
PRE = r'''
#include <atomic>
#include <chrono>
#include <cstdio>
#include <functional>
#include <memory>
#include <mutex>
#include <ostream>
#include <thread>
#include <unistd.h>
#include <cpp_utils/memory/owner_ptr.hpp>
using namespace eprosima::utils;
'''
S = [
 dict(id='m02-timeout', property='M02', srcs=SRC,
      edits=[(IP, '    shared_mutex_.lock();\n    if (reference_', '    // Do not block the owner for ever in case a guard is never released\n    bool locked = shared_mutex_.try_lock_for(std::chrono::seconds(2));\n    if (reference_'),
             (IP, '        reference_ = nullptr;\n    }\n    shared_mutex_.unlock();', '        reference_ = nullptr;\n    }\n    if (locked)\n    {\n        shared_mutex_.unlock();\n    }')],
      needs='A guard held for more than two seconds while the owner resets.',
      breaks='The data is destroyed while a guard is using it.',
      cpp=PRE + r'''
int main()
{
    std::atomic<bool> deleted{false};
    OwnerPtr<int> o(new int(3), [&](int* p) { deleted = true; delete p; });
    auto l = o.lease();
    std::thread t;
    bool ok = true;
    {
        auto g = l.lock();
        t = std::thread([&] { o.reset(); });
        for (int i = 0; i < 30; ++i) { usleep(100000); if (deleted) ok = false; }
    }
    t.join();
    if (!ok) puts("data destroyed under a guard");
    return ok && deleted ? 0 : 1;
}
'''),
 dict(id='m02-check-first', property='M02', srcs=SRC,
      edits=[(LP, '    auto guarded = lock();\n    if (!guarded)\n', '    if (!this->operator bool())\n'),
             (LP, '        return guarded;\n', '        return lock();\n')],
      needs='A reader that enters lock_with_exception while the owner is in the middle of destroying the data.',
      breaks='The presence of the data is checked before it is locked: the reader gets an empty guard instead of ValueAccessException.',
      cpp=PRE + r'''
int main()
{
    OwnerPtr<int> o(new int(3), [](int* p) { usleep(500000); delete p; });
    auto l = o.lease();
    std::atomic<int> res{0};
    std::thread t([&] { o.reset(); });
    usleep(150000);
    try { auto g = l.lock_with_exception(); res = g ? 1 : 2; }
    catch (const ValueAccessException&) { res = 3; }
    t.join();
    if (res != 3) printf("access given: %d\n", (int)res);
    return res == 3 ? 0 : 1;
}
'''),
 dict(id='m02-move-empty', property='M02', srcs=SRC,
      edits=[(OP, '    // In case this Ptr had data inside, it must be deleted\n    reset();\n\n    this->', '    // In case this Ptr is given new data, the data it had inside must be deleted\n    if (other)\n    {\n        reset();\n    }\n\n    this->')],
      needs='Move assignment from an owner without data while a lessee still refers to the data of the target.',
      breaks='The data outlives the assignment: the lessee still sees it as long as it exists.',
      cpp=PRE + r'''
int main()
{
    int deleted = 0;
    OwnerPtr<int> o(new int(3), [&](int* p) { ++deleted; delete p; });
    auto l = o.lease();
    OwnerPtr<int> e;
    o = std::move(e);
    bool ok = deleted == 1 && !l;
    if (!ok) printf("deleted %d, lessee %d\n", deleted, (int)(bool)l);
    return ok ? 0 : 1;
}
'''),
 dict(id='m01-move-shares', property='M01', srcs=SRC,
      edits=[('cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.hpp', '''            GuardedPtr&&) noexcept = default;
''', '''            GuardedPtr&& other) noexcept
        : data_reference_(other.data_reference_)
    {
    }
''')],
      needs='A guard moved explicitly (returned values are elided) while another thread holds, or later takes, the lock.',
      breaks='Both the moved-from and the moved-to guard unlock: one lock, two unlocks.',
      cpp='#include <shared_mutex>\n#include <cstdio>\nstatic int held = 0, low = 0;\n'
          '#include <pthread.h>\n#include <dlfcn.h>\nextern "C" int pthread_rwlock_unlock(pthread_rwlock_t* m) { static auto r = (int (*)(pthread_rwlock_t*))dlsym(RTLD_NEXT, "pthread_rwlock_unlock"); --held; if (held < low) low = held; return held < 0 ? 0 : r(m); }\n'
          'extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t* m) { static auto r = (int (*)(pthread_rwlock_t*))dlsym(RTLD_NEXT, "pthread_rwlock_rdlock"); ++held; return r(m); }\n'
          'extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t* m) { static auto r = (int (*)(pthread_rwlock_t*))dlsym(RTLD_NEXT, "pthread_rwlock_wrlock"); ++held; return r(m); }\n' + PRE + r'''
int main()
{
    OwnerPtr<int> o(new int(3));
    auto l = o.lease();
    { auto g = l.lock(); auto h = std::move(g); if (!h || held != 1) return 2; }
    if (held != 0) printf("locks held: %d, unlocked too often\n", held);
    return held == 0 && low == 0 ? 0 : 1;
}
''', libs='-ldl'),
 dict(id='m03-own-twice', property='M03', srcs=SRC, stub=True,
      edits=[(HE, '''        const Heritable<U>& other)
    : data_ptr_(std::static_pointer_cast<T>(other.data_ptr_))''', '''        const Heritable<U>& other)
    : data_ptr_(static_cast<T*>(other.data_ptr_.get()), [keep = std::weak_ptr<U>(other.data_ptr_)](T*)
            {
                // Owned by the original
            })''')],
      needs='A Heritable of the base class that outlives the Heritable of the derived class it was converted from.',
      breaks='The converted Heritable does not share the ownership: the object is destroyed while it still refers to it.',
      cpp=r'''
#include <cstdio>
#include <functional>
#include <memory>
#include <ostream>
#include <cpp_utils/memory/Heritable.hpp>
using namespace eprosima::utils;
static int alive = 0;
struct A { A() { ++alive; } virtual ~A() { --alive; } };
struct B : A { };
int main()
{
    Heritable<A>* a;
    {
        auto b = Heritable<B>::make_heritable();
        a = new Heritable<A>(b);
    }
    int n = alive;
    delete a;
    if (n != 1 || alive != 0) printf("alive while shared: %d, after: %d\n", n, alive);
    return n == 1 && alive == 0 ? 0 : 1;
}
'''),
 dict(id='m03-less-pointer', property='M03', srcs=SRC, stub=True,
      edits=[(HE, '''        const Heritable<T>& other) const noexcept
{
    return (*data_ptr_) < (*other);''', '''        const Heritable<T>& other) const noexcept
{
    // The same object is never lower than itself
    return data_ptr_ < other.data_ptr_ && !((*data_ptr_) == (*other));''')],
      needs='Two objects whose order by value differs from the order of their addresses.',
      breaks='Heritables are ordered by address.',
      cpp=r'''
#include <cstdio>
#include <functional>
#include <memory>
#include <ostream>
#include <cpp_utils/memory/Heritable.hpp>
using namespace eprosima::utils;
struct A { int v; A(int x) : v(x) { } virtual ~A() { } bool operator <(const A& o) const { return v < o.v; } bool operator ==(const A& o) const { return v == o.v; } };
int main()
{
    auto x = Heritable<A>::make_heritable(1), y = Heritable<A>::make_heritable(2), z = Heritable<A>::make_heritable(1);
    bool ok = x < y && !(y < x) && !(x < z) && !(z < x) && z < y && !(y < z);
    if (!ok) puts("wrong order");
    return ok ? 0 : 1;
}
'''),
]
