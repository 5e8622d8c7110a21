DB = 'cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp'
PRE = r'''
#include <utility>
#include <atomic>
#include <cstdio>
#include <map>
#include <string>
#include <thread>
#include <unistd.h>
#include <cpp_utils/collection/database/SafeDatabase.hpp>
using namespace eprosima::utils;
// comparing the keys of a slow thread takes a while
static thread_local bool slow = false;
struct K
{
    K(int x = 0) : v(x) {}
    int v;
    bool operator <(const K& o) const
    {
        if (slow)
            usleep(50000);
        return v < o.v;
    }
};
'''
PO = 'cpp_utils/include/cpp_utils/pool/impl/UnboundedPool.ipp'
PS = ['exception/Exception.cpp', 'Formatter.cpp']
PPRE = r'''
#include <cstdio>
#include <stdexcept>
#include <unistd.h>
#include <cpp_utils/pool/UnboundedPool.hpp>
using namespace eprosima::utils;
static PoolConfiguration cfg(unsigned int i, unsigned int b)
{
    PoolConfiguration c;
    c.initial_size = i;
    c.batch_size = b;
    return c;
}
struct P : UnboundedPool<int>
{
    P(PoolConfiguration c) : UnboundedPool<int>(c) { initialize_vector_(); }
    int* new_element_() override { return new int(0); }
    void reset_element_(int*) override { if (fail) throw std::runtime_error("x"); ++resets; }
    void delete_element_(int* e) override { delete e; }
    bool fail = false;
    int resets = 0;
};
'''
S = [
 dict(id='d01-split-upsert', property='D01', srcs=[],
      edits=[(DB, '''    std::unique_lock<std::shared_timed_mutex> _(mutex_);

    auto it = internal_db_.find(key);
    if (it == internal_db_.end())
    {
        // Add new value
        internal_db_.insert(std::move(std::pair<Key, Value>(std::move(key), std::move(value))));
        return true;
    }
    else
    {
        // Modify already existent value
        it->second = std::move(value);
        return false;
    }''', '''    if (is(key))
    {
        // Modify already existent value
        modify(key, std::move(value));
        return false;
    }

    // Add new value
    return add(std::move(key), std::move(value));''')],
      needs='Two threads calling add_or_modify with the same absent key at the same time.',
      breaks='The second value is lost although the call says that it has replaced the first.',
      cpp=PRE + r'''
int main()
{
    SafeDatabase<K, int> db;
    db.add(K(1), 0);
    bool r[2];
    std::thread a([&]{ slow = true; r[0] = db.add_or_modify(K(5), 10); });
    std::thread b([&]{ slow = true; r[1] = db.add_or_modify(K(5), 11); });
    a.join(); b.join();
    int v = db.at(K(5));
    bool ok = r[0] != r[1] && v == (r[0] ? 11 : 10);
    if (!ok) printf("%d %d %d\n", r[0], r[1], v);
    return ok ? 0 : 1;
}
'''),
 dict(id='d01-insert-first', property='D01', srcs=[],
      edits=[(DB, '''    auto it = internal_db_.find(key);
    if (it == internal_db_.end())
    {
        // Add new value
        internal_db_.insert(std::move(std::pair<Key, Value>(std::move(key), std::move(value))));
        return true;
    }
    else
    {
        // Modify already existent value
        it->second = std::move(value);
        return false;
    }''', '''    auto res = internal_db_.insert(std::pair<Key, Value>(std::move(key), std::move(value)));
    if (!res.second)
    {
        // Modify already existent value
        res.first->second = std::move(value);
    }
    return res.second;''')],
      needs='add_or_modify of a present key, with values whose move leaves them empty.',
      breaks='The value has already been moved away: an empty one is stored.',
      cpp=PRE + r'''
int main()
{
    SafeDatabase<int, std::string> db;
    const std::string longer("a value long enough to be on the heap");
    db.add(1, std::string("one"));
    bool ok = !db.add_or_modify(1, longer) && db.at(1) == longer;
    if (!ok) puts("value lost");
    return ok ? 0 : 1;
}
'''),
 dict(id='d01-erase-upgrade', property='D01', srcs=[],
      edits=[(DB, '''    std::unique_lock<std::shared_timed_mutex> _(mutex_);

    return internal_db_.erase(key) != 0;''', '''    {
        // Do not stop the readers when there is nothing to erase
        std::shared_lock<std::shared_timed_mutex> _(mutex_);
        if (internal_db_.find(key) == internal_db_.end())
        {
            return false;
        }
    }

    std::unique_lock<std::shared_timed_mutex> _(mutex_);
    internal_db_.erase(key);
    return true;''')],
      needs='Two threads erasing the same key at the same time.',
      breaks='Both are told that they have erased it.',
      cpp=PRE + r'''
int main()
{
    SafeDatabase<K, int> db;
    db.add(K(1), 0);
    db.add(K(5), 0);
    bool r[2];
    std::thread a([&]{ slow = true; r[0] = db.erase(K(5)); });
    std::thread b([&]{ slow = true; r[1] = db.erase(K(5)); });
    a.join(); b.join();
    bool ok = r[0] != r[1] && db.size() == 1;
    if (!ok) puts("erased twice");
    return ok ? 0 : 1;
}
'''),

 dict(id='q01-reset-late', property='Q01', srcs=PS,
      edits=[(PO, """    this->reset_element_(element);
    elements_.push_back(element);
""", """    elements_.push_back(element);
    this->reset_element_(element);
""")],
      needs='An element whose reset throws, returned to the pool by a borrower that then tries again.',
      breaks='The element is free although its return failed: after the second try it is there twice and two borrowers get it.',
      cpp=PPRE + r"""
int main()
{
    P p(cfg(3, 2));
    int* a; int* b; int* c;
    p.loan(a); p.loan(b);
    p.fail = true;
    try { p.return_loan(a); } catch (const std::runtime_error&) {}
    p.fail = false;
    p.return_loan(a);
    p.loan(a);
    p.loan(c);
    bool ok = a != c && a != b && b != c;
    if (!ok) printf("%p %p %p\n", (void*)a, (void*)b, (void*)c);
    fflush(stdout);
    _exit(ok ? 0 : 1);
}
"""),
 dict(id='q01-batch-cap', property='Q01', srcs=PS,
      edits=[(PO, "for (unsigned int i = 0; i < new_values_count; ++i)", "for (unsigned int i = 0; i < new_values_count && elements_.size() < 4096; ++i)")],
      needs='A pool configured with more than 4096 elements in one go, and one return too many.',
      breaks='Fewer elements are created than counted, so that a return too many is not refused and an element is free twice.',
      cpp=PPRE + r"""
int main()
{
    P p(cfg(5000, 2));
    int* a;
    p.loan(a);
    p.return_loan(a);
    bool refused = false;
    try { p.return_loan(a); } catch (const InconsistencyException&) { refused = true; }
    if (!refused) printf("not refused\n");
    fflush(stdout);
    _exit(refused ? 0 : 1);
}
"""),
 dict(id='q01-clean-once', property='Q01', srcs=PS,
      edits=[(PO, """    this->reset_element_(element);
    elements_.push_back(element);
""", """    // The element may have been returned right after being loaned
    if (elements_.empty() || elements_.back() != element)
    {
        this->reset_element_(element);
        elements_.push_back(element);
    }
""")],
      needs='The same element returned twice in a row while others are still loaned.',
      breaks='The second return is silently dropped although the pool says it has taken it: the count of loaned elements stays wrong.',
      cpp=PPRE + r"""
int main()
{
    P p(cfg(2, 2));
    int* a; int* b;
    p.loan(a); p.loan(b);
    p.return_loan(a);
    int before = p.resets;
    bool r = p.return_loan(a);
    bool ok = !r || p.resets == before + 1;
    if (!ok) printf("dropped\n");
    fflush(stdout);
    _exit(ok ? 0 : 1);
}
"""),
]
