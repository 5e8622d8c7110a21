// Translation unit that instantiates every template of the repository, so that their resolved bodies are
// part of the analysed program. It is parsed, never compiled to code or run.
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include <cpp_utils/utils.hpp>
#include <cpp_utils/collection/database/SafeDatabase.hpp>
#include <cpp_utils/enum/EnumBuilder.hpp>
#include <cpp_utils/event/EventHandler.hpp>
#include <cpp_utils/event/FileWatcherHandler.hpp>
#include <cpp_utils/event/LogEventHandler.hpp>
#include <cpp_utils/event/LogSevereEventHandler.hpp>
#include <cpp_utils/event/MultipleEventHandler.hpp>
#include <cpp_utils/event/PeriodicEventHandler.hpp>
#include <cpp_utils/event/SignalEventHandler.hpp>
#include <cpp_utils/event/SignalManager.hpp>
#include <cpp_utils/event/StdinEventHandler.hpp>
#include <cpp_utils/exception/ConfigurationException.hpp>
#include <cpp_utils/exception/DNSException.hpp>
#include <cpp_utils/exception/DisabledException.hpp>
#include <cpp_utils/exception/InconsistencyException.hpp>
#include <cpp_utils/exception/InitializationException.hpp>
#include <cpp_utils/exception/PreconditionNotMet.hpp>
#include <cpp_utils/exception/TimeoutException.hpp>
#include <cpp_utils/exception/UnsupportedException.hpp>
#include <cpp_utils/exception/ValueAccessException.hpp>
#include <cpp_utils/exception/ValueNotAllowedException.hpp>
#include <cpp_utils/macros/custom_enumeration.hpp>
#include <cpp_utils/macros/macros.hpp>
#include <cpp_utils/math/math_extension.hpp>
#include <cpp_utils/math/random/RandomManager.hpp>
#include <cpp_utils/math/random/TSafeRandomManager.hpp>
#include <cpp_utils/memory/Heritable.hpp>
#include <cpp_utils/memory/owner_ptr.hpp>
#include <cpp_utils/pool/UnboundedPool.hpp>
#include <cpp_utils/queue/DBQueue.hpp>
#include <cpp_utils/testing/LogChecker.hpp>
#include <cpp_utils/thread_pool/pool/SlotThreadPool.hpp>
#include <cpp_utils/time/PausableTimer.hpp>
#include <cpp_utils/time/Timer.hpp>
#include <cpp_utils/types/Atomicable.hpp>
#include <cpp_utils/types/Builder.hpp>
#include <cpp_utils/types/Fuzzy.hpp>
#include <cpp_utils/types/InitializableSingleton.hpp>
#include <cpp_utils/types/SafeInitializableSingleton.hpp>
#include <cpp_utils/types/Singleton.hpp>
#include <cpp_utils/types/Tree.hpp>
#include <cpp_utils/types/cast.hpp>
#include <cpp_utils/user_interface/CommandReader.hpp>
#include <cpp_utils/utils.hpp>
#include <cpp_utils/wait/BooleanWaitHandler.hpp>
#include <cpp_utils/wait/CounterWaitHandler.hpp>
#include <cpp_utils/wait/DBQueueWaitHandler.hpp>
#include <cpp_utils/wait/IntWaitHandler.hpp>

namespace vt {

// an element type the analysis knows nothing about
struct Elem
{
    Elem();
    Elem(int);
    Elem(const Elem&);
    Elem(Elem&&);
    Elem& operator =(const Elem&);
    Elem& operator =(Elem&&);
    ~Elem();
    bool operator ==(const Elem&) const;
    bool operator <(const Elem&) const;
    int v;
};
std::ostream& operator <<(std::ostream&, const Elem&);
struct Base
{
    virtual ~Base();
    bool operator ==(const Base&) const;
    bool operator <(const Base&) const;
};
std::ostream& operator <<(std::ostream&, const Base&);
struct Derived : Base
{
};
enum class Cmd { one, two };
std::ostream& operator <<(std::ostream&, const Cmd&);

} // namespace vt

namespace eprosima {
namespace utils {

ENUMERATION_BUILDER(VtEnum, first_value, second_value, third_value);
eProsima_ENUMERATION_BUILDER(VtEnumBuilder, vt::Cmd, {});

template class event::WaitHandler<vt::Elem>;
template class event::WaitHandler<int>;
template class event::WaitHandler<bool>;
template class event::WaitHandler<unsigned int>;
template class event::DBQueue<vt::Elem>;
template class event::ConsumerWaitHandler<vt::Elem>;
template class event::DBQueueWaitHandler<vt::Elem>;
template class event::EventHandler<vt::Elem>;
template class event::SignalEventHandler<event::Signal::sigint>;
template class event::SignalEventHandler<event::Signal::sigterm>;
template class event::SignalManager<event::Signal::sigint>;
template class event::SignalManager<event::Signal::sigterm>;
template class SafeDatabase<vt::Elem, vt::Elem>;
template class SafeDatabaseIterator<vt::Elem, vt::Elem>;
template class Fuzzy<vt::Elem>;
template class Fuzzy<int>;
template class Fuzzy<bool>;
template class OwnerPtr<vt::Elem>;
template class LesseePtr<vt::Elem>;
template class GuardedPtr<vt::Elem>;
template class Singleton<vt::Elem, 7>;
template class SafeInitializableSingleton<vt::Elem, 7>;
template class InitializableSingleton<vt::Elem, 7>;
template class UnboundedPool<vt::Elem>;
template class TreeNode<vt::Elem>;
template class CommandReader<vt::Cmd>;
template class Builder<std::string, vt::Cmd>;
template class EnumBuilder<vt::Cmd>;
template class Atomicable<vt::Elem, std::mutex>;
template class Heritable<vt::Base>;

namespace vt_use {

// a pool whose elements the analysis knows nothing about
struct Pool : UnboundedPool<vt::Elem>
{
    Pool(
            PoolConfiguration c)
        : UnboundedPool<vt::Elem>(c)
    {
        initialize_vector_();
    }

    vt::Elem* new_element_() override;
    void delete_element_(
            vt::Elem* e) override;
    void reset_element_(
            vt::Elem* e) override;
};

} // namespace vt_use

namespace vt_use {

// clients of the default arguments of Fuzzy
Fuzzy<int> fuzzy_make(
        const int& v)
{
    return Fuzzy<int>(v);
}

Fuzzy<int> fuzzy_make_move(
        int&& v)
{
    return Fuzzy<int>(std::move(v));
}

Fuzzy<int> fuzzy_default()
{
    return Fuzzy<int>();
}

void fuzzy_set_value(
        Fuzzy<int>& f,
        const int& v)
{
    f.set_value(v);
}

void fuzzy_set_level(
        Fuzzy<int>& f)
{
    f.set_level();
}

void use_all(
        vt::Elem& e,
        const vt::Elem& ce,
        vt::Base& b,
        Heritable<vt::Derived>& hd,
        std::ostream& os)
{
    // member templates and function templates
    SafeInitializableSingleton<vt::Elem, 7>::initialize(3);
    InitializableSingleton<vt::Elem, 7>::initialize(3);
    Heritable<vt::Base> h1(hd);
    Heritable<vt::Base> h2(std::move(hd));
    Heritable<vt::Base> h3(new vt::Derived());
    auto h4 = Heritable<vt::Derived>::make_heritable();
    h1.can_cast<vt::Derived>();
    h1.dyn_cast<vt::Derived>();
    os << h1;
    os << Fuzzy<vt::Elem>();
    can_cast<vt::Derived>(b);
    cast_to_void_ptr(&ce);
    generic_to_string(ce);
    copy_to_void_ptr(&ce);
    std::map<vt::Elem, vt::Elem> m;
    std::unordered_map<int, vt::Elem> um;
    get_keys(m);
    get_keys(um);
    std::vector<vt::Elem*> ve;
    std::set<vt::Elem*> se;
    container_to_stream<vt::Elem*, true>(os, ve);
    container_to_stream(os, se);
    std::set<std::shared_ptr<vt::Elem>> sp;
    set_of_ptr_contains(sp, std::make_shared<vt::Elem>());
    are_set_of_ptr_equal(sp, sp);
    element_to_stream<std::shared_ptr<vt::Elem>, true>(os, std::make_shared<vt::Elem>());
    std::set<std::shared_ptr<vt::Base>> sb = convert_set_to_shared<vt::Base, vt::Derived>(std::set<vt::Derived>());
    Builder<std::string, vt::Cmd> bu(std::map<std::string, vt::Cmd>{});
    Builder<std::string, vt::Cmd> bu2(std::map<vt::Cmd, std::set<std::string>>{});
    bu.refactor_values(std::map<vt::Cmd, std::set<std::string>>{});
    os << VtEnum::first_value;
    to_string(VtEnum::first_value);
    from_string_VtEnum("x");
    string_vector_VtEnum();
    Node<vt::Elem> n(1);
    OwnerPtr<vt::Elem> o1(new vt::Elem());
    OwnerPtr<vt::Elem> o2(std::move(o1));
    o1 = std::move(o2);
    GuardedPtr<vt::Elem> g1(o1.lease().lock());
    GuardedPtr<vt::Elem> g2(std::move(g1));
    g2 = std::move(g1);
    (void)(o1 == nullptr);
    (void)(nullptr == o1);
    (void)(g1 == nullptr);
    (void)(nullptr == g1);
    event::MultipleEventHandler meh;
    meh.register_event_handler<event::EventHandler<int>, int>(std::unique_ptr<event::EventHandler<int>>());
    Formatter f;
    f << 1 << "x";
    (void)e;
}

} // namespace vt_use
} // namespace utils
} // namespace eprosima
