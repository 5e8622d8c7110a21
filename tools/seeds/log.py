C = 'cpp_utils/src/cpp/logging/BaseLogConsumer.cpp'
F = 'cpp_utils/src/cpp/logging/BaseLogConfiguration.cpp'
LC = 'cpp_utils/src/cpp/event/logging/LogConsumerConnection.cpp'
LE = 'cpp_utils/src/cpp/event/logging/LogEventHandler.cpp'
LS = 'cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp'
K = 'cpp_utils/src/cpp/testing/LogChecker.cpp'
ES = ['utils.cpp', 'exception/Exception.cpp', 'Formatter.cpp', 'math/math_extension.cpp']
LS_ = ES + ['logging/BaseLogConfiguration.cpp', 'logging/BaseLogConsumer.cpp']
HS = ES + ['event/logging/LogConsumerConnection.cpp', 'event/logging/LogEventHandler.cpp', 'event/logging/LogSevereEventHandler.cpp', 'memory/owner_ptr_stub.cpp']
HS = [x for x in HS if 'stub' not in x]
P1 = r"""
#include <cstdio>
#include <string>
#include <cpp_utils/logging/BaseLogConsumer.hpp>
#include <cpp_utils/logging/BaseLogConfiguration.hpp>
using namespace eprosima::utils;
static int bad = 0;
#define WANT(x) do { if (!(x)) { printf("line %d: %s\n", __LINE__, #x); bad = 1; } } while (0)
struct Consumer : public BaseLogConsumer
{
    using BaseLogConsumer::BaseLogConsumer;
    void Consume(const Log::Entry&) override {}
    bool accepts(Log::Kind k, const char* cat, const std::string& msg)
    {
        Log::Entry e; e.kind = k; e.context.category = cat; e.message = msg; e.context.filename = ""; e.context.function = ""; e.context.line = 0;
        return accept_entry_(e);
    }
};
"""
P2 = r"""
#include <cstdio>
#include <functional>
#include <string>
#include <vector>
#include <cpp_utils/Log.hpp>
#include <cpp_utils/event/LogEventHandler.hpp>
#include <cpp_utils/event/LogSevereEventHandler.hpp>
using namespace eprosima::utils;
static int bad = 0;
#define WANT(x) do { if (!(x)) { printf("line %d: %s\n", __LINE__, #x); bad = 1; } } while (0)
static void send(Log::Kind k, const std::string& msg)
{
    Log::Context c; c.category = "CAT"; c.filename = ""; c.function = ""; c.line = 0;
    Log::QueueLog(msg, c, k);
}
"""
S = [
 dict(id='g01-filter-kind', property='G01', srcs=LS_,
      needs='an entry less severe than the verbosity, with different filters configured for the two kinds',
      breaks='accept_entry_ uses the filter configured for the verbosity instead of that for the kind of the entry',
      edits=[(C, 'filter_[entry.kind].get_value()', 'filter_[verbosity_].get_value()')],
      cpp=P1 + r"""
int main()
{
    BaseLogConfiguration conf;
    conf.verbosity = Fuzzy<VerbosityKind>(VerbosityKind::Info, FuzzyLevelValues::fuzzy_level_set);
    conf.filter[VerbosityKind::Error].set_value("alpha");
    conf.filter[VerbosityKind::Warning].set_value("beta");
    conf.filter[VerbosityKind::Info].set_value("gamma");
    Consumer c(&conf);
    WANT(c.accepts(Log::Kind::Info, "gamma", "x"));
    WANT(c.accepts(Log::Kind::Error, "x", "say alpha"));
    WANT(!c.accepts(Log::Kind::Error, "x", "gamma"));
    WANT(c.accepts(Log::Kind::Warning, "beta", "x"));
    return bad;
}
"""),
 dict(id='g01-level-of-value', property='G01', srcs=LS_,
      needs='three calls: a filter set at a high level, one at a low level ignored for its kind, and then one at an intermediate level',
      breaks='set keeps the level of a filter that it replaces by another, so that a later one of a lower level replaces it',
      edits=[(F, '        filter[VerbosityKind::Warning] = log_filter.at(VerbosityKind::Warning);', '        filter[VerbosityKind::Warning].get_reference() = log_filter.at(VerbosityKind::Warning).get_value();')],
      cpp=P1 + r"""
static LogFilter all(const std::string& v, FuzzyLevelValues l)
{
    LogFilter f;
    for (auto k : {VerbosityKind::Error, VerbosityKind::Warning, VerbosityKind::Info}) f[k].set_value(v, l);
    return f;
}
int main()
{
    BaseLogConfiguration conf;
    conf.set(all("hard", FuzzyLevelValues::fuzzy_level_hard));
    conf.set(all("soft", FuzzyLevelValues::fuzzy_level_set));
    for (auto k : {VerbosityKind::Error, VerbosityKind::Warning, VerbosityKind::Info}) WANT(conf.filter[k].get_value() == "hard");
    return bad;
}
"""),
 dict(id='g02-static-consume', property='G02', srcs=HS, flags='-I"$R/src/cpp"',
      needs='a severe log handler and an entry below its threshold that the log still delivers (its verbosity is more detailed)',
      breaks='the function connected to the log consumes entries as a plain LogEventHandler, whatever the class of the handler',
      edits=[(LE, 'this->consume_(entry);', 'LogEventHandler::consume_(entry);')],
      cpp=P2 + r"""
int main()
{
    Log::SetVerbosity(Log::Kind::Info);
    int n = 0;
    {
        event::LogSevereEventHandler h([&n](Log::Entry) { n++; }, Log::Kind::Error);
        Log::SetVerbosity(Log::Kind::Info);
        send(Log::Kind::Info, "a");
        send(Log::Kind::Warning, "b");
        send(Log::Kind::Error, "c");
        WANT(h.event_count() == 1);
    }
    WANT(n == 1);
    return bad;
}
"""),
 dict(id='g02-recorded-late', property='G02', srcs=HS, flags='-I"$R/src/cpp"',
      needs='an entry logged by the callback of the handler itself',
      breaks='the event is raised while the entries recorded are locked, so that a callback that logs never ends',
      edits=[(LE, """        entries_consumed_.push_back(entry);
    }

    event_occurred_(entry);
""", """        entries_consumed_.push_back(entry);

        event_occurred_(entry);
    }
""")], to=20,
      cpp=P2 + r"""
#include <mutex>
struct H : public event::LogEventHandler
{
    using event::LogEventHandler::LogEventHandler;
    size_t entries()
    {
        std::lock_guard<SharedAtomicable<std::vector<utils::Log::Entry>>> lock(entries_consumed_);
        return entries_consumed_.size();
    }
};
int main()
{
    Log::SetVerbosity(Log::Kind::Info);
    H h;
    size_t seen = 0;
    h.set_callback([&](Log::Entry e) { if (e.message == "first") seen = h.entries(); });
    send(Log::Kind::Error, "first");
    WANT(seen == 1);
    return bad;
}
""".replace('utils::Log::Entry>>> lock', 'Log::Entry>>> lock')),
]
