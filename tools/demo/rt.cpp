// Run-time stand-in for Fast DDS's Log (synchronous delivery to the registered consumers).
#include <fastdds/dds/log/Log.hpp>
#include <vector>
#include <mutex>
namespace eprosima { namespace fastdds { namespace dds {
static std::vector<std::unique_ptr<LogConsumer>>& consumers() { static std::vector<std::unique_ptr<LogConsumer>> c; return c; }
static std::recursive_mutex& mtx() { static std::recursive_mutex m; return m; }
static Log::Kind& verb() { static Log::Kind k = Log::Error; return k; }
void Log::RegisterConsumer(std::unique_ptr<LogConsumer>&& c) { std::lock_guard<std::recursive_mutex> l(mtx()); consumers().push_back(std::move(c)); }
void Log::ClearConsumers() { std::lock_guard<std::recursive_mutex> l(mtx()); consumers().clear(); }
void Log::ReportFilenames(bool) {}
void Log::ReportFunctions(bool) {}
void Log::SetVerbosity(Log::Kind k) { verb() = k; }
Log::Kind Log::GetVerbosity() { return verb(); }
void Log::SetCategoryFilter(const std::regex&) {}
void Log::SetFilenameFilter(const std::regex&) {}
void Log::SetErrorStringFilter(const std::regex&) {}
void Log::Reset() {}
void Log::Flush() {}
void Log::KillThread() {}
void Log::QueueLog(const std::string& m, const Log::Context& c, Log::Kind k)
{
    std::lock_guard<std::recursive_mutex> l(mtx());
    if (k > verb()) return;
    Log::Entry e; e.message = m; e.context = c; e.kind = k;
    for (auto& x : consumers()) x->Consume(e);
}
void LogConsumer::print_timestamp(std::ostream&, const Log::Entry&, bool) const {}
void LogConsumer::print_header(std::ostream&, const Log::Entry&, bool) const {}
void LogConsumer::print_context(std::ostream&, const Log::Entry&, bool) const {}
void LogConsumer::print_message(std::ostream& s, const Log::Entry& e, bool) const { s << e.message; }
void LogConsumer::print_new_line(std::ostream& s, bool) const { s << std::endl; }
}}}
