// Stand-in for the public interface of eProsima Fast DDS 3.x <fastdds/dds/log/Log.hpp>, which is not
// available offline. Declarations only: the code under analysis is parsed against it, never run.
#pragma once
#include <functional>
#include <iostream>
#include <memory>
#include <regex>
#include <sstream>
#include <string>

namespace eprosima {
namespace fastdds {
namespace dds {

class LogConsumer;

class Log
{
public:

    enum Kind
    {
        Error,
        Warning,
        Info,
    };

    static void RegisterConsumer(
            std::unique_ptr<LogConsumer>&&);
    static void ClearConsumers();
    static void ReportFilenames(
            bool);
    static void ReportFunctions(
            bool);
    static void SetVerbosity(
            Log::Kind);
    static Log::Kind GetVerbosity();
    static void SetCategoryFilter(
            const std::regex&);
    static void SetFilenameFilter(
            const std::regex&);
    static void SetErrorStringFilter(
            const std::regex&);
    static void Reset();
    static void Flush();
    static void KillThread();

    struct Context
    {
        const char* filename;
        int line;
        const char* function;
        const char* category;
    };

    struct Entry
    {
        std::string message;
        Log::Context context;
        Log::Kind kind;
        std::string timestamp;
    };

    static void QueueLog(
            const std::string& message,
            const Log::Context&,
            Log::Kind);
};

class LogConsumer
{
public:

    virtual ~LogConsumer() = default;
    virtual void Consume(
            const Log::Entry&) = 0;

protected:

    void print_timestamp(
            std::ostream& stream,
            const Log::Entry&,
            bool color) const;
    void print_header(
            std::ostream& stream,
            const Log::Entry&,
            bool color) const;
    void print_context(
            std::ostream& stream,
            const Log::Entry&,
            bool color) const;
    void print_message(
            std::ostream& stream,
            const Log::Entry&,
            bool color) const;
    void print_new_line(
            std::ostream& stream,
            bool color) const;
};

} // namespace dds
} // namespace fastdds
} // namespace eprosima

#define EPROSIMA_LOG_STUB_(cat, msg, kind)                                                             \
    {                                                                                                  \
        std::stringstream fastdds_log_ss_tmp__;                                                        \
        fastdds_log_ss_tmp__ << msg;                                                                   \
        eprosima::fastdds::dds::Log::QueueLog(fastdds_log_ss_tmp__.str(),                              \
                eprosima::fastdds::dds::Log::Context{__FILE__, __LINE__, __func__, #cat}, kind);       \
    }
#define EPROSIMA_LOG_ERROR(cat, msg) EPROSIMA_LOG_STUB_(cat, msg, eprosima::fastdds::dds::Log::Kind::Error)
#define EPROSIMA_LOG_WARNING(cat, msg) EPROSIMA_LOG_STUB_(cat, msg, eprosima::fastdds::dds::Log::Kind::Warning)
#define EPROSIMA_LOG_INFO(cat, msg) EPROSIMA_LOG_STUB_(cat, msg, eprosima::fastdds::dds::Log::Kind::Info)
#define logError(cat, msg) EPROSIMA_LOG_ERROR(cat, msg)
#define logWarning(cat, msg) EPROSIMA_LOG_WARNING(cat, msg)
#define logInfo(cat, msg) EPROSIMA_LOG_INFO(cat, msg)
