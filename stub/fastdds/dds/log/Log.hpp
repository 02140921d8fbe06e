// Stand-in for the Fast DDS logging module (not installed here): the same public interface and behaviour that
// dev-utils relies on (asynchronous logging thread, consumers owned by unique_ptr, verbosity, filters, Flush).
#pragma once
#include <condition_variable>
#include <cstdint>
#include <functional>
#include <memory>
#include <mutex>
#include <ostream>
#include <regex>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
namespace eprosima { namespace fastdds { namespace dds {

class LogConsumer;

class Log
{
public:
    enum Kind { Error, Warning, Info };
    struct Context
    {
        const char* filename;
        int line;
        const char* function;
        const char* category;
    };
    struct Entry
    {
        std::string message;
        Log::Context context;
        Log::Kind kind;
        std::string timestamp;
    };
    static void RegisterConsumer(std::unique_ptr<LogConsumer>&& consumer);
    static void ClearConsumers();
    static void ReportFilenames(bool);
    static void ReportFunctions(bool);
    static void SetVerbosity(Log::Kind);
    static Log::Kind GetVerbosity();
    static void SetCategoryFilter(const std::regex&);
    static void UnsetCategoryFilter();
    static void SetFilenameFilter(const std::regex&);
    static void SetErrorStringFilter(const std::regex&);
    static void Reset();
    static void KillThread();
    static void Flush();
    static void QueueLog(const std::string& message, const Log::Context&, Log::Kind);
};

class LogConsumer
{
public:
    virtual ~LogConsumer() = default;
    virtual void Consume(const Log::Entry&) = 0;
protected:
    void print_timestamp(std::ostream& stream, const Log::Entry&, bool color) const;
    void print_header(std::ostream& stream, const Log::Entry&, bool color) const;
    void print_context(std::ostream& stream, const Log::Entry&, bool color) const;
    void print_message(std::ostream& stream, const Log::Entry&, bool color) const;
    void print_new_line(std::ostream& stream, bool color) const;
};

}}}

#define VF_FASTDDS_LOG_(cat, msg, KIND)                                                                       \
    {                                                                                                         \
        using namespace eprosima::fastdds::dds;                                                               \
        if (eprosima::fastdds::dds::Log::GetVerbosity() >= eprosima::fastdds::dds::Log::Kind::KIND)           \
        {                                                                                                     \
            std::stringstream fastdds_log_ss_tmp__;                                                           \
            fastdds_log_ss_tmp__ << msg;                                                                      \
            eprosima::fastdds::dds::Log::QueueLog(fastdds_log_ss_tmp__.str(),                                 \
                    eprosima::fastdds::dds::Log::Context{__FILE__, __LINE__, __func__, #cat},                 \
                    eprosima::fastdds::dds::Log::Kind::KIND);                                                 \
        }                                                                                                     \
    }
#define EPROSIMA_LOG_ERROR(cat, msg) VF_FASTDDS_LOG_(cat, msg, Error)
#define EPROSIMA_LOG_WARNING(cat, msg) VF_FASTDDS_LOG_(cat, msg, Warning)
#define logError(cat, msg) VF_FASTDDS_LOG_(cat, msg, Error)
#define logWarning(cat, msg) VF_FASTDDS_LOG_(cat, msg, Warning)
#if !HAVE_LOG_NO_INFO && (defined(FASTDDS_ENFORCE_LOG_INFO) || \
    ((defined(__INTERNALDEBUG) || defined(_INTERNALDEBUG)) && (defined(_DEBUG) || defined(__DEBUG) || \
    !defined(NDEBUG))))
#define EPROSIMA_LOG_INFO(cat, msg) VF_FASTDDS_LOG_(cat, msg, Info)
#define logInfo(cat, msg) VF_FASTDDS_LOG_(cat, msg, Info)
#else
#define EPROSIMA_LOG_INFO(cat, msg)
#define logInfo(cat, msg)
#endif
