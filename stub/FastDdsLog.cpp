// Implementation of the stand-in of the Fast DDS logging module.
#include <fastdds/dds/log/Log.hpp>
#include <atomic>
#include <deque>
namespace eprosima { namespace fastdds { namespace dds {
namespace {
struct Resources
{
    std::mutex m;                    // queue
    std::condition_variable cv, cv_done;
    std::deque<Log::Entry> queue;
    uint64_t queued = 0, consumed = 0;
    bool stop = false;
    std::unique_ptr<std::thread> th;
    std::mutex cfg;                  // consumers and filters: held while consuming, as Fast DDS does
    std::vector<std::unique_ptr<LogConsumer>> consumers;
    std::unique_ptr<std::regex> cat, file, err;
    std::atomic<int> verbosity{Log::Kind::Error};

    ~Resources()
    {
        kill();
    }

    void kill()
    {
        std::unique_ptr<std::thread> t;
        {
            std::lock_guard<std::mutex> l(m);
            stop = true;
            t = std::move(th);
            cv.notify_all();
            cv_done.notify_all();
        }
        if (t)
        {
            t->join();
        }
    }

    void run()
    {
        std::unique_lock<std::mutex> l(m);
        while (!stop)
        {
            if (queue.empty())
            {
                cv.wait(l);
                continue;
            }
            Log::Entry e = std::move(queue.front());
            queue.pop_front();
            l.unlock();
            {
                std::lock_guard<std::mutex> c(cfg);
                if (passes(e))
                {
                    for (auto& x : consumers)
                    {
                        x->Consume(e);
                    }
                }
            }
            l.lock();
            ++consumed;
            cv_done.notify_all();
        }
    }

    bool passes(const Log::Entry& e)
    {
        if (cat && !std::regex_search(e.context.category, *cat))
        {
            return false;
        }
        if (file && !std::regex_search(e.context.filename, *file))
        {
            return false;
        }
        if (err && !std::regex_search(e.message, *err))
        {
            return false;
        }
        return true;
    }
};
Resources& R()
{
    static Resources r;
    return r;
}
} // namespace

void Log::RegisterConsumer(std::unique_ptr<LogConsumer>&& consumer)
{
    std::lock_guard<std::mutex> l(R().cfg);
    R().consumers.emplace_back(std::move(consumer));
}
void Log::ClearConsumers()
{
    Flush();
    std::lock_guard<std::mutex> l(R().cfg);
    R().consumers.clear();
}
void Log::ReportFilenames(bool) {}
void Log::ReportFunctions(bool) {}
void Log::SetVerbosity(Log::Kind k)
{
    R().verbosity = k;
}
Log::Kind Log::GetVerbosity()
{
    return static_cast<Log::Kind>(R().verbosity.load());
}
void Log::SetCategoryFilter(const std::regex& r)
{
    std::lock_guard<std::mutex> l(R().cfg);
    R().cat.reset(new std::regex(r));
}
void Log::UnsetCategoryFilter()
{
    std::lock_guard<std::mutex> l(R().cfg);
    R().cat.reset();
}
void Log::SetFilenameFilter(const std::regex& r)
{
    std::lock_guard<std::mutex> l(R().cfg);
    R().file.reset(new std::regex(r));
}
void Log::SetErrorStringFilter(const std::regex& r)
{
    std::lock_guard<std::mutex> l(R().cfg);
    R().err.reset(new std::regex(r));
}
void Log::Reset()
{
    std::lock_guard<std::mutex> l(R().cfg);
    R().cat.reset();
    R().file.reset();
    R().err.reset();
    R().verbosity = Log::Kind::Error;
    R().consumers.clear();
}
void Log::KillThread()
{
    R().kill();
}
void Log::Flush()
{
    std::unique_lock<std::mutex> l(R().m);
    const uint64_t upto = R().queued;
    R().cv_done.wait(l, [&]{ return R().stop || R().consumed >= upto; });
}
void Log::QueueLog(const std::string& message, const Log::Context& c, Log::Kind k)
{
    std::lock_guard<std::mutex> l(R().m);
    if (!R().th)
    {
        R().stop = false;
        R().th.reset(new std::thread([]{ R().run(); }));
    }
    R().queue.push_back(Log::Entry{message, c, k, "2026-01-01 00:00:00.000"});
    ++R().queued;
    R().cv.notify_all();
}
void LogConsumer::print_timestamp(std::ostream& s, const Log::Entry& e, bool) const
{
    s << e.timestamp << " ";
}
void LogConsumer::print_header(std::ostream& s, const Log::Entry& e, bool) const
{
    static const char* const K[] = {"Error", "Warning", "Info"};
    s << "[" << (e.context.category ? e.context.category : "") << " " << K[e.kind] << "] ";
}
void LogConsumer::print_context(std::ostream& s, const Log::Entry& e, bool) const
{
    if (e.context.filename)
    {
        s << " (" << e.context.filename << ":" << e.context.line << ")";
    }
    if (e.context.function)
    {
        s << " -> Function " << e.context.function;
    }
}
void LogConsumer::print_message(std::ostream& s, const Log::Entry& e, bool) const
{
    s << e.message;
}
void LogConsumer::print_new_line(std::ostream& s, bool) const
{
    s << std::endl;
}
}}}
