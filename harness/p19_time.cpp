// P19: time_utils against a calendar of its own, in several time zones, and from several threads at once.
#include <vf.hpp>
#include <locales.hpp>
#include <csignal>
#include <ctime>
#include <pthread.h>
#include <cpp_utils/exception/Exception.hpp>
#include <cpp_utils/time/time_utils.hpp>

using namespace eprosima::utils;
using I = int64_t;

// ---- calendar
I days(I y, int m, int d)
{
    y -= m <= 2;
    I era = (y >= 0 ? y : y - 399) / 400;
    I yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + doe - 719468;
}
I floordiv(I a, I b) { return a / b - (a % b < 0); }
struct Fields { I y; int mo, d, h, mi, s, wd, yd; };
Fields fields(I t)
{
    I z = floordiv(t, 86400), sec = t - z * 86400;
    Fields f;
    f.wd = (int)(((z + 4) % 7 + 7) % 7);
    f.y = 1970 + (z < 0 ? floordiv(z, 365) - 1 : z / 366);
    while (days(f.y + 1, 1, 1) <= z) ++f.y;
    f.yd = (int)(z - days(f.y, 1, 1));
    f.mo = 12;
    while (days(f.y, f.mo, 1) > z) --f.mo;
    f.d = (int)(z - days(f.y, f.mo, 1)) + 1;
    f.h = (int)(sec / 3600); f.mi = (int)(sec / 60 % 60); f.s = (int)(sec % 60);
    return f;
}
I instant(const Fields& f) { return days(f.y, f.mo, f.d) * 86400 + f.h * 3600 + f.mi * 60 + f.s; }

const char* MON[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
const char* DAY[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"};
std::string pad(I v, int n, char c = '0')
{
    std::string s = std::to_string(v);
    while ((int)s.size() < n) s.insert(s.begin(), c);
    return s;
}
std::string text(const Fields& f, const std::string& format)
{
    std::string r;
    for (size_t i = 0; i < format.size(); ++i)
    {
        if (format[i] != '%')
        {
            r += format[i];
            continue;
        }
        switch (format[++i])
        {
            case 'Y': r += std::to_string(f.y); break;
            case 'C': r += pad(f.y / 100, 2); break;
            case 'y': r += pad(f.y % 100, 2); break;
            case 'm': r += pad(f.mo, 2); break;
            case 'd': r += pad(f.d, 2); break;
            case 'e': r += pad(f.d, 2, ' '); break;
            case 'H': r += pad(f.h, 2); break;
            case 'I': r += pad((f.h + 11) % 12 + 1, 2); break;
            case 'p': r += f.h < 12 ? "AM" : "PM"; break;
            case 'M': r += pad(f.mi, 2); break;
            case 'S': r += pad(f.s, 2); break;
            case 'j': r += pad(f.yd + 1, 3); break;
            case 'B': r += MON[f.mo - 1]; break;
            case 'b': r += std::string(MON[f.mo - 1]).substr(0, 3); break;
            case 'A': r += DAY[f.wd]; break;
            case 'a': r += std::string(DAY[f.wd]).substr(0, 3); break;
            case 'T': r += text(f, "%H:%M:%S"); break;
            case 'R': r += text(f, "%H:%M"); break;
            case 'F': r += text(f, "%Y-%m-%d"); break;
            case 'D': r += text(f, "%m/%d/%y"); break;
            case 'n': r += '\n'; break;
            case 't': r += '\t'; break;
            case '%': r += '%'; break;
        }
    }
    return r;
}

// ---- time zones: the rule in the text that the C library reads, and the same one here
struct Rule { int m, w, d, at; };
struct Zone { const char* tz; int std, dst; Rule start, end; };
const std::vector<Zone> ZONES{
    {"UTC0", 0, 0, {}, {}},
    {"<+0545>-5:45", 20700, 20700, {}, {}},
    {"<-12>12", -43200, -43200, {}, {}},
    {"<+14>-14", 50400, 50400, {}, {}},
    {"EST5EDT,M3.2.0,M11.1.0", -18000, -14400, {3, 2, 0, 7200}, {11, 1, 0, 7200}},
    {"CET-1CEST,M3.5.0,M10.5.0/3", 3600, 7200, {3, 5, 0, 7200}, {10, 5, 0, 10800}},
    {"NZST-12NZDT,M9.5.0,M4.1.0/3", 43200, 46800, {9, 5, 0, 7200}, {4, 1, 0, 10800}},
    {"<+1030>-10:30<+11>-11,M10.1.0,M4.1.0", 37800, 39600, {10, 1, 0, 7200}, {4, 1, 0, 7200}},
};
const I MIN = -9223372036LL, MAX = 9223372036LL;
I rule_day(I y, const Rule& r)
{
    I first = days(y, r.m, 1);
    int wd = (int)(((first + 4) % 7 + 7) % 7);
    I d = first + (r.d - wd + 7) % 7 + 7 * (r.w - 1);
    I next = r.m == 12 ? days(y + 1, 1, 1) : days(y, r.m + 1, 1);
    while (d >= next) d -= 7;
    return d;
}
int offset(const Zone& z, I t)
{
    if (z.std == z.dst) return z.std;
    I y = fields(t + z.std).y;
    I s = rule_day(y, z.start) * 86400 + z.start.at - z.std, e = rule_day(y, z.end) * 86400 + z.end.at - z.dst;
    bool dst = s < e ? t >= s && t < e : t >= s || t < e;
    return dst ? z.dst : z.std;
}
// The C library knows the rules of summer time only from 1970 on
bool known(const Zone& z, I t, bool local) { return t >= MIN && t <= MAX && (!local || z.std == z.dst || t >= 366 * 86400); }
// Whether the text says which instant it is
bool ambiguous(const Zone& z, I t)
{
    I diff = z.dst - z.std;
    return diff && ((offset(z, t) == z.dst && offset(z, t + diff) == z.std) || (offset(z, t) == z.std && offset(z, t - diff) == z.dst));
}
void set_zone(const Zone& z)
{
    setenv("TZ", z.tz, 1);
    tzset();
}

I pick_time(vf::Rng& r, const Zone* z = nullptr)
{
    switch (r.below(9))
    {
        case 0: return r.range(MIN, MAX);
        case 1: return r.range(-5, 5);
        case 2: return r.range(-2000000000, 2000000000);
        case 3: return r.chance(50) ? MIN + (I)r.below(100) : MAX - (I)r.below(100);
        case 4:   // ends of days and years, 29th of February
        {
            I y = r.range(1678, 2261);
            int m = r.chance(60) ? r.pick(std::vector<int>{1, 2, 3, 12}) : (int)r.range(1, 12);
            return days(y, m, 1) * 86400 + r.range(-86401, 86401) * r.range(0, 1) + r.range(-2, 2);
        }
        case 5: return (r.chance(50) ? 0x7fffffffLL : 0xffffffffLL) * (r.chance(70) ? 1 : -1) + r.range(-3, 3);
        case 6: if (z && z->std != z->dst)
            {
                I y = r.range(1678, 2261);
                const Rule& u = r.chance(50) ? z->start : z->end;
                return rule_day(y, u) * 86400 + u.at - (r.chance(50) ? z->std : z->dst) + r.range(-7300, 7300);
            }
            // fall through
        case 7: return floordiv(r.range(MIN + 86400, MAX), 86400) * 86400 + r.pick(std::vector<I>{0, 1, 43199, 43200, 46799, 86399});
        default: return 1500000000 + (I)r.below(600000000);
    }
}
Timestamp stamp(I t) { return Timestamp(std::chrono::duration_cast<Timestamp::duration>(std::chrono::seconds(t))); }
I seconds(const Timestamp& t) { return std::chrono::duration_cast<std::chrono::seconds>(t.time_since_epoch()).count(); }

const std::vector<std::string> COMPLETE{"%Y-%m-%d_%H-%M-%S", "%Y/%m/%d %H:%M:%S", "%d %b %Y %T", "%H:%M:%S %d.%m.%Y", "%Y%m%d%H%M%S", "%a %d %b %Y %H:%M:%S",
    "%I:%M:%S %p %d/%m/%Y", "%B %d %Y %R:%S", "%A %d %B %Y, %H h %M m %S s", "%e.%m.%Y %T", "%Y-%m-%dT%H:%M:%SZ", "%S.%M.%H-%d-%m-%Y", "time %H%M%S of %Y-%m-%d", "%Y-%j %T"};

void round_trip_of(vf::Rng& r, bool numbers)
{
    const Zone& z = r.pick(ZONES);
    set_zone(z);
    for (int i = 0; i < 300; ++i)
    {
        bool local = r.chance(50);
        I t = pick_time(r, &z);
        if (!known(z, t, local)) continue;
        std::string format = r.chance(30) ? COMPLETE[0] : r.pick(COMPLETE);
        // without names
        while (numbers && format.find_first_of("aAbBp") != std::string::npos) format = r.pick(COMPLETE);
        I shown = t + (local ? offset(z, t) : 0);
        Fields f = fields(shown);
        std::string want = text(f, format);
        std::string got = format == COMPLETE[0] && !local && r.chance(50) ? timestamp_to_string(stamp(t)) : timestamp_to_string(stamp(t), format, local);
        VF_CHECK(got == want, "format", t << " with " << format << (local ? " in " : " not in ") << z.tz << " is " << vf::show(got) << " instead of " << vf::show(want));
        vf::count("steps");
        vf::seen("sequences", vf::mix(vf::hash_str(format) ^ vf::hash_str(z.tz) ^ (local * 7 + floordiv(t, 86400 * 30) * 131)));
        if (local && ambiguous(z, t))
        {
            vf::count("ambiguous_texts_skipped");
            continue;
        }
        // time zones far from UTC: the fields may be out of the years of Timestamp, not the instant
        try
        {
            Timestamp back = format == COMPLETE[0] && !local && r.chance(50) ? string_to_timestamp(want) : string_to_timestamp(want, format, local);
            VF_CHECK(back == stamp(t), "round-trip", vf::show(want) << " with " << format << (local ? " in " : " not in ") << z.tz << " is " << seconds(back) << " instead of " << t);
        }
        catch (const std::exception& e)
        {
            vf::viol("refused", vf::show(want) + " with " + format + (local ? " in " : " not in ") + z.tz + " refused: " + e.what());
        }
    }
    vf::sample(std::string("zone ") + z.tz);
}
void round_trip(vf::Rng& r) { round_trip_of(r, false); }
void in_locales(vf::Rng& r)
{
    if (vf::locales().empty()) return;
    vf::InLocale l(r.pick(vf::locales()));
    round_trip_of(r, true);
    vf::count("in_locales");
}
void tokens(vf::Rng& r)
{
    const Zone& z = r.pick(ZONES);
    set_zone(z);
    for (int i = 0; i < 300; ++i)
    {
        std::string format;
        for (int k = (int)r.range(0, 12); k > 0; --k)
        {
            if (r.chance(70)) format += std::string("%") + std::string("YCymdeHIpMSjBbAaTRFDnt%")[r.below(23)];
            else format += r.from("abz019 -_:/.,\xc3\xb1", r.below(4));
        }
        bool local = r.chance(50);
        I t = pick_time(r, &z);
        if (!known(z, t, local)) continue;
        std::string got = timestamp_to_string(stamp(t), format, local), want = text(fields(t + (local ? offset(z, t) : 0)), format);
        VF_CHECK(got == want, "format", t << " with " << vf::show(format) << (local ? " in " : " not in ") << z.tz << " is " << vf::show(got) << " instead of " << vf::show(want));
        vf::count("steps");
    }
}
void dates(vf::Rng& r)
{
    set_zone(r.pick(ZONES));      // must not matter
    for (int i = 0; i < 400; ++i)
    {
        I t = pick_time(r);
        if (t < MIN || t > MAX) continue;
        Fields f = fields(t);
        unsigned parts = (unsigned)r.below(4);
        Timestamp got;
        if (parts < 3) f.s = 0;
        if (parts < 2) f.mi = 0;
        if (parts < 1) f.h = 0;
        I want = instant(f);
        if (want < MIN) continue;
        switch (parts)
        {
            case 0: got = date_to_timestamp((unsigned)f.y, f.mo, f.d); break;
            case 1: got = date_to_timestamp((unsigned)f.y, f.mo, f.d, f.h); break;
            case 2: got = date_to_timestamp((unsigned)f.y, f.mo, f.d, f.h, f.mi); break;
            default: got = date_to_timestamp((unsigned)f.y, f.mo, f.d, f.h, f.mi, f.s);
        }
        VF_CHECK(got == stamp(want), "date", text(f, "%Y-%m-%d %T") << " is " << seconds(got) << " instead of " << want);
        if (i % 8 == 0)
        {
            unsigned h = (unsigned)r.below(24), m = (unsigned)r.below(60), s = (unsigned)r.below(60);
            I d0 = ::time(nullptr) / 86400;
            I today = seconds(time_to_timestamp(h, m, s)), mid = seconds(time_to_timestamp());
            I d1 = ::time(nullptr) / 86400;
            VF_CHECK(today - (I)(h * 3600 + m * 60 + s) == d0 * 86400 || today - (I)(h * 3600 + m * 60 + s) == d1 * 86400, "time-of-day", h << ":" << m << ":" << s << " of today is " << today);
            VF_CHECK(mid == d0 * 86400 || mid == d1 * 86400, "time-of-day", "beginning of today is " << mid);
            auto a = Timeclock::now(), n = now(), b = Timeclock::now();
            VF_CHECK(a <= n && n <= b, "now", "now() is not now");
            VF_CHECK(the_end_of_time() >= stamp(MAX) && the_beginning_of_time() <= stamp(MIN), "ends", "ends of time");
            VF_CHECK(normalize(t) == t, "normalize", "normalize(" << t << ") is " << normalize(t));
        }
        uint32_t ms = r.chance(30) ? r.pick(std::vector<uint32_t>{0, 1, 999, 1000, 0x7fffffff, 0x80000000, 0xffffffff}) : (uint32_t)r.next() >> r.below(32);
        VF_CHECK((uint64_t)duration_to_ms(ms).count() == ms, "duration", "duration_to_ms(" << ms << ")");
        vf::count("steps");
    }
}
void refused(vf::Rng& r)
{
    const Zone& z = r.pick(ZONES);
    set_zone(z);
    auto expect = [&](const std::string& s, const std::string& format, const char* why)
            {
                bool local = r.chance(40);
                try
                {
                    Timestamp t = string_to_timestamp(s, format, local);
                    vf::viol("accepted", vf::show(s) + " with " + format + " taken as " + std::to_string(seconds(t)) + " (" + why + ")");
                }
                catch (const eprosima::utils::Exception&)
                {
                }
                vf::count("steps");
                vf::count(std::string("refused_") + why);
            };
    for (int i = 0; i < 200; ++i)
    {
        // digits and separators only, so that an x never fits; the last field is let alone beyond its first digit
        static const std::vector<std::string> plain{"%Y-%m-%d_%H-%M-%S", "%Y/%m/%d %H:%M:%S", "%H:%M:%S %d.%m.%Y", "%Y%m%d%H%M%S", "%S.%M.%H-%d-%m-%Y"};
        std::string format = r.pick(plain);
        I t = r.range(days(1700, 1, 1), days(2200, 1, 1)) * 86400 + r.range(0, 86399);
        Fields f = fields(t);
        std::string good = text(f, format), bad = good;
        size_t last = good.find_last_not_of("0123456789");
        last = last == std::string::npos ? good.size() - 2 : last + 1;
        bad[r.below(last + 1)] = r.pick(std::vector<char>{'x', '#', '!', '%'});
        expect(bad, format, "wrong_character");
        // fields out of their range
        Fields g = f;
        switch (r.below(6))
        {
            case 0: g.mo = (int)r.range(13, 99); break;
            case 1: g.mo = 0; break;
            case 2: g.d = (int)r.range(32, 99); break;
            case 3: g.d = 0; break;
            case 4: g.h = (int)r.range(24, 99); break;
            default: g.mi = (int)r.range(60, 99);
        }
        std::string sep = r.pick(std::vector<std::string>{"%Y-%m-%d_%H-%M-%S", "%Y/%m/%d %H:%M:%S"});
        expect(text(g, sep), sep, "out_of_range");
        expect("", format, "empty");
        expect(text(f, "%A"), format, "other_text");
        expect("Nonember 12 2020 10:00:00", "%B %d %Y %T", "no_such_month");
        // years that a timestamp cannot hold
        g = f;
        g.y = r.chance(50) ? r.range(2263, 9998) : r.range(1000, 1676);
        if (g.mo == 2 && g.d == 29) g.d = 28;
        expect(text(g, sep), sep, "year_not_representable");
        try
        {
            Timestamp d = date_to_timestamp((unsigned)g.y, g.mo, g.d, g.h, g.mi, g.s);
            vf::viol("accepted", "date_to_timestamp of the year " + std::to_string(g.y) + " is " + std::to_string(seconds(d)));
        }
        catch (const eprosima::utils::Exception&)
        {
        }
        vf::seen("sequences", vf::hash_str(bad));
    }
}

void concurrent(vf::Exec& e)
{
    static const Zone& z = ZONES[5];
    static bool once = (set_zone(z), true);
    (void)once;
    unsigned nt = 2 + (unsigned)e.rng.below(2);
    std::vector<std::function<void()>> fs;
    std::mutex m;
    for (unsigned k = 0; k < nt; ++k)
    {
        struct Case { I t; std::string format; bool local; int how; };
        std::vector<Case> cs;
        for (int i = 0; i < 3; ++i)
        {
            I t;
            do t = pick_time(e.rng, &z); while (!known(z, t, true) || ambiguous(z, t));
            cs.push_back({t, e.rng.pick(COMPLETE), e.rng.chance(50), (int)e.rng.below(3)});
        }
        fs.push_back([cs, &m]
                {
                    for (auto& c : cs)
                    {
                        std::string want = text(fields(c.t + (c.local ? offset(ZONES[5], c.t) : 0)), c.format);
                        std::string got = c.how == 1 ? want : timestamp_to_string(stamp(c.t), c.format, c.local);
                        VF_CHECK(got == want, "concurrent-format", c.t << " with " << c.format << (c.local ? " local" : "") << " is " << vf::show(got) << " instead of " << vf::show(want));
                        if (c.how > 0)
                        {
                            try
                            {
                                Timestamp t = string_to_timestamp(want, c.format, c.local);
                                VF_CHECK(t == stamp(c.t), "concurrent-parse", vf::show(want) << " with " << c.format << (c.local ? " local" : "") << " is " << seconds(t) << " instead of " << c.t);
                            }
                            catch (const std::exception& x)
                            {
                                vf::viol("concurrent-parse", vf::show(want) + " refused: " + x.what());
                            }
                        }
                        else
                        {
                            I today = seconds(time_to_timestamp(10, 20, 30)), now = ::time(nullptr);
                            VF_CHECK(std::abs(today / 86400 - now / 86400) <= 1 && today % 86400 == 37230, "concurrent-time-of-day", "10:20:30 of today is " << today);
                        }
                        vf::count("steps");
                    }
                });
    }
    e.par(fs);
}

void nothing(int) {}
void sleeping(vf::Rng& r)
{
    struct sigaction sa = {};
    sa.sa_handler = nothing;
    sigaction(SIGUSR2, &sa, nullptr);
    for (int i = 0; i < 6; ++i)
    {
        uint32_t ms = (uint32_t)(r.chance(20) ? r.below(3) : r.below(50));
        bool interrupt = r.chance(60);
        std::atomic<bool> done{false};
        uint64_t took = 0;
        std::thread t([&]
                {
                    uint64_t a = vf::now_ns();
                    sleep_for(ms);
                    took = vf::now_ns() - a;
                    done = true;
                    while (done) vf::sleep_us(100);
                });
        while (!done)
        {
            if (interrupt) pthread_kill(t.native_handle(), SIGUSR2);
            vf::sleep_us(500 + (unsigned)r.below(3000));
        }
        done = false;
        t.join();
        VF_CHECK(took >= ms * 1000000ull, "early", "sleep_for(" << ms << ") took " << took << " ns" << (interrupt ? " with signals" : ""));
        vf::count("steps");
    }
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    vf::batches("round-trip", 200, round_trip);
    vf::batches("locales", 40, in_locales);
    vf::batches("tokens", 100, tokens);
    vf::batches("dates", 100, dates);
    vf::batches("refused", 60, refused);
    vf::batches("sleeping", 12, sleeping);
    vf::explore("concurrent", vf::Opt().b(60).r(300).p(120), concurrent);
    return vf::finish();
}
