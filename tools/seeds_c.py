from seed_lib import seed
import os
I = 'cpp_utils/include/cpp_utils/'
S = 'cpp_utils/src/cpp/'
OP = 'thirdparty/optionparser/optionparser.h'
FW = 'thirdparty/filewatch/FileWatch.hpp'
ASAN = '-fsanitize=address -fno-omit-frame-pointer'

# ---------------------------------------------------------------- P34
seed('p34-buffer-one-too-many', 'P34', [(OP,
'''        if (bufmax < 0 || parser.op_count < bufmax)''',
'''        if (bufmax < 0 || parser.op_count <= bufmax)''')],
'A command line with more options than the announced size of the buffer.',
'The parser writes one option beyond the end of the buffer.',
'''
#include <optionparser/optionparser.h>
int main()
{
    const option::Descriptor usage[] = {
        {0, 0, "", "", option::Arg::None, ""}, {1, 0, "v", "verbose", option::Arg::None, ""}, {0, 0, 0, 0, 0, 0}};
    const char* args[] = {"-vvvv"};
    option::Option options[2];
    option::Option buffer[4];
    option::Option sentinel = buffer[2];
    option::Parser parser(false, usage, 1, args, options, buffer, 0, false, 2);
    EXPECT(parser.optionsCount() == 2);
    EXPECT(buffer[2].desc == sentinel.desc);
    EXPECT(!buffer[2]);
    return 0;
}
''')

seed('p34-third-occurrence', 'P34', [(OP,
'''        new_last->prev_ = p;
''', '''        new_last->prev_ = p->isFirst() ? p : p->prev_;
''')],
'An option given three times, whose occurrences are walked backwards.',
'Walking back from the last occurrence skips the one before it.',
'''
#include <optionparser/optionparser.h>
#include <cstring>
int main()
{
    const option::Descriptor usage[] = {
        {0, 0, "", "", option::Arg::None, ""}, {1, 0, "f", "file", option::Arg::Optional, ""}, {0, 0, 0, 0, 0, 0}};
    const char* args[] = {"-fa", "-fb", "-fc"};
    option::Option options[2];
    option::Option buffer[4];
    option::Parser parser(usage, 3, args, options, buffer);
    EXPECT(parser.optionsCount() == 3);
    option::Option* o = options[1].last();
    EXPECT(!std::strcmp(o->arg, "c"));
    o = o->prev();
    EXPECT(o && !std::strcmp(o->arg, "b"));
    o = o->prev();
    EXPECT(o && !std::strcmp(o->arg, "a"));
    EXPECT(o->prev() == nullptr);
    return 0;
}
''')

seed('p34-abbreviation-of-alias', 'P34', [(OP,
'''                        if (usage[i2].longopt == 0)''',
'''                        // Long options with the same index are aliases, so it does not matter which one is meant
                        if (usage[i2].longopt == 0 || usage[i2].index == usage[i1].index)''')],
'An abbreviation that fits two long options with one index but different types.',
'An ambiguous abbreviation is taken as the first option instead of being unknown.',
'''
#include <optionparser/optionparser.h>
int main()
{
    const option::Descriptor usage[] = {
        {0, 0, "", "", option::Arg::None, ""}, {1, 1, "", "enable-x", option::Arg::None, ""},
        {1, 2, "", "enable-y", option::Arg::None, ""}, {0, 0, 0, 0, 0, 0}};
    const char* args[] = {"--enable", "--enable-x"};
    option::Option options[2];
    option::Option buffer[4];
    option::Parser parser(usage, 2, args, options, buffer, 3);
    EXPECT(options[1].count() == 1);
    EXPECT(options[0].count() == 1);   // the ambiguous one is unknown
    return 0;
}
''')

seed('p34-wrapped-spaces', 'P34', [(OP,
'''                            output(write, data, i);
                            data += i + 1;
                            len -= i + 1;
''', '''                            output(write, data, i);

                            // Do not start the next line with blanks
                            while (i < len && data[i] == ' ')
                            {
                                ++i;
                            }
                            data += i;
                            len -= i;
''')],
'A last column that is wrapped where the text has several blanks in a row.',
'All the blanks at a line break are dropped instead of the single one that the break stands for.',
'''
#include <optionparser/optionparser.h>
static std::string out;
static void put(const char* s, int n) { out.append(s, n); }
int main()
{
    const option::Descriptor usage[] = {
        {0, 0, "", "", option::Arg::None, "  -x \\taaaa bbbb cccc   dddd eeee ffff"}, {0, 0, 0, 0, 0, 0}};
    bool kept = false;
    for (int width = 12; width < 60; ++width)
    {
        out.clear();
        option::printUsage(put, usage, width);
        std::string t;
        size_t at = out.find("cccc");
        EXPECT(at != std::string::npos);
        // the text after cccc: a break, the two other blanks, and dddd at the column's indentation plus two
        size_t nl = out.find("dddd");
        std::string between = out.substr(at + 4, nl - at - 4);
        if (between.find('\\n') != std::string::npos)
        {
            size_t line = out.rfind('\\n', nl);
            size_t trailing = out.substr(at + 4, line - at - 4).size();
            size_t indent = nl - line - 1;
            EXPECT(trailing + indent == 5 + 2);
            kept = true;
        }
    }
    EXPECT(kept);
    return 0;
}
''')

# ---------------------------------------------------------------- P35
seed('p35-pending-replaced', 'P35', [(FW,
'''                    _callback_information.insert(_callback_information.end(),
                            parsed_information.begin(), parsed_information.end());
''', '''                    _callback_information.swap(parsed_information);
''')],
'A callback that takes long while two more events arrive, apart from each other.',
'The events that waited to be reported are replaced by the later ones and never reported.',
'''
#include <FileWatch.hpp>
#include <fstream>
#include <set>
int main()
{
    char dir[] = "watched.XXXXXX";
    EXPECT(mkdtemp(dir));
    std::string d = dir;
    std::mutex m;
    std::set<std::string> got;
    {
        filewatch::FileWatch<std::string> watch(d, [&](const std::string& f, const filewatch::Event)
                {
                    {
                        std::lock_guard<std::mutex> l(m);
                        got.insert(f);
                    }
                    ms(400);
                });
        ms(100);
        for (const char* n : {"a", "b", "c", "d"})
        {
            std::ofstream(d + "/" + n) << n;
            ms(60);
        }
        ms(5000);
    }
    EXPECT(got.count("a") && got.count("b") && got.count("c") && got.count("d"));
    return 0;
}
''')

seed('p35-name-ends-alike', 'P35', [(FW,
'''            return extracted_filename == _filename;''',
'''            return extracted_filename.size() >= _filename.size() &&
                   std::equal(_filename.rbegin(), _filename.rend(), extracted_filename.rbegin());''')],
'A change of another file of the directory whose name ends like the watched one (backup_config.txt).',
'A watch of one file reports changes of other files.',
'''
#include <FileWatch.hpp>
#include <fstream>
int main()
{
    char dir[] = "watched.XXXXXX";
    EXPECT(mkdtemp(dir));
    std::string d = dir;
    std::ofstream(d + "/conf.txt") << 1;
    std::atomic<int> right{0}, wrong{0};
    {
        filewatch::FileWatch<std::string> watch(d + "/conf.txt", [&](const std::string& f, const filewatch::Event)
                {
                    ++(f == "conf.txt" ? right : wrong);
                });
        ms(100);
        std::ofstream(d + "/old_conf.txt") << 2;
        std::ofstream(d + "/xconf.txt") << 2;
        ms(200);
        std::ofstream(d + "/conf.txt") << 3;
        ms(1000);
    }
    EXPECT(right > 0);
    EXPECT(wrong == 0);
    return 0;
}
''')

# ---------------------------------------------------------------- P09
seed('p09-history-of-ignored', 'P09', [(S + 'event/StdinEventHandler.cpp',
'''                if (!is_ignoring_input() && !read_str.empty())
                {
                    history_handler_.add_command(read_str);
                }
''', '''                if (is_ignoring_input() || read_str.empty())
                {
                    read_str = "";
                }
                history_handler_.add_command(read_str.substr(0, cursor_index));
''')],
'A line whose last keys moved the cursor to the left before the line feed, recalled afterwards with the up arrow.',
'The history keeps only the part of the line on the left of the cursor.',
'''
#include <cpp_utils/event/StdinEventHandler.hpp>
#include <unistd.h>
using namespace eprosima::utils::event;
int main()
{
    int fd[2];
    EXPECT(!pipe(fd));
    EXPECT(dup2(fd[0], 0) == 0);
    const std::string keys = "hello\\033[D\\033[D\\n\\033[A\\n";
    EXPECT(write(fd[1], keys.data(), keys.size()) == (long)keys.size());
    std::mutex m;
    std::vector<std::string> got;
    {
        StdinEventHandler h([&](std::string s) { std::lock_guard<std::mutex> l(m); got.push_back(s); }, true, 2);
        for (int k = 0; k < 300; ++k)
        {
            ms(10);
            std::lock_guard<std::mutex> l(m);
            if (got.size() == 2) { break; }
        }
        close(fd[1]);
    }
    EXPECT(got.size() == 2);
    EXPECT(got[0] == "hello");
    EXPECT(got[1] == "hello");
    return 0;
}
''', 'event/StdinEventHandler.cpp history/CommandHistoryHandler.cpp wait/CounterWaitHandler.cpp wait/IntWaitHandler.cpp')

seed('p09-quote-inside-word', 'P09', [(I + 'user_interface/impl/CommandReader.ipp',
'''        if (!input[i].empty() && input[i].front() == '"')
''', '''        if (input[i].find('"') == 0 || input[i].find(" \\"") == 0 || (i > 0 && input[i].size() == 1 + input[i].rfind('"')))
''')],
'A word that ends with a quote but does not begin with one (the size 5").',
'The word is joined with the next ones and loses its first character.',
'''
#include <cpp_utils/user_interface/CommandReader.hpp>
#include <cpp_utils/macros/custom_enumeration.hpp>
#include <unistd.h>
using namespace eprosima::utils;
enum class Cmd { set };
int main()
{
    int fd[2];
    EXPECT(!pipe(fd));
    EXPECT(dup2(fd[0], 0) == 0);
    const std::string keys = "set 5\\" wide\\n";
    EXPECT(write(fd[1], keys.data(), keys.size()) == (long)keys.size());
    const std::map<Cmd, std::set<std::string>> names = {{Cmd::set, {"set"}}};
    EnumBuilder<Cmd> builder(names);
    CommandReader<Cmd> reader(builder);
    Command<Cmd> c;
    EXPECT(reader.read_next_command(c));
    EXPECT(c.arguments == (std::vector<std::string>{"set", "5\\"", "wide"}));
    close(fd[1]);
    return 0;
}
''', 'event/StdinEventHandler.cpp history/CommandHistoryHandler.cpp wait/CounterWaitHandler.cpp wait/IntWaitHandler.cpp')

# ---------------------------------------------------------------- P19
seed('p19-dst-of-now', 'P19', [(S + 'time/time_utils.cpp',
'''        tm.tm_isdst = -1;
''', '''        const std::time_t current = std::time(nullptr);
        std::tm current_tm{};
        localtime_r(&current, &current_tm);
        tm.tm_isdst = current_tm.tm_isdst;
''')],
'A local time zone with daylight saving time, and a date in the other half of the year than the present one.',
'The parsed instant is off by an hour.',
'''
#include <cpp_utils/time/time_utils.hpp>
using namespace eprosima::utils;
int main()
{
    setenv("TZ", "CET-1CEST,M3.5.0,M10.5.0/3", 1);
    for (int month = 1; month <= 12; ++month)
    {
        Timestamp t = date_to_timestamp(2024, month, 15, 12, 0, 0);
        EXPECT(string_to_timestamp(timestamp_to_string(t, "%Y-%m-%d_%H-%M-%S", true), "%Y-%m-%d_%H-%M-%S", true) == t);
    }
    return 0;
}
''')

seed('p19-rounds-to-second', 'P19', [(S + 'time/time_utils.cpp',
'''    time_t duration_seconds = normalize(Timeclock::to_time_t(timestamp));

    std::tm tm{};
''', '''    time_t duration_seconds = normalize(std::chrono::duration_cast<std::chrono::seconds>(
                        timestamp.time_since_epoch()).count());
    if (duration_seconds < 0 && duration_seconds % 60 == 0)
    {
        // Division of negative numbers truncates towards zero
        duration_seconds--;
    }

    std::tm tm{};
''')],
'A timestamp before 1970 at a whole minute.',
'The text names the second before.',
'''
#include <cpp_utils/time/time_utils.hpp>
using namespace eprosima::utils;
int main()
{
    Timestamp t = date_to_timestamp(1965, 4, 3, 2, 1, 0);
    EXPECT(timestamp_to_string(t, "%Y-%m-%d_%H-%M-%S") == "1965-04-03_02-01-00");
    EXPECT(string_to_timestamp(timestamp_to_string(t)) == t);
    return 0;
}
''')

# ---------------------------------------------------------------- P20
GEN = 'dev_utils/src/automatic_code_generator/cpp/enumeration_builder/enumeration_builder.py'
seed('p20-generator-sorts', 'P20', [(GEN,
'''        ',\\n'.join([f'    "{x}"' for x in enumeration_values]))
''', '''        ',\\n'.join([f'    "{x}"' for x in dict.fromkeys(
            sorted(enumeration_values, key=lambda v: (len(v) > 31, enumeration_values.index(v))))]))
''')],
'A value whose name has more than 31 characters, followed by shorter ones.',
'The names are listed in another order than the values, so that names and values do not fit.',
None, py='''
import os, re, subprocess, sys, tempfile
gen = os.path.join(os.getcwd(), 'dev_utils/src/automatic_code_generator/cpp/enumeration_builder/enumeration_builder.py')
long = 'a_name_with_a_good_many_characters_in_it'
with tempfile.TemporaryDirectory() as tmp:
    out = os.path.join(tmp, 'e.hpp')
    subprocess.check_call([sys.executable, gen, '-e', 'E', '-v', 'first;' + long + ';last', '-o', out])
    t = open(out).read()
    names = re.findall(r'"(\\w+)"', t[t.index('NAMES_E ='):t.index('inline')])
    values = re.findall(r'^    (\\w+),?$', t[t.index('enum class'):t.index('NAMES_E')], re.M)
print(names, values)
sys.exit(0 if names == values == ['first', long, 'last'] else 1)
''')

seed('p20-prefix-is-enough', 'P20', [(I + 'macros/custom_enumeration.hpp',
'''        if (NAMES_ ## enumeration_name[i] == s){e = static_cast<enumeration_name>(i); return true;}                 \\
''', '''        if (NAMES_ ## enumeration_name[i].compare(s.c_str()) == 0){e = static_cast<enumeration_name>(i); return true;} \\
''')],
'A string that is a name followed by a null character and more.',
'It is taken for the name.',
'''
#include <cpp_utils/macros/custom_enumeration.hpp>
#include <cpp_utils/Formatter.hpp>
ENUMERATION_BUILDER(Color, red, green);
int main()
{
    Color c;
    EXPECT(string_to_enumeration("green", c) && c == Color::green);
    EXPECT(!string_to_enumeration(std::string("green\\0x", 7), c));
    return 0;
}
''')

# ---------------------------------------------------------------- P30
seed('p30-what-shared', 'P30', [(S + 'exception/Exception.cpp',
'''    return message_.c_str();
''', '''    // The text stays valid when the exception has been destroyed (but only till the next one)
    static thread_local std::string text;
    text = message_;
    return text.c_str();
''')],
'The texts of two exceptions that are looked at together (an exception and its cause).',
'The text of the first becomes the text of the second.',
'''
#include <cpp_utils/exception/TimeoutException.hpp>
#include <cpp_utils/exception/DisabledException.hpp>
using namespace eprosima::utils;
int main()
{
    TimeoutException a("the first");
    DisabledException b("the cause");
    const char* x = a.what();
    const char* y = b.what();
    EXPECT(std::string(x) == "the first");
    EXPECT(std::string(y) == "the cause");
    return 0;
}
''')

seed('p30-null-character', 'P30', [(S + 'Formatter.cpp',
'''    os << f.to_string();
    return os;
''', '''    os << f.to_string().c_str();
    return os;
''')],
'A formatter with a null character in it that is streamed into another formatter or stream.',
'The rest after the null character is lost.',
'''
#include <cpp_utils/Formatter.hpp>
using namespace eprosima::utils;
int main()
{
    Formatter in, out;
    in << "a" << '\\0' << "b";
    out << in << "c";
    EXPECT(out.to_string() == std::string("a\\0bc", 4));
    return 0;
}
''')

# ---------------------------------------------------------------- P32
seed('p32-arguments-consumed', 'P32', [('py_utils/py_utils/debugging/debug_utils.py',
'''        result = func(*args, **kwargs)
''', '''        result = func(*[list(a) if hasattr(a, '__next__') else a for a in args], **kwargs)
''')],
'A decorated function that is given an iterator or a generator.',
'The function receives a list instead of the very object that it was given.',
None, py='''
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), 'py_utils'))
from py_utils.debugging.debug_utils import debug_function_decorator
@debug_function_decorator
def f(x, *more):
    return x
g = iter([1, 2, 3])
sys.exit(0 if f(g) is g and f(4, 5) == 4 else 1)
''')

seed('p32-result-in-finally', 'P32', [('py_utils/py_utils/debugging/debug_utils.py',
'''        result = func(*args, **kwargs)
        logger.debug(f'Function <{func.__name__}> finished')
        return result
''', '''        result = None
        try:
            result = func(*args, **kwargs)
        finally:
            logger.debug(f'Function <{func.__name__}> finished')
            if result is not None:
                return result
        return func(*args, **kwargs)
''')],
'A decorated function that returns None.',
'It is called twice.',
None, py='''
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), 'py_utils'))
from py_utils.debugging.debug_utils import debug_function_decorator
calls = []
@debug_function_decorator
def f(x):
    calls.append(x)
    return x
ok = f(1) == 1 and f(None) is None and calls == [1, None]
sys.exit(0 if ok else 1)
''')
