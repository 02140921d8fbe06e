// Locales made on the spot (glibc's localedef, in a scratch directory), for programs that do not run in "C".
#pragma once
#include <cstdlib>
#include <filesystem>
#include <locale>
#include <string>
#include <vector>
namespace vf {
// Names of the locales that could be made: comma as decimal point, dots between thousands, single-byte letters, dotless i
inline const std::vector<std::string>& locales()
{
    static const std::vector<std::string> all = []
            {
                std::vector<std::string> v;
                static std::string dir;
                const char* t = getenv("VF_TMP");
                dir = std::string(t ? t : "/tmp") + "/vfloc.XXXXXX";
                if (!mkdtemp(&dir[0])) return v;
                atexit([] { std::error_code e; std::filesystem::remove_all(dir, e); });
                setenv("LOCPATH", dir.c_str(), 1);
                for (auto& p : std::vector<std::pair<std::string, std::string>>{{"de_DE", "UTF-8"}, {"de_DE", "ISO-8859-1"}, {"tr_TR", "ISO-8859-9"}})
                {
                    std::string name = p.first + "." + p.second;
                    if (system(("localedef -i " + p.first + " -f " + p.second + " '" + dir + "/" + name + "' >/dev/null 2>&1").c_str()) > 1 << 8) continue;
                    try { std::locale l(name.c_str()); v.push_back(name); }
                    catch (const std::runtime_error&) {}
                }
                return v;
            } ();
    return all;
}
// The locale of the program, for a while
struct InLocale
{
    explicit InLocale(const std::string& name) : old(std::locale::global(std::locale(name.c_str()))) {}
    ~InLocale() { std::locale::global(old); }
    std::locale old;
};
} // namespace vf
