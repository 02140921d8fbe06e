// P20: Builder and EnumBuilder with tables made at run time, against a map; with the table changed between the questions.
#include <vf.hpp>
#include <cpp_utils/enum/EnumBuilder.hpp>
#include <cpp_utils/types/Builder.hpp>

using namespace eprosima::utils;

enum class Color { red, green = 7, blue = -3, none = 100 };
const std::vector<Color> COLORS{Color::red, Color::green, Color::blue, Color::none};

std::string key(vf::Rng& r)
{
    switch (r.below(6))
    {
        case 0: return "";
        case 1: return r.from("ab", r.below(4));
        case 2: return r.bytes(r.below(6));
        case 3: return std::string("a\0b", 3).substr(0, r.below(4));
        case 4: return std::string(r.below(3) * 100, 'x') + (char)('a' + r.below(3));
        default: return r.from("AaBb ", r.below(3));
    }
}
template <class B>
void ask(B& b, const std::map<std::string, Color>& model, vf::Rng& r, const char* how)
{
    std::vector<std::string> questions;
    for (auto& p : model)
    {
        questions.push_back(p.first);
        if (r.chance(30)) questions.push_back(p.first + " ");
        if (r.chance(30) && !p.first.empty()) questions.push_back(p.first.substr(0, p.first.size() - 1));
    }
    for (int i = 0; i < 10; ++i) questions.push_back(key(r));
    for (auto& k : questions)
    {
        auto it = model.find(k);
        Color c = (Color)12345;
        bool f = b.find(k, c);
        VF_CHECK(f == (it != model.end()), "find", how << " key " << vf::show(k) << (f ? " found" : " not found"));
        if (f && it != model.end()) VF_CHECK(c == it->second, "find", how << " key " << vf::show(k) << " gives " << (int)c << " instead of " << (int)it->second);
        try
        {
            Color d = b.find(k);
            VF_CHECK(it != model.end() && d == it->second, "find", how << " key " << vf::show(k) << " gives " << (int)d);
        }
        catch (const ValueNotAllowedException&)
        {
            VF_CHECK(it == model.end(), "find", how << " key " << vf::show(k) << " refused");
        }
        vf::count("steps", 2);
    }
}
// A table value -> keys in which each key is given once
std::map<Color, std::set<std::string>> table(vf::Rng& r, std::map<std::string, Color>& model)
{
    std::map<Color, std::set<std::string>> t;
    model.clear();
    for (Color c : COLORS)
    {
        if (r.chance(20)) continue;
        auto& s = t[c];
        for (int i = (int)r.below(5); i > 0; --i)
        {
            std::string k = key(r);
            if (model.emplace(k, c).second) s.insert(k);
        }
    }
    return t;
}
// A value that only a constructor can make, to see who copies what
struct Box
{
    vf::Live<Box> live;
    int v = 0;
    std::string text;
};

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    vf::batches("builder", 100, [](vf::Rng& r)
            {
                for (int k = 0; k < 40; ++k)
                {
                    std::map<std::string, Color> model;
                    auto t = table(r, model);
                    std::unique_ptr<EnumBuilder<Color>> b;
                    if (r.chance(50)) b.reset(new EnumBuilder<Color>(t));
                    else b.reset(new EnumBuilder<Color>(model));
                    ask(*b, model, r, "as built:");
                    for (int i = (int)r.below(4); i > 0; --i)
                    {
                        t = table(r, model);
                        if (r.chance(50)) b->refactor_values(t);
                        else b->refactor_values(model);
                        ask(*b, model, r, "after refactor_values:");
                    }
                    EnumBuilder<Color> copy(*b);
                    auto old = model;
                    t = table(r, model);
                    b->refactor_values(t);
                    ask(copy, old, r, "copy:");
                    for (auto& p : old)
                    {
                        Color c;
                        VF_CHECK(copy.string_to_enumeration(p.first, c) && c == p.second && copy.string_to_enumeration(p.first) == p.second, "string_to_enumeration", vf::show(p.first));
                    }
                    uint64_t h = 0;
                    for (auto& p : old) h = vf::hash_str(p.first, vf::mix(h ^ (int)p.second));
                    vf::seen("sequences", h);
                }
            });
    vf::batches("large", 4, [](vf::Rng& r)
            {
                std::map<std::string, int> m;
                const int n = (int)r.pick(std::vector<int>{100, 257, 1500, 20000});
                for (int i = 0; i < n; ++i) m["name_" + std::to_string(i * 3)] = i;
                Builder<std::string, int> b(m);
                for (int i = 0; i < 3 * n; ++i)
                {
                    int v = -1;
                    bool f = b.find("name_" + std::to_string(i), v);
                    VF_CHECK(f == (i % 3 == 0) && (!f || v == i / 3), "find", "name " << i << " among " << n << (f ? " found" : " not found") << ", value " << v);
                }
                vf::count("steps", 3 * (uint64_t)n);
            });
    vf::batches("other-types", 20, [](vf::Rng& r)
            {
                std::map<int, Box> m;
                for (int i = 0; i < 20; ++i)
                {
                    Box b;
                    b.v = (int)r.below(100);
                    b.text = "text of the box " + std::to_string(b.v);
                    m[(int)r.below(60)] = b;
                }
                Builder<int, Box> b(m);
                for (int k = -1; k < 61; ++k)
                {
                    Box x;
                    bool f = b.find(k, x);
                    VF_CHECK(f == (m.count(k) == 1), "find", "key " << k);
                    if (f) VF_CHECK(x.v == m[k].v && x.text == m[k].text && x.live.ok(), "find", "key " << k << " gives " << x.v);
                    vf::count("steps");
                }
                // several keys for one value, of a value that is ordered
                std::map<std::string, std::set<int>> t{{"even", {}}, {"odd", {}}, {"none", {}}};
                for (int i = 0; i < 30; ++i) t[i % 2 ? "odd" : "even"].insert(i);
                Builder<int, std::string> w(t);
                for (int i = 0; i < 30; ++i) VF_CHECK(w.find(i) == (i % 2 ? "odd" : "even"), "find", "key " << i);
            });
    return vf::finish();
}
