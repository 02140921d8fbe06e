"""P20: programs with generated enumerations. Each program checks every name, and strings that are no names, against the
list of names written in it, and says what is wrong."""
import os
import re
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "common"))
from vf import V

v = V()
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = os.path.join(v.repo, "dev_utils/src/automatic_code_generator/cpp/enumeration_builder/enumeration_builder.py")
INC = os.path.join(v.repo, "cpp_utils", "include")
SRC = os.path.join(v.repo, "cpp_utils", "src", "cpp")
KEYWORDS = set("""alignas alignof and and_eq asm auto bitand bitor bool break case catch char class compl const constexpr const_cast
continue decltype default delete do double dynamic_cast else enum explicit export extern false float for friend goto if inline int
long mutable namespace new noexcept not not_eq nullptr operator or or_eq private protected public register reinterpret_cast return
short signed sizeof static static_assert static_cast struct switch template this thread_local throw true try typedef typeid typename
union unsigned using virtual void volatile wchar_t while xor xor_eq linux unix concept requires COMMA STRINGIFY MAX MIN NULL EOF
assert stdin stdout stderr errno i s e os""".split())


def ident(r, used):
    while True:
        k = r.randrange(8)
        if k == 0:
            n = r.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
        elif k == 1 and used:
            b = r.choice(sorted(used))
            n = r.choice([b + "_", b + "0", b + "x", b[:-1], b.swapcase(), b[0].upper() + b[1:]])
        elif k == 2:
            n = "value_%d" % r.randrange(30)
        elif k == 3:
            n = "_".join(r.choice(["red", "GREEN", "On", "off", "none", "default_", "Last", "ok"]) for _ in range(r.randint(1, 3)))
        elif k == 4:
            n = "long_" + "x" * r.randint(50, 200)
        else:
            n = "".join(r.choice("abcxyzABCXYZ_0189") for _ in range(r.randint(1, 14)))
        if n and re.fullmatch(r"[A-Za-z][A-Za-z0-9_]*", n) and n not in KEYWORDS and n not in used and "__" not in n:
            used.add(n)
            return n


def q(s):
    out = '"'
    for c in s.encode("utf-8", "surrogateescape"):
        out += chr(c) if 32 <= c < 127 and chr(c) not in '"\\?' else '\\%03o' % c
    return out + '"'


def strange(r, names):
    n = r.choice(sorted(names))
    c = [n + " ", " " + n, n[:-1], n + n[-1], n.upper(), n.lower(), n.swapcase(), "", "0", "1", n + "\n", "::" + n, n + ",", '"%s"' % n,
         n.replace("_", " "), n[1:], "\xf1" + n, "value", "NAMES", str(len(names)), "-1"]
    return sorted({x for x in r.sample(c, 8) if x not in names} | ({""} if "" not in names else set()))


HEAD = r'''
#include <cstdio>
#include <cstring>
#include <iostream>
#include <sstream>
#include <stdexcept>
static long checks = 0;
static void no(const char* key, const std::string& s) { std::string t = std::string("VIOL ") + key + " " + s; for (auto& c : t) if (c == '\n') c = ' '; puts(t.c_str()); }
#define SAY(cond, key, text) do { ++checks; if (!(cond)) no(key, text); } while (0)
'''


def checks_for(ns, enum, names, bad, macro):
    """Statements that check one generated enumeration"""
    p = "::".join(ns + [""]) if ns else "::"
    E = p + enum
    exc = "eprosima::utils::InitializationException" if macro else "std::invalid_argument"
    o = []
    o.append("static_assert(%sN_VALUES_%s == %d, \"\"); static_assert(std::tuple_size<decltype(%sNAMES_%s)>::value == %d, \"\");"
             % (p, enum, len(names), p, enum, len(names)))
    o.append("std::vector<std::string> names{%s};" % ", ".join(q(n) for n in names))
    o.append("SAY(%sstring_vector_%s() == names, \"names\", \"string_vector of %s\");" % (p, enum, enum))
    o.append("SAY(std::vector<std::string>(%sNAMES_%s.begin(), %sNAMES_%s.end()) == names, \"names\", \"NAMES of %s\");" % (p, enum, p, enum, enum))
    if macro:
        o.append("auto all = %sall_values_%s(); SAY(all.size() == %d && %sVALUES_%s == all, \"values\", \"all values of %s\");" % (p, enum, len(names), p, enum, enum))
    for i, n in enumerate(names):
        o.append("{ std::string n = %s; const auto e = %s::%s; SAY(static_cast<int>(e) == %d, \"values\", n);" % (q(n), E, n, i))
        o.append("SAY(to_string(e) == n, \"to_string\", n + \" is \" + to_string(e)); std::ostringstream os; os << e; SAY(os.str() == n, \"print\", n);")
        o.append("try { SAY(%sfrom_string_%s(n) == e, \"from_string\", n + \" in %s\"); } catch (const std::exception& x) { no(\"from_string\", n + \" not known in %s\"); }" % (p, enum, enum, enum))
        o.append("SAY(%sfrom_string_%s(to_string(e)) == e, \"round-trip\", n);" % (p, enum))
        if macro:
            o.append("SAY(all[%d] == e && %sVALUES_%s[%d] == e, \"values\", n); " % (i, p, enum, i))
            o.append("%s f = static_cast<%s>(%d); SAY(string_to_enumeration(n, f) && f == e, \"string_to_enumeration\", n + \" in %s\");" % (E, E, (i + 1) % len(names), enum))
        o.append("}")
    for b in bad:
        o.append("{ std::string n(%s, %d); bool thrown = false; try { %sfrom_string_%s(n); } catch (const %s&) { thrown = true; }" % (q(b), len(b.encode("utf-8", "surrogateescape")), p, enum, exc))
        o.append("SAY(thrown, \"accepted\", \"'\" + n + \"' in %s\");" % enum)
        if macro:
            o.append("%s f = %s::%s; SAY(!string_to_enumeration(n, f), \"accepted\", \"'\" + n + \"' in %s\");" % (E, E, names[-1], enum))
        o.append("}")
    o.append("{ std::string n(%s, %d); bool thrown = false; try { %sfrom_string_%s(n); } catch (const %s&) { thrown = true; } SAY(thrown, \"accepted\", n); }"
             % (q(names[0]) + ' "\\0"', len(names[0]) + 1, p, enum, exc))
    return "{ " + "\n".join(o) + " }\n"


def generator(r, d, enum, names, k):
    """Runs the code generator. Returns (path to include, namespaces)."""
    ns = r.choice([["eprosima"], ["eprosima", "utils"], ["a_%d" % k], ["a_%d" % k, "b", "c"]])
    sep = r.choice([";", ","]) if len(names) > 1 else ""
    vals = sep.join(r.choice(["", " ", "  "]) + n + r.choice(["", " "]) for n in names)
    if sep and r.random() < 0.25:
        vals += sep + r.choice(["", " "])
    args = [r.choice(["-e", "--enum"]), enum, r.choice(["-v", "--values"]), vals]
    if ns != ["eprosima"] or r.random() < 0.5:
        args += [r.choice(["-n", "--namespaces"]), r.choice([";", " ; ", ","] if len(ns) > 1 else [""]).join(ns)]
    out = "%s.hpp" % enum
    if r.random() < 0.7:
        out = r.choice(["gen_%d.hpp", "deep_%d/er/gen.hpp", "./gen_%d.hpp"]) % k
        args += [r.choice(["-o", "--output"]), out]
    if r.random() < 0.2:
        args.append("-d")
    p = subprocess.run([sys.executable, "-B", GEN] + args, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        v.viol("generator-fails", "%s: %s" % (args, p.stdout[-400:]))
        return None, ns
    path = os.path.join(d, out)
    if not os.path.exists(path):
        v.viol("generator-no-file", "%s did not write %s" % (args, out))
        return None, ns
    v.count("generated_files")
    v.seen("sequences", (len(names), sep, vals[-1:], len(ns)))
    return path, ns


def program(r):
    d = os.path.join(v.tmp, "prog")
    subprocess.run(["rm", "-rf", d])
    os.makedirs(d)
    used_enums, decl, body, first = set(), "", [], []
    sizes = list(range(1, 19))
    r.shuffle(sizes)
    for k, n in enumerate(sizes[:9] + [18, 1, r.randint(2, 17)]):
        enum = "E%d_%s" % (k, ident(r, used_enums)[:20])
        used = set()
        names = [ident(r, used) for _ in range(n)]
        ns = r.choice([[], ["x"], ["eprosima", "utils"], ["n%d" % k, "m"]])
        sep = r.choice([", ", ",", ",\n    "])
        decl += "".join("namespace %s { " % x for x in ns) + "ENUMERATION_BUILDER(%s,%s);" % (enum, r.choice([" ", "\n    "]) + sep.join(names)) + " }" * len(ns) + "\n"
        body.append(checks_for(ns, enum, names, strange(r, set(names)), True))
        v.seen("sequences", (n, names))
        v.count("enumerations")
        v.sample("ENUMERATION_BUILDER(%s, %s)" % (enum, ", ".join(names)))
    for k in range(8):
        enum = "G%d_%s" % (k, ident(r, used_enums)[:20])
        used = set()
        names = [ident(r, used) for _ in range(r.choice([1, 2, 3, 5, 18, 19, 40]))]
        path, ns = generator(r, d, enum, names, k)
        v.count("enumerations")
        if path:
            first.append(path)
            decl = '#include "%s"\n' % path + decl
            body.append(checks_for(ns, enum, names, strange(r, set(names)), False))
    # builders declared by macro
    for k in range(5):
        used, strings = set(), set()
        names = [ident(r, used) for _ in range(r.randint(1, 12))]
        enum = "B%d" % k
        alias = {}
        for n in names:
            if r.random() < 0.1:
                continue          # not all the values have names
            alias[n] = []
            for _ in range(r.randint(1, 4)):
                s = r.choice([n, n.upper(), "let's try this", "%d" % r.randrange(100), "a,b", "with \"quotes\"", "\xf1and\xfa", n + " ", " ", "tab\t", "x" * 300, n[::-1]])
                if s not in strings:
                    strings.add(s)
                    alias[n].append(s)
        decl += "enum class %s { %s };\n" % (enum, ", ".join(names))
        decl += "eProsima_ENUMERATION_BUILDER(%s_Builder, %s, { %s });\n" % (enum, enum, " COMMA ".join(
            "{ %s::%s COMMA std::set<std::string>{ %s } }" % (enum, n, " COMMA ".join("std::string(%s)" % q(s) for s in a)) for n, a in alias.items()))
        o = ["auto b = %s_Builder::get_shared_instance(); SAY(b.get() == %s_Builder::get_instance() && b, \"builder\", \"no builder\");" % (enum, enum)]
        for n, a in alias.items():
            for s in a:
                o.append("{ %s e = static_cast<%s>(-1); SAY(b->string_to_enumeration(%s, e) && e == %s::%s, \"builder\", %s); SAY(b->string_to_enumeration(%s) == %s::%s, \"builder\", %s); }"
                         % (enum, enum, q(s), enum, n, q(s), q(s), enum, n, q(s)))
        for s in strange(r, set(names)) + names:
            if s not in strings:
                o.append("{ %s e; SAY(!b->string_to_enumeration(std::string(%s), e), \"accepted\", %s); bool t = false; try { b->string_to_enumeration(std::string(%s)); } "
                         "catch (const eprosima::utils::ValueNotAllowedException&) { t = true; } SAY(t, \"accepted\", %s); }" % (enum, q(s), q(s), q(s), q(s)))
        body.append("{ " + "\n".join(o) + " }\n")
        v.count("enumerations")
    with open(os.path.join(d, "decl.hpp"), "w") as f:
        f.write("#pragma once\n" + decl)
    with open(os.path.join(d, "main.cpp"), "w") as f:
        pre = "#include <cpp_utils/enum/EnumBuilder.hpp>\n#include <cpp_utils/macros/custom_enumeration.hpp>\n"
        f.write(pre + '#include "decl.hpp"\n' + HEAD + "long other();\n")
        for i, b in enumerate(body):
            f.write("static void f%d() %s" % (i, "{" + b + "}\n"))
        f.write("int main() { %s printf(\"CHECKS %%ld\\n\", checks + other()); }\n" % " ".join("f%d();" % i for i in range(len(body))))
    with open(os.path.join(d, "other.cpp"), "w") as f:
        # the same declarations in another file of the program; generated files stand on their own
        f.write("".join('#include "%s"\n' % p for p in first) + "#include <iostream>\n"
                + "#include <cpp_utils/macros/custom_enumeration.hpp>\n#include <cpp_utils/enum/EnumBuilder.hpp>\n#include \"decl.hpp\"\n"
                + HEAD + "long other() { %s return checks; }\n" % body[0])
    flags = ["-std=c++17", "-O0", "-w", "-DNDEBUG", "-I" + os.path.join(HERE, "stub"), "-I" + INC, "-I" + SRC,
             "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
    objs = []
    for f in ["main.cpp", "other.cpp"] + ([] if os.path.exists(lib_obj(0)) else ["lib"]):
        if f == "lib":
            for i, s in enumerate(LIB):
                subprocess.run(["clang++", "-c", s, "-o", lib_obj(i)] + flags, check=True)
            continue
        o = os.path.join(d, f + ".o")
        p = subprocess.run(["clang++", "-c", os.path.join(d, f), "-o", o] + flags, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode:
            p = subprocess.run(["clang++", "-c", os.path.join(d, f), "-o", o] + flags, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode:
            v.viol("does-not-compile", p.stdout[:900])
            return
        objs.append(o)
    exe = os.path.join(d, "prog")
    p = subprocess.run(["clang++", "-fuse-ld=lld", "-fsanitize=address,undefined", "-pthread", "-o", exe] + objs + [lib_obj(i) for i in range(len(LIB))],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        v.viol("does-not-link", p.stdout[:900])
        return
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0", UBSAN_OPTIONS="print_stacktrace=1")
    p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=60)
    done = False
    for ln in p.stdout.decode("utf-8", "replace").splitlines():
        if ln.startswith("VIOL "):
            v.viol(ln.split()[1], ln)
        elif ln.startswith("CHECKS "):
            done = True
            v.count("steps", int(ln.split()[1]))
    v.check(done and p.returncode == 0, "program-ends", "generated program ended with %d: %s" % (p.returncode, p.stderr.decode("utf-8", "replace")[-700:]))
    v.count("programs")
    subprocess.run(["rm", "-rf", d])


LIB = [os.path.join(SRC, f) for f in ("exception/Exception.cpp", "Formatter.cpp", "utils.cpp", "math/math_extension.cpp")] \
    + [os.path.join(HERE, "stub", "FastDdsLog.cpp")]


def lib_obj(i):
    return os.path.join(v.tmp, "lib%d.o" % i)


v.batches("program", 16, program, watchdog=200)
v.finish()
