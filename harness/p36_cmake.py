"""P36: the CMake helpers, installed to a scratch prefix and used by generated projects, that are configured, built,
installed, consumed and tested in scratch directories."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
sys.path.insert(0, __file__.rsplit("/", 1)[0] + "/common")
from vf import V

v = V()
ENV = {k: x for k, x in os.environ.items() if not k.startswith(("CMAKE", "CXX", "CC", "LD", "DESTDIR", "CTEST", "CFLAGS", "GTEST", "GMOCK"))}
ENV.update(CC="gcc", CXX="g++", LC_ALL="C", GIT_CEILING_DIRECTORIES=v.tmp)
BASE = tempfile.mkdtemp(prefix="p36.", dir=v.tmp)
NOTHING = object()


def cmd(*a, cwd=None, limit=240):
    p = subprocess.run([str(x) for x in a], cwd=cwd or BASE, env=ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=limit)
    v.count("commands")
    return p.returncode, p.stdout


def tail(out):
    lines = [s for s in out.splitlines() if s.strip()]
    at = next((i for i, s in enumerate(lines) if "rror" in s), max(0, len(lines) - 6))
    return " / ".join(lines[at:at + 8])[:700]


def write(path, text, mode="w"):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, mode) as f:
        f.write(text)


PREFIX = os.path.join(BASE, "utils prefix")


def install_utils():
    """The package itself: configured, installed, complete."""
    src = os.path.join(v.repo, "cmake_utils")
    b = os.path.join(BASE, "b_utils")
    rc, out = cmd("cmake", "-S", src, "-B", b, "-G", "Ninja", "-DCMAKE_INSTALL_PREFIX=" + PREFIX)
    v.check(rc == 0, "utils-not-configured", lambda: tail(out))
    rc2, out2 = cmd("cmake", "--install", b)
    v.check(rc2 == 0, "utils-not-installed", lambda: tail(out2))
    v.count("steps", 2)
    return rc == 0 and rc2 == 0


installed = None


def utils():
    global installed
    if installed is None:
        installed = install_utils()
    return installed


def text_of_file(p):
    with open(p, errors="replace") as f:
        return f.read()


class Project:
    def __init__(self, r):
        self.dir = tempfile.mkdtemp(prefix="proj.", dir=BASE)
        self.src = os.path.join(self.dir, r.choice(["module", "the module", "m"]))
        self.build = os.path.join(self.dir, "build")
        self.prefix = os.path.join(self.dir, r.choice(["inst", "an inst"]))
        os.makedirs(self.src)
        write(self.dir + "/LICENSE", "the licence\n")

    def configure(self, *args):
        return cmd("cmake", "-S", self.src, "-B", self.build, "-G", "Ninja", "-DCMAKE_INSTALL_PREFIX=" + self.prefix, "-Dcmake_utils_DIR=" + PREFIX + "/share/cmake_utils/cmake",
                   "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON", *args)

    def make(self):
        return cmd("ninja", "-C", self.build)

    def install(self):
        return cmd("cmake", "--install", self.build)

    def remove(self):
        shutil.rmtree(self.dir, ignore_errors=True)


HEAD = """cmake_minimum_required(VERSION 3.5)
find_package(cmake_utils REQUIRED)
configure_project()
project(${MODULE_NAME} VERSION ${MODULE_VERSION} DESCRIPTION ${MODULE_DESCRIPTION} LANGUAGES %s)
"""
VARS = ["MODULE_NAME", "MODULE_TARGET_NAME", "MODULE_NAME_LARGE", "MODULE_SUMMARY", "MODULE_DESCRIPTION", "MODULE_MACRO", "MODULE_HEADERS_PATH", "MODULE_HEADERS_INSTALL_PATH",
        "MODULE_FIND_PACKAGES", "MODULE_DEPENDENCIES", "MODULE_THIRDPARTY_PATH", "MODULE_PUBLIC_EXTRA_HEADERS", "MODULE_PRIVATE_EXTRA_HEADERS", "MODULE_VERSION_FILE_PATH",
        "MODULE_VERSION_MAJOR", "MODULE_VERSION_MINOR", "MODULE_VERSION_PATCH", "MODULE_VERSION", "MODULE_VERSION_STRING", "MODULE_LICENSE_FILE_PATH",
        "MODULE_BIN_INSTALL_DIR", "MODULE_INCLUDE_INSTALL_DIR", "MODULE_LIB_INSTALL_DIR", "MODULE_DATA_INSTALL_DIR"]
OPTIONS = ["BUILD_TESTS", "BUILD_DOCS_TESTS", "BUILD_TOOL_TESTS", "BUILD_LIBRARY_TESTS", "BUILD_ALL", "BUILD_DOCS", "BUILD_TOOL", "BUILD_LIBRARY", "CODE_COVERAGE", "TSAN_BUILD", "ASAN_BUILD",
           "CMAKE_BUILD_TYPE", "LOG_INFO"]
ON = {"ON", "TRUE", "1", "YES"}


def is_on(x):
    return x in ON


def version_text(r):
    """A version file and its three numbers."""
    n = [r.choice([0, 1, 2, 7, 10, 123]) for _ in range(3)]
    lines = ["VERSION_%s %d" % x for x in zip(("MAJOR", "MINOR", "PATCH"), n)]
    if r.random() < 0.3:
        r.shuffle(lines)
    if r.random() < 0.2:
        lines.insert(r.randrange(len(lines) + 1), r.choice(["", "# a comment", "the version"]))
    return "\n".join(lines) + r.choice(["", "\n", "\n\n"]), n


def settings(r):
    """Every variable after configure_project() is the one set, or its documented default."""
    if not utils():
        return
    for _ in range(3):
        p = Project(r)
        try:
            text, n = version_text(r)
            given = {"MODULE_NAME": r.choice(["mod", "my_module", "Module2", "a-module"])}
            word = lambda: r.choice(["x", "two words", "v1.2", "a-b", "UP_low", "(paren)", "it's"])
            for k in ["MODULE_TARGET_NAME", "MODULE_NAME_LARGE", "MODULE_SUMMARY", "MODULE_DESCRIPTION", "MODULE_HEADERS_PATH", "MODULE_HEADERS_INSTALL_PATH",
                      "MODULE_DEPENDENCIES", "MODULE_THIRDPARTY_PATH", "MODULE_PUBLIC_EXTRA_HEADERS", "MODULE_PRIVATE_EXTRA_HEADERS"]:
                if r.random() < 0.25:
                    given[k] = word()
            if r.random() < 0.2:
                given["MODULE_MACRO"] = "OWN_MACRO"
            if r.random() < 0.15:
                given["MODULE_FIND_PACKAGES"] = "NoSuchPackage"
            vfile = os.path.join(p.dir, "VERSION")
            if r.random() < 0.25:
                vfile = os.path.join(p.dir, "other place", "the version.txt")
                given["MODULE_VERSION_FILE_PATH"] = vfile
                write(p.dir + "/VERSION", "VERSION_MAJOR 99\nVERSION_MINOR 98\nVERSION_PATCH 97\n")
            write(vfile, text)
            x = r.random()
            own = None
            if x < 0.25:
                own = [r.choice([0, 3, 44]) for _ in range(3)]
                given.update(zip(("MODULE_VERSION_MAJOR", "MODULE_VERSION_MINOR", "MODULE_VERSION_PATCH"), map(str, own)))
                if r.random() < 0.5:
                    given["MODULE_VERSION"] = "%d.%d.%d" % tuple(own)
            if r.random() < 0.15:
                given["MODULE_VERSION_STRING"] = "a string"
            if r.random() < 0.2:
                for k in ("BIN", "INCLUDE", "LIB", "DATA"):
                    if r.random() < 0.5:
                        given["MODULE_%s_INSTALL_DIR" % k] = "own_" + k.lower()
            opts = {o: r.choice(["ON", "OFF", "TRUE", "0"]) for o in OPTIONS[:8] if r.random() < 0.25}
            if r.random() < 0.4:
                opts["CMAKE_BUILD_TYPE"] = r.choice(["Debug", "Release", "RelWithDebInfo"])
            if r.random() < 0.25:
                opts["LOG_INFO"] = r.choice(["ON", "OFF"])
            order = list(given.items())
            r.shuffle(order)
            write(p.src + "/project_settings.cmake", "".join('set(%s "%s")\n' % kv for kv in order))
            dump = "".join('file(APPEND "${CMAKE_BINARY_DIR}/vars" "%s\\n${%s}\\n")\n' % (k, k) for k in VARS + OPTIONS + ["MODULE_LICENSE_INSTALL_DIR", "PROJECT_NAME", "PROJECT_VERSION", "PROJECT_VERSION_MAJOR"])
            write(p.src + "/CMakeLists.txt", HEAD % "NONE" + dump)
            rc, out = p.configure(*["-D%s=%s" % kv for kv in opts.items()])
            told = "settings %s, options %s, version file %r" % (given, opts, text)
            v.check(rc == 0, "not-configured", lambda: "%s: %s" % (told, tail(out)))
            if rc:
                continue
            lines = text_of_file(p.build + "/vars").split("\n")
            got = dict(zip(lines[0::2], lines[1::2]))
            num = own if own else n
            name = given["MODULE_NAME"]
            want = dict(given)
            ver = "%d.%d.%d" % tuple(num)
            summary = given.get("MODULE_SUMMARY", None if "MODULE_NAME_LARGE" in given else name)
            for k, d in [("MODULE_TARGET_NAME", name), ("MODULE_NAME_LARGE", name), ("MODULE_SUMMARY", summary),
                         ("MODULE_DESCRIPTION", summary), ("MODULE_MACRO", name.upper()), ("MODULE_HEADERS_PATH", name), ("MODULE_HEADERS_INSTALL_PATH", given.get("MODULE_HEADERS_PATH", name)),
                         ("MODULE_FIND_PACKAGES", ""), ("MODULE_DEPENDENCIES", given.get("MODULE_FIND_PACKAGES", "")), ("MODULE_PUBLIC_EXTRA_HEADERS", ""), ("MODULE_PRIVATE_EXTRA_HEADERS", ""),
                         ("MODULE_VERSION_MAJOR", str(num[0])), ("MODULE_VERSION_MINOR", str(num[1])), ("MODULE_VERSION_PATCH", str(num[2])), ("MODULE_VERSION", ver), ("MODULE_VERSION_STRING", "v" + ver),
                         ("MODULE_BIN_INSTALL_DIR", "bin/"), ("MODULE_INCLUDE_INSTALL_DIR", "include/"), ("MODULE_LIB_INSTALL_DIR", "lib/"), ("MODULE_DATA_INSTALL_DIR", "share/"), ("PROJECT_NAME", name), ("PROJECT_VERSION", ver)]:
                w = want.setdefault(k, d)
                if w is None:
                    continue
                a, b = got[k], w
                if k.endswith("INSTALL_DIR"):
                    a, b = a.rstrip("/"), b.rstrip("/")
                v.check(a == b, "setting", lambda: "%s is %r instead of %r with %s" % (k, got[k], w, told))
                v.count("steps")
            for k, rel in [("MODULE_THIRDPARTY_PATH", "../thirdparty"), ("MODULE_VERSION_FILE_PATH", "../VERSION"), ("MODULE_LICENSE_FILE_PATH", "../LICENSE")]:
                w = given.get(k) or os.path.normpath(os.path.join(p.src, rel))
                v.check(got[k] == w or os.path.normpath(got[k]) == w, "setting", lambda: "%s is %r with %s" % (k, got[k], told))
            # options: as given, else their documented default
            o = dict(opts)
            o.setdefault("BUILD_TESTS", "OFF")
            for k in ("BUILD_DOCS_TESTS", "BUILD_TOOL_TESTS", "BUILD_LIBRARY_TESTS", "BUILD_ALL"):
                o.setdefault(k, o["BUILD_TESTS"])
            if "BUILD_DOCS" not in opts:
                # the documentation has the second, the comment in the code the first too
                o["BUILD_DOCS"] = o["BUILD_DOCS_TESTS"] if is_on(o["BUILD_ALL"]) == is_on(o["BUILD_DOCS_TESTS"]) else None
            for k in ("BUILD_TOOL", "BUILD_LIBRARY"):
                o.setdefault(k, "ON")
            for k in ("CODE_COVERAGE", "TSAN_BUILD", "ASAN_BUILD"):
                o.setdefault(k, "OFF")
            o.setdefault("CMAKE_BUILD_TYPE", "Release")
            o.setdefault("LOG_INFO", "ON" if o["CMAKE_BUILD_TYPE"] == "Debug" else "OFF")
            for k, w in o.items():
                if w is not None:
                    ok = got[k] == w if k == "CMAKE_BUILD_TYPE" else is_on(got[k]) == is_on(w)
                    v.check(ok, "option", lambda: "%s is %r instead of %r with %s" % (k, got[k], w, told))
                    v.count("steps")
            v.seen("sequences", sorted(given.items()) + sorted(opts.items()) + n)
            v.sample("settings %s options %s version %s" % (given, opts, ver))
        finally:
            p.remove()


def refusals(r):
    """What is refused: building in the sources, no name, no version file, unknown C++ versions, two sanitizers."""
    if not utils():
        return
    p = Project(r)
    try:
        kind = r.randrange(6)
        write(p.dir + "/VERSION", "VERSION_MAJOR 1\nVERSION_MINOR 2\nVERSION_PATCH 3\n")
        write(p.src + "/project_settings.cmake", "" if kind == 0 else 'set(MODULE_NAME "mod")\n' + ('set(MODULE_CPP_VERSION %s)\n' % r.choice(["03", "98", "C++98", "7"]) if kind == 2 else "")
              + ("set(MODULE_FIND_PACKAGES NoSuchPackage)\n" if kind == 5 else ""))
        write(p.src + "/CMakeLists.txt", HEAD % "CXX" + "configure_project_cpp()\n")
        args = []
        if kind == 1:
            p.build = p.src
        if kind == 3:
            args = ["-DTSAN_BUILD=ON", "-DASAN_BUILD=ON"]
        if kind == 4:
            os.remove(p.dir + "/VERSION")
        rc, out = p.configure(*args)
        v.check(rc != 0, "not-refused", lambda: ["no MODULE_NAME", "a build in the sources", "an unknown C++ version", "two sanitizers", "no version file", "a missing package"][kind] + " was accepted")
        v.count("steps")
        v.seen("sequences", ("refusal", kind))
    finally:
        p.remove()


def tree(r, depth=3):
    """Directories of a source tree."""
    dirs = [""]
    for _ in range(r.randrange(0, 4)):
        d = r.choice(dirs)
        if d.count("/") < depth:
            dirs.append(d + r.choice(["one/", "two/", "deep dir/" if r.random() < 0.2 else "d/"]))
    return list(dict.fromkeys(dirs))


def library(r):
    """A library: all the sources compiled, headers and package installed, found and used by another project."""
    if not utils():
        return
    p = Project(r)
    try:
        name = r.choice(["mylib", "lib_two", "lib3-dev"])
        macro = "LIB_3" if "-" in name or r.random() < 0.2 else name.upper()
        num = [r.randrange(0, 4), r.randrange(0, 12), r.randrange(0, 30)]
        write(p.dir + "/VERSION", "VERSION_MAJOR %d\nVERSION_MINOR %d\nVERSION_PATCH %d\n" % tuple(num))
        cpp = r.choice([None, "11", "14", "17", "20", "C++17"])
        resources = r.random() < 0.4
        extra = r.random() < 0.4
        third = r.random() < 0.4
        hpath = r.choice([name] * 3 + ["api_of_lib", "nested/api"])
        hinst = r.choice([hpath] * 3 + ["own_place", "own/nested"])
        dirs = {k: d for k, d in [("BIN", "programs"), ("INCLUDE", "own_include"), ("LIB", "own/lib"), ("DATA", "own share"), ("LICENSE", "licences/here")] if r.random() < 0.25}
        inc, lib, data = dirs.get("INCLUDE", "include"), dirs.get("LIB", "lib"), dirs.get("DATA", "share")
        public = r.random() < 0.3
        tdir = r.choice([None, None, p.dir + "/other third"])
        lfile = r.choice([None, None, p.dir + "/COPYING"])
        if lfile:
            os.rename(p.dir + "/LICENSE", lfile)
        write(p.src + "/project_settings.cmake", "set(MODULE_NAME %s)\n" % name + "".join('set(MODULE_%s_INSTALL_DIR "%s")\n' % kv for kv in dirs.items())
              + ('set(MODULE_HEADERS_PATH "%s")\n' % hpath if hpath != name else "") + ('set(MODULE_HEADERS_INSTALL_PATH "%s")\n' % hinst if hinst != hpath else "")
              + ('set(MODULE_PUBLIC_EXTRA_HEADERS "$<BUILD_INTERFACE:%s/public extra>")\n' % p.dir if public else "") + ('set(MODULE_THIRDPARTY_PATH "%s")\n' % tdir if tdir else "")
              + ('set(MODULE_LICENSE_FILE_PATH "%s")\n' % lfile if lfile else "") + ("set(MODULE_MACRO %s)\n" % macro if macro != name.upper() else "") + ("set(MODULE_CPP_VERSION %s)\n" % cpp if cpp else "") + ("set(MODULE_RESOURCES_PATH res)\n" if resources else "")
              + ('set(MODULE_PRIVATE_EXTRA_HEADERS "%s/private extra")\n' % p.dir if extra else "") + ("set(MODULE_THIRDPARTY_HEADERONLY tp)\n" if third else ""))
        explicit = r.random() < 0.2
        shared = r.choice([None, "ON", "OFF"])
        funcs, headers, other = [], [], []
        srcs = []
        for d in tree(r):
            for k in range(r.randrange(0, 3) + (d == "")):
                ext = r.choice(["cpp", "cxx", "c", "cpp"])
                f = "f_%d" % len(funcs)
                funcs.append(f)
                srcs.append("src/cpp/%s%s.%s" % (d, f, ext))
                body = '#include <%s/library/config.h>\n' % name + ('#include "own extra.h"\n' if extra else "") + ("#include <tp_header.h>\n" if third else "") + ("#include <public.h>\n" if public else "")
                body += ('extern "C" ' if ext != "c" else "") + "int %s(void) { return %d%s%s%s; }\n" % (f, len(funcs), " + EXTRA - 7" if extra else "", " + TP - 8" if third else "", " + PUB - 9" if public else "")
                write(p.src + "/" + srcs[-1], body)
            write(p.src + "/src/cpp/%snotes.txt" % d, "not a source")
        for d in tree(r):
            for ext in r.sample(["h", "hpp", "ipp", "md", "cpp.bak"], r.randrange(1, 4)):
                h = "%sx%d.%s" % (d, len(headers) + len(other), ext)
                (headers if ext in ("h", "hpp", "ipp") else other).append(h)
                write(p.src + "/include/%s/%s" % (hpath, h), "#define X%d\n" % (len(headers) + len(other)))
        write(p.src + "/include/%s/all.h" % hpath, "#ifdef __cplusplus\nextern \"C\" {\n#endif\n" + "".join("int %s(void);\n" % f for f in funcs) + "#ifdef __cplusplus\n}\n#endif\n")
        headers.append("all.h")
        if resources:
            write(p.src + "/res/a.txt", "resource a")
            write(p.src + "/res/sub/b.yaml", "resource b")
        if extra:
            write(p.dir + "/private extra/own extra.h", "#define EXTRA 7\n")
        if third:
            write((tdir or p.dir + "/thirdparty") + "/tp/tp_header.h", "#define TP 8\n")
        if public:
            write(p.dir + "/public extra/public.h", "#define PUB 9\n")
        unused = None
        if explicit:
            unused = "src/cpp/unused.cpp"
            write(p.src + "/" + unused, "#error this source is not in the list\n")
            call = 'set(LIST %s)\ncompile_library("${PROJECT_SOURCE_DIR}/src/cpp" "${PROJECT_SOURCE_DIR}/include" "${LIST}")\n' % " ".join('"${PROJECT_SOURCE_DIR}/%s"' % s for s in srcs)
        else:
            call = 'compile_library("${PROJECT_SOURCE_DIR}/src/cpp" "${PROJECT_SOURCE_DIR}/include")\n'
        write(p.src + "/CMakeLists.txt", "cmake_minimum_required(VERSION 3.5)\nenable_language(CXX)\n" + (HEAD % "C CXX").split("\n", 1)[1] + "configure_project_cpp()\n" + call + "eprosima_packaging()\n")
        args = []
        if shared:
            args.append("-DBUILD_SHARED_LIBS=" + shared)
        btype = r.choice([None, "Debug", "RelWithDebInfo"])
        if btype:
            args.append("-DCMAKE_BUILD_TYPE=" + btype)
        log = r.choice([None, "ON", "OFF"])
        if log:
            args.append("-DLOG_INFO=" + log)
        off = r.random() < 0.1
        if off:
            args.append("-DBUILD_LIBRARY=OFF")
        flags = r.choice([None, None, "CODE_COVERAGE", "TSAN_BUILD", "ASAN_BUILD"])
        if flags:
            args.append("-D%s=ON" % flags)
        told = "library %s of %s with %s, C++ %s%s" % (name, srcs, args, cpp, "".join([", headers of %s" % hpath if hpath != name else "", " installed in %s" % hinst if hinst != hpath else "", ", places %s" % dirs if dirs else ""]))
        rc, out = p.configure(*args)
        v.check(rc == 0, "not-configured", lambda: told + ": " + tail(out))
        if rc:
            return
        # how it is compiled
        cc = json.loads(text_of_file(p.build + "/compile_commands.json")) if os.path.exists(p.build + "/compile_commands.json") else []
        compiled = sorted(os.path.relpath(c["file"], p.src) for c in cc)
        v.check(compiled == ([] if off else sorted(srcs)), "sources", lambda: "%s compiles %s" % (told, compiled))
        for c in cc:
            a = c["command"]
            v.check(("-fsanitize=thread" in a) == (flags == "TSAN_BUILD") and ("-fsanitize=address" in a) == (flags == "ASAN_BUILD") and ("--coverage" in a) == (flags == "CODE_COVERAGE"), "flags", lambda: told + ": " + a)
            v.check(("-DFASTDDS_ENFORCE_LOG_INFO" in a) == ((log or ("ON" if btype == "Debug" else "OFF")) == "ON"), "flags", lambda: told + ": " + a)
            v.check({"Debug": "-g", "RelWithDebInfo": "-O2", None: "-O3"}[btype] in a.split() and ("-DNDEBUG" in a) == (btype != "Debug"), "flags", lambda: told + ": " + a)
            v.check("-D%s_SOURCE" % macro in a, "flags", lambda: told + ": " + a)
            if cpp and not c["file"].endswith(".c"):
                v.check(any("-std=%s++%s" % (s, y) in a for s in ("gnu", "c") for y in {"11": ("11", "0x"), "14": ("14", "1y"), "17": ("17", "1z"), "20": ("20", "2a")}[cpp[-2:]]), "cpp-version", lambda: told + ": " + a)
            v.count("steps", 4)
        rc, out = p.make()
        v.check(rc == 0, "not-built", lambda: told + ": " + tail(out))
        rc2, out2 = p.install()
        v.check(rc2 == 0, "not-installed", lambda: told + ": " + tail(out2))
        if rc or rc2:
            return
        have = sorted(os.path.relpath(os.path.join(d, f), p.prefix) for d, _, fs in os.walk(p.prefix) for f in fs)
        inst = inc + "/" + hinst + "/"
        want = [] if off else sorted([inst + h for h in headers] + [inst + "library/" + h for h in ("config.h", "eProsima_auto_link.h", "library_dll.h")])
        v.check([h for h in have if h.startswith(inc + "/")] == want, "headers", lambda: "%s installed the headers %s instead of %s" % (told, [h for h in have if h.startswith(inc + "/")], want))
        v.check(any(h.endswith("/COPYING" if lfile else "/LICENSE") and h.startswith(dirs.get("LICENSE", data) + "/") and text_of_file(os.path.join(p.prefix, h)) == "the licence\n" for h in have), "licence", lambda: "%s installed %s" % (told, have))
        res = {os.path.relpath(h, data + "/resources"): text_of_file(os.path.join(p.prefix, h)) for h in have if h.startswith(data + "/resources/")}
        v.check(res == ({"a.txt": "resource a", "sub/b.yaml": "resource b"} if resources else {}), "resources", lambda: "%s installed the resources %s" % (told, res))
        v.count("steps", 3)
        v.seen("sequences", ("library", name, num, srcs, args, cpp, resources, extra, third, explicit, hpath, hinst, sorted(dirs), public, tdir, lfile))
        if off:
            v.check(not any(h.startswith(lib + "/") for h in have), "option", lambda: "a library was installed with BUILD_LIBRARY=OFF: %s" % have)
            return
        libs = [h for h in have if h.startswith(lib + "/lib" + name)]
        v.check(libs == ([lib + "/lib%s.a" % name] if shared == "OFF" else sorted([lib + "/lib%s.so%s" % (name, s) for s in ("", ".%d" % num[0], ".%d.%d.%d" % tuple(num))])), "library-files", lambda: "%s installed %s" % (told, libs))
        # another project that uses it, and versions that it may ask for
        c = os.path.join(p.dir, "consumer")
        major, minor, patch = num
        asks = [None, "%d.%d.%d" % tuple(num), "%d.%d" % (major, minor), "%d.%d.%d" % (major, minor, patch + 1), "%d.%d" % (major, minor + 1), str(major + 1)] + (["%d.0" % (major - 1)] if major else []) + (["%d.%d.99" % (major, minor - 1)] if minor else [])
        write(c + "/CMakeLists.txt", "cmake_minimum_required(VERSION 3.5)\nproject(consumer LANGUAGES C CXX)\n"
              + "".join('find_package(%s %s QUIET CONFIG)\nfile(APPEND "${CMAKE_BINARY_DIR}/found" "${%s_FOUND}\\n")\n' % (name, a or "", name) for a in asks[1:])
              + 'find_package(%s REQUIRED CONFIG)\nfile(APPEND "${CMAKE_BINARY_DIR}/found" "${%s_VERSION}\\n${%s_INCLUDE_DIR}\\n")\nadd_executable(use use.cpp)\ntarget_link_libraries(use %s)\n' % (name, name, name, name))
        m = macro
        write(c + "/use.cpp", "#include <cstdio>\n#include <%s/all.h>\n#include <%s/library/config.h>\n#include <%s/library/library_dll.h>\nint main() { std::printf(\"%%d.%%d.%%d %%s %%s\\n\", %s_VERSION_MAJOR, %s_VERSION_MINOR, %s_VERSION_MICRO, %s_VERSION_STRING, %s_COMMIT_HASH);\n" % (hinst, hinst, hinst, m, m, m, m, m)
              + "".join("std::printf(\"%%d\\n\", %s());\n" % f for f in funcs) + "}\n")
        san = {"TSAN_BUILD": ["-DCMAKE_CXX_FLAGS=-fsanitize=thread"], "ASAN_BUILD": ["-DCMAKE_CXX_FLAGS=-fsanitize=address"], "CODE_COVERAGE": ["-DCMAKE_CXX_FLAGS=--coverage"]}.get(flags, [])
        rc, out = cmd("cmake", "-S", c, "-B", c + "/b", "-G", "Ninja", "-DCMAKE_PREFIX_PATH=" + p.prefix + ("/own" if lib == "own/lib" else ""), *san)
        v.check(rc == 0, "not-found", lambda: "%s is not usable: %s" % (told, tail(out)))
        if rc:
            return
        found = text_of_file(c + "/b/found").split("\n")
        for a, g in zip(asks[1:], found):
            t = [int(x) for x in a.split(".")]
            w = t[0] == major and t <= (num + [0])[:len(t)] or t == num
            v.check(is_on(g) == w, "version-compatibility", lambda: "version %s was%s accepted when asking for %s" % (num, "" if is_on(g) else " not", a))
            v.count("steps")
        v.check(found[len(asks) - 1] == "%d.%d.%d" % tuple(num), "version", lambda: "%s found as %s" % (told, found))
        rc, out = cmd("ninja", "-C", c + "/b")
        v.check(rc == 0, "not-usable", lambda: told + ": " + tail(out))
        if rc:
            return
        if flags != "TSAN_BUILD":
            rc, out = cmd(c + "/b/use")
            want = ["%d.%d.%d v%d.%d.%d" % tuple(num * 2)] + [str(i + 1) for i in range(len(funcs))]
            v.check(rc == 0 and [s.strip() for s in out.split("\n")][:len(want)] == want, "result", lambda: "%s: the consumer says %r instead of %s" % (told, out, want))
        v.count("steps", 2)
        v.sample(told)
    finally:
        p.remove()


def tool(r):
    """An executable: built from all the sources with its name and installed; dependencies found with their minimum versions."""
    if not utils():
        return
    p = Project(r)
    try:
        write(p.dir + "/VERSION", "VERSION_MAJOR 1\nVERSION_MINOR 2\nVERSION_PATCH 3\n")
        target = r.choice([None, "shown-name"])
        explicit = r.random() < 0.3
        bindir = r.choice([None, "programs"])
        off = r.random() < 0.15
        have = [r.randrange(0, 4), r.randrange(0, 4), r.randrange(0, 3)]
        least = r.choice([None, have, [have[0], have[1], have[2] + 1], [have[0] + 1, 0, 0], [have[0], max(0, have[1] - 1), 0], [0, 0, 1]])
        dep = p.dir + "/deps/lib/cmake/Dep"
        write(dep + "/DepConfig.cmake", "if(NOT TARGET Dep)\n  add_library(Dep INTERFACE)\n  target_compile_definitions(Dep INTERFACE DEP_VALUE=5)\nendif()\n")
        write(dep + "/DepConfigVersion.cmake", "set(PACKAGE_VERSION %d.%d.%d)\nif(NOT PACKAGE_FIND_VERSION VERSION_GREATER PACKAGE_VERSION)\n  set(PACKAGE_VERSION_COMPATIBLE TRUE)\nendif()\n" % tuple(have))
        write(p.src + "/project_settings.cmake", "set(MODULE_NAME mytool)\nset(MODULE_FIND_PACKAGES Dep)\n" + ("set(MODULE_TARGET_NAME %s)\n" % target if target else "") + ("set(MODULE_BIN_INSTALL_DIR %s)\n" % bindir if bindir else "")
              + ('set(Dep_MINIMUM_VERSION "%d.%d.%d")\n' % tuple(least) if least else ""))
        srcs = []
        for d in tree(r):
            srcs.append("src/cpp/%spart%d.%s" % (d, len(srcs), r.choice(["cpp", "cxx"])))
            write(p.src + "/" + srcs[-1], "int part%d() { return %d; }\n" % (len(srcs) - 1, len(srcs)))
        n = len(srcs)
        srcs.append("src/cpp/main.cpp")
        write(p.src + "/src/cpp/main.cpp", '#include <cstdio>\n#include "value.h"\n' + "".join("int part%d();\n" % i for i in range(n)) + "int main() { std::printf(\"%%d %%d\\n\", %s + VALUE, DEP_VALUE); }\n" % " + ".join("part%d()" % i for i in range(n)))
        write(p.src + "/src/cpp/value.h" if not explicit else p.src + "/headers/value.h", "#define VALUE 1000\n")
        if explicit:
            write(p.src + "/src/cpp/unused.cpp", "#error this source is not in the list\n")
            call = 'set(LIST %s)\ncompile_tool("${PROJECT_SOURCE_DIR}/src/cpp" "${LIST}" "${PROJECT_SOURCE_DIR}/headers")\n' % " ".join('"${PROJECT_SOURCE_DIR}/%s"' % s for s in srcs)
        else:
            call = 'compile_tool("${PROJECT_SOURCE_DIR}/src/cpp")\n'
        write(p.src + "/CMakeLists.txt", HEAD % "CXX" + "configure_project_cpp()\n" + call + "eprosima_packaging()\n")
        told = "tool with %s, target name %s, Dep %s at least %s" % (srcs, target, have, least)
        rc, out = p.configure("-DCMAKE_PREFIX_PATH=" + p.dir + "/deps", *(["-DBUILD_TOOL=OFF"] if off else []))
        refused = least is not None and least > have
        v.check((rc != 0) == refused, "minimum-version" if refused or least else "not-configured", lambda: told + (" was refused: " + tail(out) if rc else " was accepted"))
        v.count("steps")
        v.seen("sequences", ("tool", srcs, target, bindir, off, have, least))
        if rc or refused:
            return
        rc, out = p.make()
        v.check(rc == 0, "not-built", lambda: told + ": " + tail(out))
        rc2, out2 = p.install()
        v.check(rc2 == 0, "not-installed", lambda: told + ": " + tail(out2))
        if rc or rc2:
            return
        exe = os.path.join(p.prefix, bindir or "bin", target or "mytool")
        v.check(os.path.exists(exe) == (not off), "tool", lambda: "%s is%s installed, with BUILD_TOOL %s" % (exe, "" if off else " not", not off))
        if not off and os.path.exists(exe):
            rc, out = cmd(exe)
            v.check(rc == 0 and out == "%d 5\n" % (1000 + n * (n + 1) // 2), "result", lambda: "%s says %r" % (told, out))
        v.count("steps", 3)
        v.sample(told)
    finally:
        p.remove()


def tests(r):
    """Tests: added when asked for, each case one test that runs it alone, with its files and labels."""
    if not utils():
        return
    p = Project(r)
    try:
        write(p.dir + "/VERSION", "VERSION_MAJOR 1\nVERSION_MINOR 2\nVERSION_PATCH 3\n")
        write(p.src + "/project_settings.cmake", "set(MODULE_NAME mylib)\n")
        write(p.src + "/src/cpp/sub/a.cpp", "int a() { return 1; }\n")
        write(p.src + "/include/mylib/a.h", "int a();\n")
        write(p.src + "/CMakeLists.txt", HEAD % "CXX" + 'configure_project_cpp()\ncompile_library("${PROJECT_SOURCE_DIR}/src/cpp" "${PROJECT_SOURCE_DIR}/include")\ncompile_test_library("${PROJECT_SOURCE_DIR}/test")\n')
        cases = r.sample(["one", "two", "one_more", "another", "tw", "x1", "x11"], r.randrange(1, 6))
        unlisted = r.sample(["zz", "hidden", "one_"], r.randrange(0, 2))
        labels = {l: r.sample(["S.%s" % c for c in cases] + ["S.no_such"], r.randrange(0, len(cases) + 1)) for l in r.sample(["xfail", "slow", "flaky"], r.randrange(0, 3))}
        listed = r.random() < 0.8
        needed = r.random() < 0.5
        blackbox = r.random() < 0.3
        write(p.src + "/test/labels/CMakeLists.txt", "")
        lab = ""
        for l, ts in labels.items():
            write(p.src + "/test/labels/%s.list" % l, "".join(t + "\n" for t in ts))
            lab += 'set_test_label_file("${PROJECT_SOURCE_DIR}/test/labels/%s.list" "%s")\n' % (l, l)
        write(p.src + "/test/labels/CMakeLists.txt", lab)
        write(p.src + "/test/CMakeLists.txt", "add_subdirectory(labels)\nadd_subdirectory(unit)\n")
        write(p.src + "/test/unit/data/in.txt", "data of the test")
        write(p.src + "/test/unit/CMakeLists.txt", 'set(TEST_SOURCES t.cpp %s)\nset(TEST_LIST %s)\nset(TEST_NEEDED_SOURCES %s)\nset(TEST_EXTRA_LIBRARIES)\n' % ("" if blackbox else "${PROJECT_SOURCE_DIR}/src/cpp/sub/a.cpp", " ".join(cases) if listed else "", "data/in.txt" if needed else "")
              + ('add_blackbox_executable(S "${TEST_SOURCES}" "${TEST_LIST}" "${TEST_NEEDED_SOURCES}")\n' if blackbox else 'add_unittest_executable(S "${TEST_SOURCES}" "${TEST_LIST}" "${TEST_EXTRA_LIBRARIES}" "${TEST_NEEDED_SOURCES}")\n'))
        fails = set(r.sample(cases, r.randrange(0, 2)))
        log = p.dir + "/ran"
        write(p.src + "/test/unit/t.cpp", "#include <gtest/gtest.h>\n#include <gtest_aux.hpp>\n#include <cstdio>\n#include <fstream>\n#include <mylib/a.h>\nstatic void ran(const char* n) { FILE* f = std::fopen(\"%s\", \"a\"); std::fprintf(f, \"%%s \", n); std::fclose(f); }\n" % log
              + "".join('TEST(S, %s) { ran("%s"); EXPECT_EQ(a(), 1); %s %s }\n' % (c, c, "ADD_FAILURE();" if c in fails else "", 'EXPECT_TRUE(std::ifstream("data/in.txt").good());' if needed else "") for c in cases + unlisted)
              + "int main(int argc, char** argv) { ::testing::InitGoogleTest(&argc, argv); FILE* f = std::fopen(\"%s\", \"a\"); std::fprintf(f, \"\\n\"); std::fclose(f); return RUN_ALL_TESTS(); }\n" % log)
        opt = r.choice([["-DBUILD_TESTS=ON"], ["-DBUILD_TESTS=ON"], ["-DBUILD_LIBRARY_TESTS=ON"], [], ["-DBUILD_TESTS=ON", "-DBUILD_LIBRARY_TESTS=OFF"], ["-DBUILD_TOOL_TESTS=ON"]])
        want = opt in (["-DBUILD_TESTS=ON"], ["-DBUILD_LIBRARY_TESTS=ON"])
        told = "%s tests %s (%s), labels %s, options %s" % ("blackbox" if blackbox else "unit", cases, "listed" if listed else "not listed", labels, opt)
        rc, out = p.configure(*opt)
        v.check(rc == 0, "not-configured", lambda: told + ": " + tail(out))
        if rc:
            return
        rc, out = p.make()
        v.check(rc == 0, "not-built", lambda: told + ": " + tail(out))
        if rc:
            return
        rc, out = cmd("ctest", "--show-only=json-v1", cwd=p.build)
        js = json.loads(out) if rc == 0 and out.startswith("{") else {"tests": []}
        got = {t["name"]: sorted({x for q in t.get("properties", []) if q["name"] == "LABELS" for x in q["value"]}) for t in js["tests"]}
        names = [] if not want else (["S.%s" % c for c in cases] if listed else ["S"])
        v.check(sorted(got) == sorted(names), "tests-added", lambda: "%s gives %s" % (told, sorted(got)))
        if want:
            v.check(all(got.get(t) == sorted(l for l, ts in labels.items() if t in ts) for t in names), "labels", lambda: "%s gives %s" % (told, got))
        v.count("steps", 2)
        v.seen("sequences", ("tests", cases, unlisted, sorted(labels.items()), listed, needed, blackbox, opt, sorted(fails)))
        if not want:
            return
        rc, out = cmd("ctest", "-j1", cwd=p.build)
        runs = sorted(sorted(s.split()) for s in text_of_file(log).split("\n") if s.strip()) if os.path.exists(log) else []
        exp = sorted([c] for c in cases) if listed else [sorted(cases + unlisted)]
        v.check(runs == exp, "cases-run", lambda: "%s ran %s" % (told, runs))
        v.check((rc != 0) == bool(fails), "verdict", lambda: "%s with failing %s ends with %d: %s" % (told, fails, rc, out[-600:]))
        v.count("steps", 2)
        v.sample(told)
    finally:
        p.remove()


v.batches("settings", 48, settings, watchdog=300, mult=6)
v.batches("refusals", 16, refusals, watchdog=300, mult=3)
v.batches("library", 24, library, watchdog=600, mult=6)
v.batches("tool", 20, tool, watchdog=600, mult=6)
v.batches("tests", 20, tests, watchdog=600, mult=6)
shutil.rmtree(BASE, ignore_errors=True)
v.finish()
