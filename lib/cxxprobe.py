"""Asks the C++ compiler itself about classes: compiles and runs a program which prints, for
each expression, whether it holds."""
import os, subprocess, tempfile, concurrent.futures as cf
import vl

PRELUDE = r'''
#include <cstdio>
#include <new>
#include <utility>
#include <type_traits>
namespace axvp {
template<class T, class = void> struct dflt : std::false_type {};
template<class T> struct dflt<T, decltype((void)::new((void*)nullptr) T())> : std::true_type {};
template<class T, class = void> struct copy : std::false_type {};
template<class T> struct copy<T, decltype((void)::new((void*)nullptr) T(std::declval<const T&>()))> : std::true_type {};
template<class T, class = void> struct move : std::false_type {};
template<class T> struct move<T, decltype((void)::new((void*)nullptr) T(std::declval<T&&>()))> : std::true_type {};
template<class T, class = void> struct destroy : std::false_type {};
template<class T> struct destroy<T, decltype((void)std::declval<T&>().~T())> : std::true_type {};
}
'''


def probe(header, exprs, std="c++14"):
    """exprs: list of constant expressions; returns a list of bools."""
    with tempfile.TemporaryDirectory(prefix="probe") as td:
        open(os.path.join(td, "input.h"), "w").write(header)
        body = "\n".join('  std::putchar((%s) ? \'1\' : \'0\');' % e for e in exprs)
        open(os.path.join(td, "p.cc"), "w").write('#include "input.h"\n' + PRELUDE +
                                                  "int main() {\n%s\n  std::putchar('\\n'); }\n" % body)
        p = subprocess.run(["/usr/bin/clang++", "-std=" + std, "-w", "-O0", "-I", td, os.path.join(td, "p.cc"), "-o",
                            os.path.join(td, "p")], capture_output=True, text=True)
        if p.returncode:
            vl.die("probe does not compile: " + p.stderr[:3000])
        o = subprocess.run([os.path.join(td, "p")], capture_output=True, text=True).stdout.strip()
        assert len(o) == len(exprs)
        return [c == "1" for c in o]


def probe_many(jobs):
    """jobs: list of (header, exprs); runs in parallel."""
    with cf.ThreadPoolExecutor(vl.NCPU) as ex:
        return list(ex.map(lambda a: probe(*a), jobs))
