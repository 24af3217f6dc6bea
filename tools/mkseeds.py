#!/usr/bin/env python3
"""writes seeded/<id>/{patch.diff,demo.sh,demo.cpp,meta.json}: planted bugs with demonstrations (not read by any check)"""
import difflib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("SX_REPO", "/repo")
S = []


def seed(id, prop, needs, breaks, edits, body, src="", inc="", pre=""):
    S.append((id, prop, needs, breaks, edits, body, src, inc, pre))


NET = "include/network.hpp"
GEN = "include/network_generation.hpp"
MATH = "include/util/math.hpp"
ADM = "include/models/ActivityDrivenModel.hpp"
ADC = "src/models/ActivityDrivenModel.cpp"
INC = "src/models/InertialModel.cpp"
DEG = "src/models/DeGroot.cpp"
DEF = "src/models/DeffuantModel.cpp"
DEV = "src/models/DeffuantModelVector.cpp"
DEH = "include/models/DeffuantModel.hpp"
SIM = "include/simulation.hpp"
CFG = "src/config_parser.cpp"
ALL = " ".join([DEG, DEF, DEV, ADC, INC])
exec(open(os.path.join(H, "tools", "seeds.py")).read())

DEMO = r"""#!/bin/bash
# exits 0 if the behaviour is right; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d /tmp/demo-XXXXXX)
trap 'rm -rf "$scratch"' EXIT
%s
g++ -std=c++20 -O1 -g1 -w -D_GLIBCXX_ASSERTIONS -fsanitize=address -Iinclude -I. -include "$here/optional_format.hpp" "$here/demo.cpp" %s -o "$scratch/demo" -lfmt || exit 3
cd "$scratch" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
"""
HEAD = r"""// demonstration: prints what went wrong and returns 1, or returns 0
#include <cmath>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <random>
#include <string>
#include <vector>
%s
using namespace Seldon;
#define REQUIRE( c )                                                                                                   \
    do                                                                                                                 \
    {                                                                                                                  \
        if( !( c ) )                                                                                                   \
        {                                                                                                              \
            std::printf( "line %%d: %%s does not hold\n", __LINE__, #c );                                                \
            return 1;                                                                                                  \
        }                                                                                                              \
    } while( 0 )
static bool near( double a, double b )
{
    return std::abs( a - b ) <= 1e-9 * ( 1 + std::abs( b ) );
}
%s
int main()
{
%s
    return 0;
}
"""
FMT = r"""// fmt 9 has no formatter for std::optional, which the configuration parser prints
#include <fmt/format.h>
#include <optional>
#if FMT_VERSION < 100000
template<typename T>
struct fmt::formatter<std::optional<T>> : fmt::formatter<T>
{
    template<typename C>
    auto format( const std::optional<T> & o, C & c )
    {
        if( o )
            return fmt::formatter<T>::format( *o, c );
        return fmt::format_to( c.out(), "none" );
    }
};
#endif
"""
only = sys.argv[1:]
for id, prop, needs, breaks, edits, body, src, inc, pre in S:
    if only and id not in only:
        continue
    d = os.path.join(H, "seeded", id)
    os.makedirs(d, exist_ok=True)
    new = {}
    for f, a, b in edits:
        t = new.get(f) or open(os.path.join(R, f)).read()
        assert t.count(a) >= 1, (id, f, a)
        assert t.count(a) == 1, (id, f, a, "ambiguous", t.count(a))
        new[f] = t.replace(a, b)
    diff = ""
    for f, t in new.items():
        old = open(os.path.join(R, f)).read()
        out = list(difflib.unified_diff(old.splitlines(True), t.splitlines(True), "a/" + f, "b/" + f))
        for i, l in enumerate(out):
            if not l.endswith("\n"):
                out[i] = l + "\n\\ No newline at end of file\n"
        diff += "".join(out)
    open(d + "/patch.diff", "w").write(diff)
    incs = "".join("#include \"%s\"\n" % i for i in inc.split())
    open(d + "/demo.cpp", "w").write(HEAD % (incs, pre, body.strip("\n")))
    open(d + "/demo.sh", "w").write(DEMO % ("", src))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/optional_format.hpp", "w").write(FMT)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
print(len(S), "seeds")
