"""demonstrations which generate a service with the built schemagen, compile it and run a request against it"""
SH='''#!/bin/bash
H="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
S="$R/_build/src/schemagen"; [ -x "$S" ] || S="$(find "$R" -name schemagen -type f -perm -u+x | head -1)"
cd "$T" && "$S" --schema="$H/demo.graphql" --prefix=Demo --namespace=demo %s > gen.log || { cat gen.log; exit 3; }
L=$(find "$R/_build" -name 'lib*.a' | grep -v -i -e gtest -e gmock)
for f in *.cpp "$H/demo.cpp"; do c++ -std=c++17 -O0 -w -I"$T" -I"$H" -I"$R/include" -I"$R/PEGTL/include" -c "$f" -o "$T/$(basename "$f").o" & done; wait
c++ -o demo *.o -Wl,--start-group $L -Wl,--end-group -lpthread || exit 2
timeout 60 ./demo
'''
HEAD='''#include "DemoSchema.h"
%s
#include "graphqlservice/JSONResponse.h"
#include "graphqlservice/introspection/Introspection.h"
#include <iostream>
#include <thread>
#include <atomic>
using namespace graphql;
using graphql::demo::Operations;
static int fails = 0;
static std::string run(Operations& svc, const char* q, const char* vars = "{}")
{
	auto ast = peg::parseString(q);
	return response::toJSON(svc.resolve(nullptr, ast, "", response::parseJSON(vars)).get());
}
static void expect(const std::string& a, const std::string& b) { if (a != b) { std::cout << "WRONG " << a << "\\nWANT  " << b << std::endl; ++fails; } }
'''
def gdemo(schema, code, opts="", includes=""):
    def f(d):
        open(d+"/demo.graphql","w").write(schema)
        open(d+"/demo.cpp","w").write(HEAD % includes + code)
        open(d+"/demo.sh","w").write(SH % opts)
    return f
