import os,shutil
SH='''#!/bin/bash
H="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
L=$(find "$R/_build" -name 'lib*.a' | grep -v -i -e gtest -e gmock)
c++ -std=c++17 -O0 -I"$H" -I"$R/include" -I"$R/PEGTL/include" -I"$R/samples/validation" -I"$R/samples/schema" "$H/demo.cpp" -o "$T/demo" -Wl,--start-group $L -Wl,--end-group -lpthread || exit 2
timeout 60 "$T/demo"
'''
def ex(code, raw=False):
    def f(d):
        shutil.copy("/tmp/pb/exec.h", d)
        body = code if raw else '#include "exec.h"\nint main() {\n'+code+'\n  return fails;\n}\n'
        open(d+"/demo.cpp","w").write(body)
        open(d+"/demo.sh","w").write(SH)
    return f
SVC='''  auto svc = std::make_shared<Svc>(TypeMap{ {"query", q}, {"mutation", m}, {"subscription", s} });
'''
