# mkval.sh ID doc... : creates the demo of a validation bug
d=/verif/seeded/$1; shift; mkdir -p $d; cp /tmp/pb/val.cpp $d/demo.cpp
{ cat <<'X'
#!/bin/bash
# Validates documents with the validation sample's service; see demo.cpp for the prefixes.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d); trap 'rm -rf "$out"' EXIT
B=/repo/_build
g++ -std=c++17 -O0 -I/repo/include -I/repo/PEGTL/include -I/repo/samples/validation "$here/demo.cpp" -o "$out/demo" \
  $B/samples/libvalidationgraphql.a $B/src/libgraphqljson.a $B/src/libgraphqlservice.a $B/src/libgraphqlintrospection.a \
  $B/src/libgraphqlpeg.a $B/src/libgraphqlresponse.a -lpthread || exit 2
X
printf 'timeout 60 "$out/demo"'; for a in "$@"; do printf " \\\\\n  %q" "$a"; done; echo; } > $d/demo.sh
