#!/bin/bash
# mkdemo.sh ID  (after writing seeded/ID/demo.cc and seeded/ID/demo.target, a Python list of source patterns or the word STORE/COORD)
# Packs the API shim and build machinery beside the demo, so that it needs nothing else of /verif.
set -e
D=/verif/seeded/$1
tar czf $D/kit.tgz -C /verif --exclude=__pycache__ shim harness/h.h harness/store.h harness/trie.h harness/txnlib.h harness/coord.h $(cd /verif; ls harness/*lib.h | grep -v txnlib) tools/build.py tools/targets.py tools/link.sh tools/core_sources.txt tools/base_sources.txt
cat > $D/demo.sh <<'X'
#!/bin/bash
# Builds a small program from /repo's sources and the API stand-ins packed in kit.tgz, and runs it: 0 the property held, else broken.
here=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
tar xzf "$here/kit.tgz" -C "$W" && cp "$here/demo.cc" "$W/harness/demo.cc" || exit 3
echo "TARGETS['demo'] = dict(harness=['demo.cc'], repo=$(cat "$here/demo.target"))" >> "$W/tools/targets.py"
mkdir -p "$W/run" && cd "$W/run" || exit 3
REPO=/repo VBUILD="$W/build" python3 "$W/tools/build.py" demo || exit 3
timeout 100 "$W/build/bin/demo" "$W/run"
X
chmod +x $D/demo.sh
