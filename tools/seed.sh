#!/bin/bash
# Works on a scratch copy of the repository, $SEED_REPO (default /tmp/w/repo, made when absent); /repo itself is left alone.
# seed.sh new ID            : takes the current diff of the copy as seeded/ID (demo.cpp must be in seeded/ID already), confirms it, undoes it
# seed.sh check ID [PROP..] : applies seeded/ID to the copy, runs the checks on it, undoes it
# seed.sh sync              : brings the copy to /repo's HEAD
R=${SEED_REPO:-/tmp/w/repo}
[ -d $R ] || { mkdir -p $(dirname $R); cp -a /repo $R; rm -rf $R/_build; }
build() { sed "s#/repo#$R#g" /opt/vp/build.sh > $R.build.sh; bash $R.build.sh > $R.log 2>&1; }
tests() {
  build || { grep -m5 -E "error|undefined" $R.log; echo "BUILD FAILS"; return; }
  mkdir -p $R/_build/l; python3 /opt/vp/run_tests.py $R/_build $R/_build/l > $R.res 2>&1
  python3 - $R.res <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); s=b.get('stable') or b.get('passed') or b
s=set(s if isinstance(s,list) else s.keys())
p={l[5:].strip() for l in open(sys.argv[1]) if l.startswith('PASS ')}
m=s-p
print('TESTS OK' if not m else 'TESTS FAIL: '+', '.join(sorted(m)))
P
}
id=$2; d=/verif/seeded/$id
case $1 in
tests) tests;;
sync) git -C $R checkout -q -- . ; git -C $R pull -q /repo HEAD; git -C $R log --oneline | head -1; build;;
new)
  mkdir -p $d
  git -C $R diff > $d/patch.diff; [ -s $d/patch.diff ] || { echo no diff; exit 1; }
  [ -f $d/demo.sh ] || cat > $d/demo.sh <<'D'
#!/bin/bash
# compiles and runs demo.cpp against the library built in ./_build
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -g -w -I"$PWD/_build" -I"$PWD/_build/include" -I"$PWD/include" -I"$PWD/3rd-party" -isystem /usr/include/eigen3 "$here/demo.cpp" \
  -o "$t/demo" -L"$PWD/_build/src" -lTVM_d -Wl,-rpath,"$PWD/_build/src" 2> "$t/log" || { grep -m3 error "$t/log"; exit 2; }
timeout 60 "$t/demo"
D
  r=$(tests); echo "$r"
  [ "$r" = "TESTS OK" ] || ok=no
  (cd $R && bash $d/demo.sh) ; [ $? = 0 -o $? = 2 ] && { echo "DEMO DOES NOT FAIL (or does not compile)"; ok=no; }
  git -C $R checkout -q -- . ; build
  (cd $R && bash $d/demo.sh) || { echo "DEMO FAILS ON UNCHANGED TREE"; ok=no; }
  [ "$ok" = no ] || echo "SEED OK $id";;
check)
  shift 2
  props="$*"; [ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C $R apply $d/patch.diff || exit 1
  for p in $props; do echo "== $id on $p"; (cd /verif && SYMTVM_REPO=$R python3 bin/symtvm.py check $p 2>&1 | cut -c1-200 | tail -${TAIL:-3}); done
  git -C $R checkout -q -- .;;
esac
