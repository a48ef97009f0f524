#!/bin/bash
# tools/plant.sh ID...: validates planted bugs of /verif/seeded in a scratch copy of /repo (/tmp/pl), then runs the
# property's check (and any in CHECKS) against the patched copy.  NOCHECK=1 skips the checks.
PL=/tmp/pl
export CC=/usr/bin/gcc CXX=/usr/bin/g++
mkdir -p $PL
rsync -a --no-times --checksum --delete --exclude=/_build --exclude=/.git /repo/ $PL/repo/ 2>/dev/null || { rm -rf /tmp/pl/repo.new; mkdir -p $PL/repo; (cd /repo && git ls-files -z | xargs -0 -I{} sh -c 'mkdir -p "$(dirname "/tmp/pl/repo/{}")"; cmp -s "{}" "/tmp/pl/repo/{}" || cp -f "{}" "/tmp/pl/repo/{}"'); }
cd $PL/repo
bld() { cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Release -DTINYTORCH_USE_CUDA=OFF -DTINYTORCH_USE_NCCL=OFF -DTINYTORCH_TEST_CUDA=OFF \
    -DTINYTORCH_BUILD_TEST=ON -DTINYTORCH_BUILD_DEMO=OFF -DCMAKE_DISABLE_FIND_PACKAGE_BLAS=ON -DCMAKE_PROJECT_TinyTorch_INCLUDE=/opt/vp/cmake/gtest_from_apt.cmake >/tmp/pl/cmake.log 2>&1 && cmake --build _build -j8 >/tmp/pl/build.log 2>&1; }
for id in "$@"; do
  D=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  if [ -z "$SKIPCLEAN" ]; then
    bld || { echo "$id: BASE BUILD FAILED"; exit 1; }
    bash $D/demo.sh >/tmp/pl/demo0.log 2>&1; r0=$?
  else r0=skip; fi
  patch -p1 -s < $D/patch.diff || { echo "$id: PATCH FAILED"; exit 1; }
  if bld; then
    ctest --test-dir _build -j8 -E '^TEST_Module\.' --timeout 300 >/tmp/pl/test.log 2>&1; rt=$?
    bash $D/demo.sh >/tmp/pl/demo1.log 2>&1; r1=$?
    echo "$id ($prop): demo clean=$r0 patched=$r1 tests=$rt  [$(tail -1 /tmp/pl/demo1.log)]"
    if [ -z "$NOCHECK" ]; then
      for c in ${CHECKS:-$prop}; do
        s=$(date +%s)
        VERIF_REPO=$PL/repo VERIF_BUILD=/tmp/pl/vb python3 /verif/mc/check.py $c quick >/tmp/pl/check.$id.$c.log 2>&1; rc=$?
        echo "   check $c: rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/pl/check.$id.$c.log)"
      done
    fi
  else echo "$id: PATCHED BUILD FAILED"; tail -5 /tmp/pl/build.log; fi
  patch -R -p1 -s < $D/patch.diff
done
