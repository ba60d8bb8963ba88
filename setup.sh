#!/bin/bash
# Offline preparation: the message interfaces (only if the sandbox has no build of them) and a parse of every specification.
cd "$(dirname "$0")" || exit 2
if [ ! -d /opt/bt_build/install/lib/python3.12/site-packages/ros_bt_py_interfaces ]; then
  mkdir -p build/interfaces
  env -u LD_LIBRARY_PATH -u PYTHONPATH PATH=/opt/venv/bin:$PATH AMENT_PREFIX_PATH=/opt/venv CMAKE_PREFIX_PATH=/opt/venv \
    sh -c 'cmake -S /repo/ros_bt_py_interfaces -B build/interfaces -DCMAKE_INSTALL_PREFIX="$PWD/build/install" \
      -DBUILD_TESTING=OFF -DPython3_EXECUTABLE=/opt/venv/bin/python3 &&
      cmake --build build/interfaces -j8 && cmake --install build/interfaces' > build/interfaces.log 2>&1 ||
    { tail -20 build/interfaces.log; exit 1; }
fi
. harness/env.sh
/opt/venv/bin/python -c 'import sys; sys.path.insert(0, "harness"); import boot; boot.load()' || exit 1
rm -rf "$VERIF_SCRATCH"
echo setup done
