#!/bin/bash
# exit 0: the property holds for this input; run in the repository's root
here=$(cd "$(dirname "$0")" && pwd)
prefix=/opt/bt_build/install
for d in /opt/venv/lib/python3.12/site-packages/ros_*.libs; do LD_LIBRARY_PATH="$d:$LD_LIBRARY_PATH"; done
export LD_LIBRARY_PATH="$prefix/lib:/opt/venv/lib:$LD_LIBRARY_PATH" _ROS_WHEELS_BOOTSTRAP_COMPLETE=1
export AMENT_PREFIX_PATH="$prefix:/opt/venv" PYTHONDONTWRITEBYTECODE=1 RMW_IMPLEMENTATION=rmw_fastrtps_cpp
export PYTHONPATH="$here/stubs:$PWD/ros_bt_py:$prefix/lib/python3.12/site-packages"
tmp=$(mktemp -d /tmp/demo.XXXXXX)
export ROS_LOG_DIR=$tmp DEMO_TMP=$tmp
timeout 250 /opt/venv/bin/python "$here/demo.py"
rc=$?
rm -rf "$tmp"
exit $rc
