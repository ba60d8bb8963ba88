# Sourced by run.sh: the interpreter environment the repository's own tests use, plus stubs for the two absent packages.
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
unset PYTHONHOME PYTHONSTARTUP
PREFIX=/opt/bt_build/install
[ -d "$PREFIX/lib/python3.12/site-packages/ros_bt_py_interfaces" ] || PREFIX=$VERIF/build/install
export LANG=C.UTF-8 PATH=/opt/venv/bin:$PATH
export AMENT_PREFIX_PATH="$PREFIX:/opt/venv"
export PYTHONPATH="$VERIF/harness/stubs:${VERIF_REPO:-/repo}/ros_bt_py:$PREFIX/lib/python3.12/site-packages"
LD_LIBRARY_PATH="$PREFIX/lib:/opt/venv/lib"
for d in /opt/venv/lib/python3.12/site-packages/ros_*.libs; do LD_LIBRARY_PATH="$LD_LIBRARY_PATH:$d"; done
export LD_LIBRARY_PATH _ROS_WHEELS_BOOTSTRAP_COMPLETE=1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 ROS_LOCALHOST_ONLY=1 RMW_IMPLEMENTATION=rmw_fastrtps_cpp
export VERIF_SCRATCH=${VERIF_SCRATCH:-$(mktemp -d /tmp/verif.XXXXXX)}
export ROS_LOG_DIR=$VERIF_SCRATCH/log
mkdir -p "$ROS_LOG_DIR"
