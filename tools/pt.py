import importlib.metadata as md
_v=md.version
md.version=lambda n: "1.0.0" if n=="ros_bt_py" else _v(n)
import pytest,sys
sys.exit(pytest.main(sys.argv[1:]))
