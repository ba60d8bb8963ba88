"""Minimal offline stand-in for rosidl_runtime_py (not installed in this sandbox)."""
import array
import importlib
import numbers
from collections import OrderedDict

import numpy as np
import yaml

from . import utilities  # noqa: F401
from .utilities import get_interface, is_message


def _value_type(type_string):
    """Base type name of a (possibly array) ROS field type string."""
    s = type_string
    if s.startswith("sequence<"):
        s = s[len("sequence<") : -1]
        if "," in s:
            s = s[: s.rindex(",")]
    elif s.endswith("]") and "[" in s:
        s = s[: s.index("[")]
    return s.strip()


def _is_array(type_string):
    return type_string.startswith("sequence<") or (
        type_string.endswith("]") and "[" in type_string
    )


def set_message_fields(msg, values, expand_header_auto=False, expand_time_now=False):
    try:
        items = values.items()
    except AttributeError:
        raise TypeError(
            f"Value '{values}' is expected to be a dictionary but is a {type(values).__name__}"
        )
    fields = msg.get_fields_and_field_types()
    for field_name, field_value in items:
        field = getattr(msg, field_name)  # AttributeError for an unknown field
        rosidl_type = fields[field_name]
        if isinstance(field, array.array):
            value = field.__class__(field.typecode, field_value)
        elif isinstance(field, np.ndarray):
            value = np.array(field_value, dtype=field.dtype)
        elif type(field_value) is type(field) and not _is_array(rosidl_type):
            value = field_value
        elif _is_array(rosidl_type):
            base = _value_type(rosidl_type)
            if "/" in base:
                pkg, name = base.split("/", 1)
                cls = getattr(importlib.import_module(pkg + ".msg"), name)
                value = []
                for element in field_value:
                    sub = cls()
                    set_message_fields(sub, element)
                    value.append(sub)
            else:
                value = type(field)(field_value) if not isinstance(field, list) else list(field_value)
        elif is_message(type(field)):
            value = type(field)()
            set_message_fields(value, field_value)
        else:
            value = type(field)(field_value)
        setattr(msg, field_name, value)


def _convert(value):
    if isinstance(value, bytes):
        return list(value)
    if isinstance(value, str):
        return value
    if isinstance(value, (list, tuple, array.array, np.ndarray)):
        return [_convert(v) for v in value]
    if isinstance(value, dict):
        return OrderedDict((k, _convert(v)) for k, v in value.items())
    if isinstance(value, np.bool_):
        return bool(value)
    if isinstance(value, (np.integer,)):
        return int(value)
    if isinstance(value, (np.floating,)):
        return float(value)
    if isinstance(value, (bool, numbers.Number)):
        return value
    if is_message(type(value)):
        return message_to_ordereddict(value)
    return value


def message_to_ordereddict(msg, **kwargs):
    d = OrderedDict()
    for field in msg.get_fields_and_field_types():
        d[field] = _convert(getattr(msg, field))
    return d


def _represent_ordereddict(dumper, data):
    return dumper.represent_mapping("tag:yaml.org,2002:map", list(data.items()))


class _Dumper(yaml.SafeDumper):
    pass


_Dumper.add_representer(OrderedDict, _represent_ordereddict)


def message_to_yaml(msg, **kwargs):
    return yaml.dump(
        message_to_ordereddict(msg),
        Dumper=_Dumper,
        allow_unicode=True,
        width=float("inf"),
        default_flow_style=False,
    )


def get_interface_packages():
    return {"std_msgs": [], "std_srvs": []}


def get_message_interfaces(package_names=None):
    return {"std_msgs": ["msg/String", "msg/Int64"]}


def get_service_interfaces(package_names=None):
    return {"std_srvs": ["srv/Trigger", "srv/SetBool"]}


def get_action_interfaces(package_names=None):
    return {"ros_bt_py_interfaces": ["action/RunTree"]}
