"""Minimal offline stand-in for rosidl_runtime_py.utilities (not installed in this sandbox).

Same observable contract for the functions ros_bt_py uses.
"""
import importlib


def _split(identifier):
    parts = identifier.split("/")
    if len(parts) == 2:
        parts = [parts[0], None, parts[1]]
    if len(parts) != 3 or not all(p is None or p for p in parts):
        raise ValueError(
            f"Expected the full name of an interface, got '{identifier}'"
        )
    return parts


def _load(identifier, default_ns):
    pkg, ns, name = _split(identifier)
    if ns is None:
        ns = default_ns
    module = importlib.import_module(pkg + "." + ns)
    return getattr(module, name)


def get_interface(identifier):
    pkg, ns, name = _split(identifier)
    if ns is None:
        raise ValueError(f"Expected the full name of an interface, got '{identifier}'")
    return _load(identifier, ns)


def get_message(identifier):
    interface = _load(identifier, "msg")
    if not is_message(interface):
        raise ValueError(f"Expected the full name of a message, got '{identifier}'")
    return interface


def get_service(identifier):
    interface = _load(identifier, "srv")
    if not is_service(interface):
        raise ValueError(f"Expected the full name of a service, got '{identifier}'")
    return interface


def get_action(identifier):
    interface = _load(identifier, "action")
    if not is_action(interface):
        raise ValueError(f"Expected the full name of an action, got '{identifier}'")
    return interface


def is_message(interface):
    return hasattr(interface, "_fields_and_field_types")


def is_service(interface):
    if not hasattr(interface, "Request") or not hasattr(interface, "Response"):
        return False
    return is_message(interface.Request) and is_message(interface.Response)


def is_action(interface):
    if not all(hasattr(interface, n) for n in ("Goal", "Result", "Feedback")):
        return False
    return all(
        is_message(i) for i in (interface.Goal, interface.Result, interface.Feedback)
    )
