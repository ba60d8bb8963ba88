"""A tree manager on a fake ROS node; trees by message."""
import os
import time
import uuid

from bt import *

os.environ.setdefault("PYTHONUNBUFFERED", "1")
from ros_bt_py.exceptions import NodeConfigError
from ros_bt_py.tree_edit_manager import TreeEditManager  # noqa: E402
from ros_bt_py_interfaces.msg import NodeDataLocation, NodeIO, NodeStructure, TreeState, TreeStructure, Wiring  # noqa: E402
from ros_bt_py_interfaces.srv import *  # noqa: E402,F403


class Rate:
    def sleep(self):
        time.sleep(0.005)

    def destroy(self):
        pass


def manager(**kw):
    ros = FakeRos()
    ros.create_rate = lambda *a, **k: Rate()
    ros.create_timer = lambda *a, **k: None
    return TreeEditManager(ros_node=ros, **kw)


def io(**kw):
    out = []
    for k, (container, value) in kw.items():
        container.set_value(value).unwrap()
        m = NodeIO(key=k, type=container.serialize_type(), serialized_value=container.serialize_value())
        out.append(m)
    return out


def node(cls, name=None, module="ros_bt_py.nodes.sequence", children=(), inputs=(), version=""):
    return NodeStructure(node_id=str(uuid.uuid4()), module=module, node_class=cls, name=name or cls, child_ids=list(children), inputs=list(inputs),
                         version=version)


def add(m, n, parent=str(uuid.UUID(int=0)), index=None):
    if index is None:
        r = m.add_node(AddNode.Request(node=n, parent_node_id=parent), AddNode.Response())
    else:
        r = m.add_node_at_index(AddNodeAtIndex.Request(node=n, parent_node_id=parent, new_child_index=index), AddNodeAtIndex.Response())
    if not r.success:
        raise SystemExit("add: " + r.error_message)
    return r.node_id


def wire(source, skey, target, tkey):
    return Wiring(source=NodeDataLocation(node_id=source, data_key=skey), target=NodeDataLocation(node_id=target, data_key=tkey))


def names(m):
    """name -> names of the children, in order"""
    s = m.structure_to_msg()
    by = {n.node_id: n.name for n in s.nodes}
    return {n.name: [by[c] for c in n.child_ids] for n in s.nodes}


def control(m, command, **kw):
    C = ControlTreeExecution
    return m.control_execution(C.Request(command=getattr(C.Request, command), **kw), C.Response())


def wait_for(m, state, seconds=20):
    end = time.time() + seconds
    while m.state != state and time.time() < end:
        time.sleep(0.01)
    return m.state


@define_bt_node(NodeConfig(inputs={"value": IntType(allow_dynamic=False)}, outputs={"o": IntType(allow_static=False)}, max_children=0))
class Source(Scripted):
    """Gives its value; no node exists with a negative value."""

    def add_extra_outputs(self):
        v = self.inputs.get_value_as("value", int).unwrap_or(0)
        return Ok({}) if v >= 0 else Err(NodeConfigError("negative"))

    def _do_tick(self):
        self.outputs.set_value("o", self.inputs.get_value_as("value", int).unwrap()).unwrap()
        return Ok("SUCCEEDED")


@define_bt_node(NodeConfig(inputs={"a": IntType(allow_static=False)}, outputs={}, max_children=0))
class Sink(Scripted):
    pass


def source(value, name="source"):
    return node("Source", name=name, module="btm", inputs=io(value=(IntType(allow_dynamic=False), value)))


def sink(name="sink"):
    return node("Sink", name=name, module="btm")


class Client:
    """Stands in for a service client, an action client, a subscription and a publisher."""

    made = []

    def __init__(self, kind, name="", callback=None):
        self.kind, self.name, self.callback, self.alive, self.sent, self.goals = kind, name, callback, True, [], []
        Client.made.append(self)

    def call_async(self, request):
        from rclpy.task import Future
        self.sent.append((request, Future()))
        return self.sent[-1][1]

    def service_is_ready(self):
        return True

    def publish(self, msg):
        self.sent.append(msg)


def network():
    """A fake ROS node whose clients, subscriptions and publishers are Clients."""
    ros = FakeRos()

    def gone(c):
        c.alive = False
        return True

    ros.create_client = lambda t, n, **k: Client("client", n)
    ros.create_subscription = lambda msg_type, topic, callback, qos_profile, **k: Client("subscription", topic, callback)
    ros.create_publisher = lambda msg_type, topic, qos_profile, **k: Client("publisher", topic)
    ros.destroy_client = ros.destroy_subscription = ros.destroy_publisher = gone
    return ros


def put(n, key, value):
    n.node_config.inputs[key].set_value(value).unwrap()


def refs(new):
    """The reference types among new inputs, bound to what they refer to."""
    for c in new.values():
        if hasattr(c, "set_type_map"):
            c.set_type_map(new).unwrap()
    return new
