"""Servers, services and topics under the control of a check, in place of the ROS graph."""

import boot

boot.load()
import rclpy.action  # noqa: E402
import rclpy.action.client  # noqa: E402
from rclpy.task import Future as _Future  # noqa: E402


class Future(_Future):
    """rclpy's future; what a callback raises reaches the check."""

    def _schedule_or_invoke_done_callbacks(self):
        cbs, self._callbacks = self._callbacks, []
        for c in cbs:
            c(self)


class World:
    """Everything nodes asked for, in order, and what exists."""

    def __init__(self):
        self.calls = []
        self.clients = []
        self.goals = []
        self.ready = {}

    def take(self):
        c, self.calls = self.calls, []
        return c

    def live(self):
        return [i + 1 for i, c in enumerate(self.clients) if c.alive]


WORLD = [None]


class Handle:
    def __init__(self, goal):
        self.goal = goal
        self.accepted = goal.st == "acc"
        self.goal_id = goal.num

    def get_result_async(self):
        f = self.goal.result = Future()
        if self.goal.pending is not None:
            self.goal.tell()
        return f

    def cancel_goal_async(self):
        g = self.goal
        g.world.calls.append({"c": "cancel", "i": g.num, "name": 0, "val": 0})
        g.cancel = Future()
        if g.st == "acc":
            g.st = "ending"
        return g.cancel


class Goal:
    def __init__(self, world, client, val, feedback):
        self.world, self.client, self.val, self.feedback = world, client, val, feedback
        self.st = "sent"
        self.answer = Future()
        self.result = self.cancel = self.pending = None
        world.goals.append(self)
        self.num = len(world.goals)

    def tell(self):
        if self.result is not None and self.client.alive and not self.result.done() and not self.result.cancelled():
            self.pending(self.result)


class ActionClient:
    """Stands in for rclpy's: a destroyed client hears nothing any more."""

    def __init__(self, node, action_type, action_name, *a, **k):
        self.world, self.name, self.alive = WORLD[0], action_name, True
        self.type = action_type
        self.world.clients.append(self)

    def send_goal_async(self, goal, feedback_callback=None, goal_uuid=None):
        g = Goal(self.world, self, goal.data, feedback_callback)
        self.world.calls.append({"c": "send", "i": g.num, "name": self.world.server(self.name), "val": goal.data})
        if not self.alive:
            self.world.calls.append({"c": "dead", "i": g.num, "name": 0, "val": 0})
        return g.answer

    def server_is_ready(self):
        return True

    def wait_for_server(self, timeout_sec=None):
        return True

    def destroy(self):
        if not self.alive:
            self.world.calls.append({"c": "destroyed twice", "i": 0, "name": 0, "val": 0})
        self.alive = False


rclpy.action.client.ActionClient = rclpy.action.ActionClient = ActionClient


class Endpoint:
    """A client of a service, a subscription or a publisher."""

    def __init__(self, world, kind, type_, name, callback=None, qos=None):
        self.world, self.kind, self.type, self.name, self.callback, self.qos, self.alive = world, kind, type_, name, callback, qos, True
        world.clients.append(self)
        self.num = len(world.clients)
        self.requests = []

    # service
    def call_async(self, request):
        f = Future()
        self.requests.append((request, f))
        self.world.asked(self, request, f)
        return f

    def service_is_ready(self):
        return self.world.ready.get(self.name, False)

    # publisher
    def publish(self, msg):
        self.world.published(self, msg)


def ros(world):
    n = boot.make_ros_node()
    WORLD[0] = world

    def make(kind, type_, name, callback=None, qos=None):
        e = Endpoint(world, kind, type_, name, callback, qos)
        world.created(e)
        return e

    def gone(e):
        if e is None or not e.alive:
            return False
        world.leaving(e)
        e.alive = False
        return True

    n.create_client = lambda srv_type, srv_name, *a, **k: make("client", srv_type, srv_name)
    n.create_subscription = lambda msg_type, topic, callback, qos_profile, *a, **k: make("sub", msg_type, topic, callback, qos_profile)
    n.create_publisher = lambda msg_type, topic, qos_profile, *a, **k: make("pub", msg_type, topic, None, qos_profile)
    n.destroy_client = n.destroy_subscription = n.destroy_publisher = gone
    n.resolve_topic_name = lambda t, *a, **k: t
    return n


def dynamic(node, keys):
    """These inputs are given at run time."""
    for k in keys:
        node.node_config.inputs[k].is_static = False


def state(r):
    return str(r.unwrap()) if r.is_ok() else "err"


def call(node, op):
    try:
        return state(getattr(node, op)())
    except Exception as e:
        return f"raises {type(e).__name__}"


def put(node, key, value):
    node.node_config.inputs[key].set_value(value).unwrap()


def got(node, key):
    r = node.outputs.get_value(key) if hasattr(node.outputs, "get_value") else node.node_config.outputs[key].get_value()
    return r.unwrap() if r.is_ok() else None
