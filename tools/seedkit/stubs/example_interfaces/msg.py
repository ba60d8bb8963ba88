from std_msgs.msg import *  # noqa: F401,F403
