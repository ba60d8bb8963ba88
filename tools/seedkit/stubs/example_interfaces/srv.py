from std_srvs.srv import *  # noqa: F401,F403
