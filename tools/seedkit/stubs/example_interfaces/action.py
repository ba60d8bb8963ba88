"""An action type made of existing messages: Goal, Result and Feedback have different fields."""
from std_msgs.msg import Int64 as _Goal, String as _Result, ColorRGBA as _Feedback


class Fibonacci:
    Goal = _Goal
    Result = _Result
    Feedback = _Feedback
