"""Worker processes whose failures reach the check.

An exception in a worker is turned into text before it is sent (some cannot be pickled, and a pool then waits for ever). One that the
code under test raises where it should have answered is reported as a violation (check.py); any other means that the check is broken."""

import multiprocessing as mp
import os
import traceback

REPO = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "ros_bt_py", "ros_bt_py") + os.sep


class Raised(Exception):
    """The code under test raised an exception."""


class Refusal(Exception):
    """The code under test refuses what every scenario of the check needs."""


class Broken(Exception):
    """The check itself failed."""


class Report:
    def __init__(self, e):
        frames = [f for f in traceback.extract_tb(e.__traceback__) if not f.filename.endswith("result.py")]     # unwrap() is the caller's claim
        self.text = traceback.format_exc()
        self.product = isinstance(e, Refusal) or bool(frames) and frames[-1].filename.startswith(REPO)
        at = frames[-1] if frames else None
        self.what = f"{type(e).__name__}: {str(e)[:150]} in {at.name} ({os.path.basename(at.filename)})" if at else repr(e)

    def throw(self):
        raise (Raised(self.what) if self.product else Broken(self.text))


class Guard:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, x):
        try:
            return self.fn(x)
        except Exception as e:
            return Report(e)


def opened(x):
    if isinstance(x, Report):
        x.throw()
    return x


class Later:
    def __init__(self, r):
        self.r = r

    def get(self, *a):
        return [opened(x) for x in self.r.get(*a)]


class Pool:
    def __init__(self, n=8):
        self.p = mp.Pool(n)

    def __enter__(self):
        self.p.__enter__()
        return self

    def __exit__(self, *a):
        return self.p.__exit__(*a)

    def map(self, fn, xs, chunksize=1):
        return [opened(x) for x in self.p.map(Guard(fn), xs, chunksize)]

    def map_async(self, fn, xs, chunksize=1):
        return Later(self.p.map_async(Guard(fn), xs, chunksize))

    def imap_unordered(self, fn, xs):
        return (opened(x) for x in self.p.imap_unordered(Guard(fn), xs))
