"""Stand-in for rospy. A scenario installs the simulated middleware in `world`."""
import sched as _sched


class World:
    """Everything a scenario controls."""

    def __init__(self):
        self.shutdown = False
        self.logs = []
        self.subscribers = []
        self.publishers = []
        self.calls = []

    def is_shutdown(self):
        return self.shutdown

    def subscribe(self, sub):
        self.subscribers.append(sub)

    def publish(self, pub, msg):
        pass

    def connections(self, pub):
        return 0

    def time(self):
        return _sched.now()


world = World()


class ROSException(Exception):
    pass


class ROSInterruptException(ROSException, KeyboardInterrupt):
    pass


class _TVal:
    def __init__(self, secs=0, nsecs=0):
        n = round(secs * 1000000000) if isinstance(secs, float) else int(secs) * 1000000000
        self.n = n + int(nsecs)

    @property
    def secs(self):
        return self.n // 1000000000

    @property
    def nsecs(self):
        return self.n % 1000000000

    def to_sec(self):
        return self.n / 1e9

    def to_nsec(self):
        return self.n

    def is_zero(self):
        return self.n == 0

    def __bool__(self):
        return self.n != 0

    def __hash__(self):
        return hash(self.n)

    def __eq__(self, o):
        return type(o) is type(self) and self.n == o.n

    def __lt__(self, o):
        return self._cmp(o) < 0

    def __le__(self, o):
        return self._cmp(o) <= 0

    def __gt__(self, o):
        return self._cmp(o) > 0

    def __ge__(self, o):
        return self._cmp(o) >= 0

    def _cmp(self, o):
        if type(o) is not type(self):
            raise TypeError(f"cannot compare {type(self).__name__} to {type(o).__name__}")
        return (self.n > o.n) - (self.n < o.n)

    def __repr__(self):
        return f"{type(self).__name__}[{self.n}]"

    @classmethod
    def _of(cls, n):
        r = cls()
        r.n = n
        return r

    @classmethod
    def from_sec(cls, s):
        return cls._of(round(s * 1e9))


class Duration(_TVal):
    def __add__(self, o):
        if isinstance(o, Time):
            return Time._of(self.n + o.n)
        return Duration._of(self.n + o.n) if isinstance(o, Duration) else NotImplemented

    def __sub__(self, o):
        return Duration._of(self.n - o.n) if isinstance(o, Duration) else NotImplemented

    def __neg__(self):
        return Duration._of(-self.n)

    def __mul__(self, k):
        return Duration._of(round(self.n * k))

    __rmul__ = __mul__

    def __truediv__(self, k):
        return self.n / k.n if isinstance(k, Duration) else Duration._of(round(self.n / k))


class Time(_TVal):
    def __add__(self, o):
        return Time._of(self.n + o.n) if isinstance(o, Duration) else NotImplemented

    def __sub__(self, o):
        if isinstance(o, Time):
            return Duration._of(self.n - o.n)
        return Time._of(self.n - o.n) if isinstance(o, Duration) else NotImplemented

    @staticmethod
    def now():
        return Time.from_sec(world.time())


def get_time():
    return world.time()


def is_shutdown():
    return world.is_shutdown()


def sleep(d):
    _sched.sleep(d.to_sec() if isinstance(d, Duration) else d)
    if is_shutdown():
        raise ROSInterruptException("ROS shutdown request")


class Rate:
    def __init__(self, hz, reset=False):
        self.sleep_dur = Duration(1.0 / hz)

    def sleep(self):
        sleep(self.sleep_dur)

    def remaining(self):
        return self.sleep_dur


def _log(level):
    def f(msg, *args, **kw):
        world.logs.append((level, msg % args if args else msg))
    return f


logdebug, loginfo, logwarn, logerr, logfatal = (_log(x) for x in ("debug", "info", "warn", "error", "fatal"))
loginfo_once, logwarn_once, logerr_once = (_log(x) for x in ("info", "warn", "error"))


def _log_throttle(level):
    def f(period, msg, *args, **kw):
        world.logs.append((level, msg % args if args else msg))
    return f


logdebug_throttle, loginfo_throttle, logwarn_throttle, logerr_throttle = (
    _log_throttle(x) for x in ("debug", "info", "warn", "error"))


class Subscriber:
    def __init__(self, name, data_class, callback=None, callback_args=None, queue_size=None, buff_size=65536,
                 tcp_nodelay=False):
        self.name, self.resolved_name, self.data_class, self.queue_size = name, name, data_class, queue_size
        self.callback, self.callback_args = callback, callback_args
        world.subscribe(self)
        s, t = _sched.here()
        if s:
            s.point("subscribed")

    def deliver(self, msg):
        if self.callback is None:
            return
        if self.callback_args is not None:
            self.callback(msg, self.callback_args)
        else:
            self.callback(msg)

    def unregister(self):
        self.callback = None


class Publisher:
    def __init__(self, name, data_class, subscriber_listener=None, tcp_nodelay=False, latch=False, headers=None,
                 queue_size=None):
        self.name, self.resolved_name, self.data_class = name, name, data_class
        self.latch, self.queue_size = latch, queue_size
        world.publishers.append(self)

    def get_num_connections(self):
        return world.connections(self)

    def publish(self, *args, **kw):
        world.publish(self, args[0] if len(args) == 1 and not kw else self.data_class(*args, **kw))

    def unregister(self):
        pass


def init_node(name, *args, **kw):
    world.calls.append(("init_node", name))


def spin():
    world.on_spin()


def signal_shutdown(reason=""):
    world.calls.append(("signal_shutdown",))
