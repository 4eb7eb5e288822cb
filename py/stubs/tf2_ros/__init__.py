"""Stand-in for tf2_ros: the scenario's world answers."""
import rospy


class TransformException(Exception):
    pass


class LookupException(TransformException):
    pass


class ConnectivityException(TransformException):
    pass


class ExtrapolationException(TransformException):
    pass


class InvalidArgumentException(TransformException):
    pass


class TimeoutException(TransformException):
    pass


class BufferInterface:
    def transform(self, object_stamped, target_frame, timeout=rospy.Duration(0), new_type=None):
        return rospy.world.transform(object_stamped, target_frame, timeout, new_type)


class Buffer(BufferInterface):
    def __init__(self, cache_time=None, debug=True):
        rospy.world.calls.append(("buffer",))

    def can_transform(self, target_frame, source_frame, time, timeout=rospy.Duration(0), return_debug_tuple=False):
        return rospy.world.can_transform(target_frame, source_frame, time, timeout)

    def lookup_transform(self, target_frame, source_frame, time, timeout=rospy.Duration(0)):
        return rospy.world.lookup(target_frame, source_frame, time, timeout)


class TransformListener:
    def __init__(self, buffer, queue_size=None):
        self.buffer = buffer


class TransformBroadcaster:
    def sendTransform(self, transform):
        if not isinstance(transform, list):
            transform = [transform]
        rospy.world.broadcast(list(transform), False)


class StaticTransformBroadcaster:
    def sendTransform(self, transform):
        if not isinstance(transform, list):
            transform = [transform]
        rospy.world.broadcast(list(transform), True)
