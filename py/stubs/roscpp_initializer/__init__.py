import rospy


def init_node(name, args=None, **kw):
    rospy.world.calls.append(("cpp_init", name, dict(kw)))


def shutdown():
    rospy.world.calls.append(("cpp_shutdown",))


roscpp_init, roscpp_shutdown = init_node, shutdown
