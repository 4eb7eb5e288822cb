import rospy


class Master:
    def __init__(self, caller_id, master_uri=None):
        pass

    def getSystemState(self):
        return rospy.world.system_state()


class names:
    @staticmethod
    def script_resolve_name(script, name):
        return name if name.startswith("/") else "/" + name
