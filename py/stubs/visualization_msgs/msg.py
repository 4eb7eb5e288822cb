import rospy
from rosstub import msg
from std_msgs.msg import ColorRGBA, Header
from geometry_msgs.msg import Pose, Vector3

Marker = msg("Marker", [("header", Header), ("ns", ""), ("id", 0), ("type", 0), ("action", 0), ("pose", Pose),
                        ("scale", Vector3), ("color", ColorRGBA), ("lifetime", rospy.Duration),
                        ("frame_locked", False), ("points", list), ("colors", list), ("text", "")])
Marker.ADD, Marker.DELETE, Marker.DELETEALL = 0, 2, 3
MarkerArray = msg("MarkerArray", [("markers", list)])
