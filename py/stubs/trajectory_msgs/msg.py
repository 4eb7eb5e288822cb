import rospy
from rosstub import msg
from std_msgs.msg import Header

JointTrajectoryPoint = msg("JointTrajectoryPoint", [("positions", list), ("velocities", list), ("accelerations", list),
                                                    ("effort", list), ("time_from_start", rospy.Duration)])
JointTrajectory = msg("JointTrajectory", [("header", Header), ("joint_names", list), ("points", list)])
