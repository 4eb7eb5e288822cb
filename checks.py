"""Which explorers decide which property."""


import os

HERE = os.path.dirname(os.path.abspath(__file__))


def cpp(name, src, repo_src=(), **kw):
    return dict(name=name, kind="cpp", src=[src] if isinstance(src, str) else list(src),
                repo_src=[f"src/arc_utilities/{s}" for s in repo_src], **kw)


def py(name, src):
    return dict(name=name, kind="py", src=[src])


# multi-threaded variants: OpenMP regions and memory accesses call the controlled scheduler (harness/sched.cpp)
PAR = ["-DPAR", "-fopenmp", "-fsanitize=thread", "-DENABLE_PARALLEL_HAUSDORFF_DISTANCE", "-DENABLE_PARALLEL_DISTANCE_MATRIX",
       "-DENABLE_PARALLEL_COMPLETE_LINK_CLUSTERING", "-DENABLE_PARALLEL_ROADMAP", "-DENABLE_PARALLEL_K_NEAREST_NEIGHBORS"]

CHECKS = {
    "P01": dict(units=[cpp("serialization", "p01_serialization.cpp")]),

    "P02": dict(units=[cpp("serialization_eigen", "p02_serialization_eigen.cpp")]),
    "P03": dict(units=[cpp("voxel_grid", "p03_voxel_grid.cpp")]),
    "P04": dict(units=[cpp("voxel_geometry", "p04_voxel_geometry.cpp")]),
    "P05": dict(units=[cpp("dshvg","p05_dshvg.cpp")]),
    "P06": dict(units=[cpp("graph","p06_graph.cpp")]),
    "P07": dict(units=[cpp("components","p07_components.cpp")]),
    "P08": dict(units=[cpp("dijkstra","p08_dijkstra.cpp")]),
    "P09": dict(units=[cpp("graph_astar","p09_graph_astar.cpp")]),
    "P10": dict(units=[cpp("simple_astar","p10_simple_astar.cpp")]),
    "P11": dict(units=[cpp("first_order","p11_first_order.cpp", ["first_order_deformation.cpp"])]),
    "P14": dict(units=[cpp("dtw","p14_dtw.cpp")]),
    "P12": dict(units=[cpp("base64","p12_base64.cpp", ["base64_helpers.cpp"])]),
    "P13": dict(units=[cpp("zlib","p13_zlib.cpp", ["zlib_helpers.cpp"], libs=["-lz","-lboost_filesystem","-lboost_system"]),
                       cpp("zlib_split","p13_split.cpp", ["zlib_helpers.cpp"], libs=["-lz","-lboost_filesystem","-lboost_system"], cflags=[f"-I{HERE}/harness/stub/smallzlib"])]),
    "P15": dict(units=[cpp("distances","p15_distances.cpp"),
                       cpp("distances_par",["p15_distances.cpp","sched.cpp"], san=[], src_flags={"p15_distances.cpp": PAR}, libs=["-ldl"])]),
    "P16": dict(units=[cpp("hierarchical","p16_hierarchical.cpp"),
                       cpp("hierarchical_par",["p16_hierarchical.cpp","sched.cpp"], san=[], src_flags={"p16_hierarchical.cpp": PAR}, libs=["-ldl"])]),
    "P17": dict(units=[cpp("kmeans","p17_kmeans.cpp")]),
    "P18": dict(units=[cpp("prm","p18_prm.cpp"),
                       cpp("prm_par",["p18_prm.cpp","sched.cpp"], san=[], src_flags={"p18_prm.cpp": PAR}, libs=["-ldl"])]),
    "P19": dict(units=[cpp("rrt","p19_rrt.cpp")]),
    "P20": dict(units=[cpp("paths","p20_paths.cpp",["trajectory_utils.cpp"], cflags=[f"-I{HERE}/harness/stub_ros"])]),
    "P21": dict(units=[cpp("profiler","p21_profiler.cpp",["timing.cpp"])]),
    "P22": dict(units=[cpp("log","p22_log.cpp",libs=["-lboost_filesystem","-lboost_system"]),
                       cpp("log_par",["p22_log.cpp","sched.cpp","iopoints.cpp"], san=[], src_flags={"p22_log.cpp": PAR}, libs=["-ldl","-lboost_filesystem","-lboost_system"])]),
    "P23": dict(units=[cpp("random","p23_random.cpp")]),
    "P24": dict(units=[cpp("angles","p24_angles.cpp")]),
    "P25": dict(units=[cpp("totp","p25_totp.cpp",["time_optimal_trajectory_parametrization.cpp"], cflags=["-D_GLIBCXX_DEBUG"])]),
    "P26": dict(units=[cpp("robot","p26_robot.cpp")]),
    "P35": dict(units=[cpp("vectors","p35_geometry.cpp",cflags=["-DPART=1"]),
                       cpp("motions","p35_geometry.cpp",cflags=["-DPART=2"])]),
    "P36": dict(units=[cpp("tps","p36_tps.cpp")]),
    "P38": dict(units=[cpp("maybe","p38_maybe.cpp")]),
    "P37": dict(units=[cpp("small","p37_small.cpp")]),
    "P28": dict(units=[py("listener","p28_listener.py")]),
    "P29": dict(units=[py("tf","p29_tf.py")]),
    "P30": dict(units=[py("algorithms","p30_algorithms.py")]),
    "P31": dict(units=[py("filesystem","p31_filesystem.py")]),
    "P32": dict(units=[py("timeouts","p32_timeouts.py")]),
    "P33": dict(units=[py("paths","p33_paths.py")]),
    "P34": dict(units=[py("conversions","p34_conversions.py")]),
    "P27": dict(units=[cpp("listener",["p27_listener.cpp","sched.cpp"], san=[], src_flags={"p27_listener.cpp": PAR}, cflags=[f"-I{HERE}/harness/stub_ros"], libs=["-ldl"])]),
    "P39": dict(units=[py("ros_helpers","p39_ros_helpers.py")]),
    "P40": dict(units=[cpp("messages","p40_messages.cpp", cflags=[f"-I{HERE}/harness/stub_ros"]),
                       cpp("messages_old_moveit","p40_messages.cpp", cflags=[f"-I{HERE}/harness/stub_ros","-DMOVEIT_VERSION_MAJOR=0","-DMOVEIT_VERSION_MINOR=10","-DMOVEIT_VERSION_PATCH=8"])]),
    "P41": dict(units=[cpp("ros_node","p41_ros_node.cpp", cflags=[f"-I{HERE}/harness/stub_ros"])]),
    "P42": dict(units=[cpp("fk","p42_fk.cpp")]),
    "P43": dict(units=[cpp("aligned","p43_aligned.cpp")]),
    "P44": dict(units=[cpp("printing","p44_printing.cpp", cflags=[f"-I{HERE}/harness/stub_ros"])]),
    "P45": dict(units=[cpp("directories","p45_directories.cpp", libs=["-lboost_filesystem","-lboost_system"])]),
}

NOT_APPLICABLE = {}

NOTES = ("No hooks in /repo: every check builds its harness from /repo's working tree in a scratch directory outside "
         "/repo and /verif. known_findings.txt lists repaired and known defects.")
