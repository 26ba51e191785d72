"""What is built, and which harnesses decide which property."""
import glob
import os

REPO = os.environ.get("VERIF_REPO", "/repo")


def repo_glob(pattern):
    """Every source matching the pattern (so that code moved into a new file is
    still built)."""
    return sorted(glob.glob(os.path.join(REPO, pattern)))


LIB = REPO + "/incremental_calibration"
TSVD = REPO + "/aslam_tsvd_solver"
EX = REPO + "/incremental_calibration_examples"

XP = "incremental_calibration_examples/incremental_calibration_examples_%s"
XI = EX + "/incremental_calibration_examples_%s/include"

WARN = ["-w"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
# containers check their bounds, Eigen asserts
CHECKED = ["-D_GLIBCXX_ASSERTIONS", "-UNDEBUG"]
# variables that are not initialised have a value that shows
STD = ["-std=c++14", "-O1", "-g1", "-ftrivial-auto-var-init=pattern"] + WARN
INC = ["-I@VERIF@/framework", "-I@VERIF@/harness", "-I" + LIB + "/include", "-I/usr/include/eigen3"]
STUBS = ["-I@VERIF@/stubs", "-I/usr/include/suitesparse", "-I" + TSVD + "/include"]

BASE_SRC = repo_glob("incremental_calibration/src/base/*.cpp") + repo_glob("incremental_calibration/src/exceptions/*.cpp")
CORE_SRC = repo_glob("incremental_calibration/src/core/*.cpp")
TSVD_SRC = repo_glob("aslam_tsvd_solver/src/*.cc") + repo_glob("aslam_tsvd_solver/src/*.cpp")
PY_SRC = [f for f in repo_glob("incremental_calibration_python/src/*.cpp") if not f.endswith("VisionDataAssociation.cpp")]
MATH_SRC = repo_glob("incremental_calibration/src/statistics/*.cpp") + repo_glob("incremental_calibration/src/functions/*.cpp")

def CALIB_SRC(package):
    return [f for d in ("algo", "error-terms", "design-variables") for f in repo_glob(XP % package + "/src/" + d + "/*.cpp") if not f.endswith("splinesToFile.cpp")]


def SIM_SRC(package):
    return [f for f in repo_glob(XP % package + "/src/simulation/*.cpp") + repo_glob(XP % package + "/src/algo/bestQuat.cpp") if not f.endswith("/simulator.cpp")]


def PROG_SRC(package):
    return sorted(set(CALIB_SRC(package) + SIM_SRC(package) + repo_glob(XP % package + "/src/algo/splinesToFile.cpp")))


CORE_LIBS = ["-lcholmod", "-lsuitesparseconfig", "-lglog", "-lpthread"]

HARNESSES = {
    "problem": {
        "sources": ["@VERIF@/harness/problem.cpp"], "lib": CORE_SRC + TSVD_SRC + BASE_SRC + ["@VERIF@/stubs/tsvd-dense.cpp"],
        "flags": STD + CHECKED + STUBS + INC, "libs": CORE_LIBS,
    },
    "estimator": {
        "sources": ["@VERIF@/harness/estimator.cpp"], "lib": CORE_SRC + TSVD_SRC + BASE_SRC + ["@VERIF@/stubs/tsvd-dense.cpp"],
        "flags": STD + CHECKED + STUBS + INC, "libs": CORE_LIBS,
    },
    "solver": {
        "sources": ["@VERIF@/harness/solver.cpp"], "lib": CORE_SRC + TSVD_SRC + BASE_SRC + ["@VERIF@/stubs/tsvd-dense.cpp"],
        "flags": STD + CHECKED + STUBS + INC, "libs": CORE_LIBS,
    },
    "print": {
        "sources": ["@VERIF@/harness/print.cpp"], "lib": BASE_SRC + MATH_SRC,
        "flags": STD + CHECKED + STUBS + INC, "libs": [],
    },
    "python": {
        "sources": ["@VERIF@/harness/python.cpp"],
        "lib": PY_SRC + CORE_SRC + TSVD_SRC + BASE_SRC + ["@VERIF@/stubs/tsvd-dense.cpp"],
        "flags": STD + CHECKED + STUBS + INC + ["-I/usr/include/python3.12"], "libs": CORE_LIBS + ["-lboost_python312", "-lpython3.12"],
    },
    "containers": {
        "sources": ["@VERIF@/harness/containers.cpp"], "lib": BASE_SRC,
        "flags": STD + CHECKED + INC, "libs": [],
    },
    "dv": {
        "sources": ["@VERIF@/harness/dv.cpp"], "lib": BASE_SRC,
        "flags": STD + CHECKED + STUBS + INC, "libs": [],
    },
    "histogram": {
        "sources": ["@VERIF@/harness/histogram.cpp"], "lib": BASE_SRC,
        "flags": STD + CHECKED + INC, "libs": [],
    },
    "basics": {
        "sources": ["@VERIF@/harness/basics.cpp"], "lib": BASE_SRC,
        "flags": STD + CHECKED + INC, "libs": [],
    },
    "apps": {
        "sources": ["@VERIF@/harness/apps.cpp"] + ["@VERIF@/harness/quat/%s.cpp" % x for x in ("car", "egomotion_sensors", "time_delay")], "lib": [EX + "/incremental_calibration_examples_2dlrf/src/2dlrf/utils.cpp"],
        "flags": STD + CHECKED + INC + ["-I" + EX] + ["-I" + EX + "/incremental_calibration_examples_" + x + "/include" for x in ("car", "egomotion_sensors", "time_delay", "2dlrf")], "libs": [],
    },
    "terms_lrf": {
        "sources": ["@VERIF@/harness/terms_lrf.cpp"], "lib": repo_glob(XP % "2dlrf" + "/src/2dlrf/ErrorTerm*.cpp") + BASE_SRC,
        "flags": STD + CHECKED + STUBS + INC + ["-I" + XI % "2dlrf"], "libs": [],
    },
    "terms_car": {
        "sources": ["@VERIF@/harness/terms_car.cpp"], "lib": repo_glob(XP % "car" + "/src/error-terms/*.cpp") + BASE_SRC,
        "flags": STD + CHECKED + STUBS + INC + ["-I" + XI % "car"], "libs": [],
    },
    "terms_delay": {
        "sources": ["@VERIF@/harness/terms_delay.cpp"], "lib": repo_glob(XP % "time_delay" + "/src/error-terms/*.cpp") + BASE_SRC,
        "flags": STD + CHECKED + STUBS + INC + ["-I" + XI % "time_delay"], "libs": [],
    },
    "calib_delay": {
        "sources": ["@VERIF@/harness/calib_delay.cpp"], "lib": CALIB_SRC("time_delay") + CORE_SRC + TSVD_SRC + BASE_SRC + ["@VERIF@/stubs/tsvd-dense.cpp"],
        "flags": STD + CHECKED + STUBS + INC + ["-I" + XI % "time_delay"], "libs": CORE_LIBS,
    },
    "calib_car": {
        "sources": ["@VERIF@/harness/calib_car.cpp"], "lib": CALIB_SRC("car") + CORE_SRC + TSVD_SRC + BASE_SRC + ["@VERIF@/stubs/tsvd-dense.cpp"],
        "flags": STD + CHECKED + STUBS + INC + ["-I" + XI % "car"], "libs": CORE_LIBS,
    },
    "calib_ego": {
        "sources": ["@VERIF@/harness/calib_ego.cpp"], "lib": CALIB_SRC("egomotion_sensors") + CORE_SRC + TSVD_SRC + BASE_SRC + ["@VERIF@/stubs/tsvd-dense.cpp"],
        "flags": STD + CHECKED + STUBS + INC + ["-I" + XI % "egomotion_sensors"], "libs": CORE_LIBS,
    },
    "camera": {
        "sources": ["@VERIF@/harness/camera.cpp"], "lib": repo_glob(XP % "camera" + "/src/camera/Camera*.cpp") + CORE_SRC + TSVD_SRC + BASE_SRC + MATH_SRC + ["@VERIF@/stubs/tsvd-dense.cpp"],
        "flags": STD + CHECKED + STUBS + INC + ["-I" + XI % "camera"], "libs": CORE_LIBS,
    },
    "prog_car": {
        "sources": ["@VERIF@/harness/prog_car.cpp"] + ["@VERIF@/harness/programs/car_%s.cpp" % x for x in ("calibrator", "analyzer")],
        "lib": CALIB_SRC("car") + repo_glob(XP % "car" + "/src/algo/splinesToFile.cpp") + repo_glob(XP % "car" + "/src/geo/*.cpp") + CORE_SRC + TSVD_SRC + BASE_SRC + ["@VERIF@/stubs/tsvd-dense.cpp"],
        "flags": STD + CHECKED + STUBS + INC + ["-I" + EX, "-I" + XI % "car"], "libs": CORE_LIBS,
    },
    "prog_delay": {
        "sources": ["@VERIF@/harness/prog_delay.cpp", "@VERIF@/harness/programs/delay_simulator.cpp"],
        "lib": PROG_SRC("time_delay") + CORE_SRC + TSVD_SRC + BASE_SRC + MATH_SRC + ["@VERIF@/stubs/tsvd-dense.cpp"],
        "flags": STD + CHECKED + STUBS + INC + ["-I" + EX, "-I" + XI % "time_delay"], "libs": CORE_LIBS,
    },
    "prog_ego": {
        "sources": ["@VERIF@/harness/prog_ego.cpp", "@VERIF@/harness/programs/ego_simulator.cpp"],
        "lib": PROG_SRC("egomotion_sensors") + CORE_SRC + TSVD_SRC + BASE_SRC + MATH_SRC + ["@VERIF@/stubs/tsvd-dense.cpp"],
        "flags": STD + CHECKED + STUBS + INC + ["-I" + EX, "-I" + XI % "egomotion_sensors"], "libs": CORE_LIBS,
    },
    "prog_camera": {
        "sources": ["@VERIF@/harness/prog_camera.cpp"] + ["@VERIF@/harness/programs/camera_%s.cpp" % x for x in ("calibrate", "validate")],
        "lib": repo_glob(XP % "camera" + "/src/camera/Camera*.cpp") + CORE_SRC + TSVD_SRC + BASE_SRC + MATH_SRC + ["@VERIF@/stubs/tsvd-dense.cpp"],
        "flags": STD + CHECKED + STUBS + INC + ["-I" + EX, "-I" + XI % "camera"], "libs": CORE_LIBS + ["-lboost_filesystem"],
    },
    "prog_laser": {
        "sources": ["@VERIF@/harness/prog_laser.cpp"] + ["@VERIF@/harness/programs/laser_%s.cpp" % x for x in ("offline", "online_new", "online")],
        "lib": repo_glob(XP % "2dlrf" + "/src/2dlrf/ErrorTerm*.cpp") + repo_glob(XP % "2dlrf" + "/src/2dlrf/utils.cpp") + CORE_SRC + TSVD_SRC + BASE_SRC + MATH_SRC + ["@VERIF@/stubs/tsvd-dense.cpp"],
        "flags": STD + CHECKED + STUBS + INC + ["-I" + EX, "-I" + XI % "2dlrf"], "libs": CORE_LIBS,
    },
    "sim_delay": {
        "sources": ["@VERIF@/harness/sim_delay.cpp"], "lib": SIM_SRC("time_delay") + BASE_SRC + MATH_SRC,
        "flags": STD + CHECKED + STUBS + INC + ["-I" + XI % "time_delay"], "libs": [],
    },
    "sim_ego": {
        "sources": ["@VERIF@/harness/sim_ego.cpp"], "lib": SIM_SRC("egomotion_sensors") + BASE_SRC + MATH_SRC,
        "flags": STD + CHECKED + STUBS + INC + ["-I" + XI % "egomotion_sensors"], "libs": [],
    },
    "vision": {
        "sources": ["@VERIF@/harness/vision.cpp"], "lib": repo_glob("incremental_calibration_vision/src/vision/*.cpp"),
        "flags": STD + CHECKED + ["-I@VERIF@/stubs/vision"] + STUBS + INC + ["-I" + REPO + "/incremental_calibration_vision/include"], "libs": [],
    },
    "geo": {
        "sources": ["@VERIF@/harness/geo.cpp"], "lib": repo_glob(XP % "car" + "/src/geo/*.cpp") + BASE_SRC,
        "flags": STD + CHECKED + STUBS + INC + ["-I" + XI % "car"], "libs": [],
    },
    "sampler": {
        "sources": ["@VERIF@/harness/sampler.cpp"], "lib": BASE_SRC + MATH_SRC,
        "flags": STD + CHECKED + INC, "libs": [],
    },
    "stats": {
        "sources": ["@VERIF@/harness/stats.cpp"], "lib": BASE_SRC + MATH_SRC,
        "flags": STD + CHECKED + INC, "libs": [],
    },
}

PROPERTIES = {
    "C01": {"harnesses": ["problem"], "level": "model_checking"},
    "C02": {"harnesses": ["problem"], "level": "model_checking"},
    "C03": {"harnesses": ["problem"], "level": "model_checking"},
    "C04": {"harnesses": ["problem"], "level": "model_checking"},
    "E01": {"harnesses": ["estimator"], "level": "model_checking"},
    "E02": {"harnesses": ["estimator"], "level": "model_checking"},
    "E03": {"harnesses": ["estimator"], "level": "model_checking"},
    "E04": {"harnesses": ["estimator"], "level": "model_checking"},
    "E05": {"harnesses": ["estimator"], "level": "model_checking"},
    "Y01": {"harnesses": ["print", "calib_car", "calib_delay", "calib_ego"], "level": "exploration"},
    "P01": {"harnesses": ["python"], "level": "model_checking"},
    "E06": {"harnesses": ["solver"], "level": "model_checking"},
    "L01": {"harnesses": ["solver"], "level": "model_checking"},
    "A01": {"harnesses": ["containers"], "level": "exploration"},
    "A02": {"harnesses": ["containers"], "level": "exploration"},
    "G01": {"harnesses": ["containers"], "level": "exploration"},
    "V01": {"harnesses": ["dv"], "level": "model_checking"},
    "G02": {"harnesses": ["histogram"], "level": "exploration"},
    "S01": {"harnesses": ["stats"], "level": "model_checking"},
    "S02": {"harnesses": ["stats"], "level": "model_checking"},
    "S03": {"harnesses": ["stats"], "level": "model_checking"},
    "M01": {"harnesses": ["stats"], "level": "model_checking"},
    "R01": {"harnesses": ["sampler"], "level": "exploration"},
    "T01": {"harnesses": ["basics"], "level": "model_checking"},
    "B01": {"harnesses": ["basics"], "level": "exploration"},
    "X01": {"harnesses": ["basics"], "level": "exploration"},
    "O01": {"harnesses": ["apps"], "level": "exploration"},
    "Q01": {"harnesses": ["apps"], "level": "exploration"},
    "J01": {"harnesses": ["terms_lrf", "terms_car", "terms_delay"], "level": "model_checking"},
    "K01": {"harnesses": ["calib_delay", "calib_car", "calib_ego"], "level": "model_checking"},
    "K02": {"harnesses": ["camera"], "level": "model_checking"},
    "D01": {"harnesses": ["prog_car"], "level": "model_checking"},
    "D02": {"harnesses": ["prog_delay", "prog_ego"], "level": "model_checking"},
    "D03": {"harnesses": ["prog_camera"], "level": "model_checking"},
    "D04": {"harnesses": ["prog_laser"], "level": "model_checking"},
    "W01": {"harnesses": ["sim_delay", "sim_ego"], "level": "exploration"},
    "W02": {"harnesses": ["geo"], "level": "exploration"},
    "N01": {"harnesses": ["vision"], "level": "model_checking"},
    "F01": {"harnesses": ["stats"], "level": "exploration"},
}
