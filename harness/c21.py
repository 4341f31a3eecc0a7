"""C21: the Python package."""
import os
import driver, bindings

HERE = os.path.dirname(os.path.abspath(__file__))
SECTIONS = [("sequences", 16), ("faults", 8), ("frames", 8), ("inner", 4), ("filters", 4), ("lifetimes", 8), ("files", 4), ("interleaved", 4), ("threads", 4), ("memory", 4), ("properties", 1), ("arguments", 1), ("read_sas", 2), ("cuts", 2), ("long", 8), ("held", 8)]


def run(prop, spec, tier, seed, args):
    def build():
        p = driver.build_python("picasan")
        env = driver.preload("picasan")
        env.update(PYTHONMALLOC="malloc", PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8")
        so = os.path.join(p, "oom.so")  # kept beside the package: gone with it
        driver.sh(["gcc", "-shared", "-fPIC", "-O1", "-o", so + ".%d" % os.getpid(), os.path.join(HERE, "oom.c")])
        os.rename(so + ".%d" % os.getpid(), so)
        return env, dict(pkg=p, oom=so)
    return bindings.run(prop, spec, tier, seed, args, build, ["/usr/bin/python3", os.path.join(HERE, "pydrive.py")], SECTIONS, spec["assumptions"])
