"""C22: the R package."""
import os
import driver, bindings

HERE = os.path.dirname(os.path.abspath(__file__))
SECTIONS = [("sequences", 16), ("faults", 8), ("filters", 4), ("frames", 8), ("files", 4), ("interleaved", 4), ("nested", 4), ("lifetimes", 4), ("gc", 8), ("properties", 1), ("read_sas", 2), ("arguments", 1), ("cuts", 2), ("long", 8), ("held", 8)]


def run(prop, spec, tier, seed, args):
    def build():
        lib = driver.build_r("picasan")
        renv = driver.preload("picasan")
        renv.update(LC_ALL="C.UTF-8", R_LIBS_USER="")
        # kept beside the package: gone with it
        so = os.path.join(lib, "alive.so")
        driver.sh(["gcc", "-shared", "-fPIC", "-O1", "-o", so + ".%d" % os.getpid(), os.path.join(HERE, "alive.c")])
        os.rename(so + ".%d" % os.getpid(), so)
        return dict(PYTHONDONTWRITEBYTECODE="1"), dict(rlib=lib, renv=renv, alive=so)
    return bindings.run(prop, spec, tier, seed, args, build, ["/usr/bin/python3", os.path.join(HERE, "rdrive.py")], SECTIONS, spec["assumptions"])
