"""Builds the python module from /repo's working tree in a scratch folder and runs the demonstration with it.
usage: run.py demo.py   (exit status of the demonstration)"""
import os, sys, subprocess, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build
with tempfile.TemporaryDirectory(prefix="demo_") as t:
    build.VERIF = HERE
    build.build(t, ["module", "mathlib"])
    pkg = t + "/pkg/devsim"
    os.makedirs(pkg)
    os.symlink(t + "/devsim_py3.so", pkg + "/devsim_py3.so")
    os.symlink("/repo/dist/__init__.py", pkg + "/__init__.py")
    os.symlink("/repo/python_packages", pkg + "/python_packages")
    env = dict(os.environ, DEVSIM_MATH_LIBS=t + "/libvmath.so", PYTHONPATH=t + "/pkg:" + HERE, OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([sys.executable, os.path.join(HERE, "..", sys.argv[1])], env=env, cwd=t)
sys.exit(1 if r.returncode else 0)
