"""Checks that the tools the checks need are there (each check builds its own driver from /repo)."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vrun
for t in ('java', 'g++'):
    if not shutil.which(t): sys.exit('missing: ' + t)
if not os.path.exists(vrun.JAR): sys.exit('missing: ' + vrun.JAR)
