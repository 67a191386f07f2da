"""Nothing to build: checks that the solvers and the repository are there."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
import contracts.all
from pyvc import repo
repo.Repo().module('objects')
print('ok', z3.get_version_string())
