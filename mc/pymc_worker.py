import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pymc
pymc.worker(sys.argv[1:])
