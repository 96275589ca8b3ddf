"""python -m pysym.main ID TIER"""
import importlib, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.exit(importlib.import_module("pysym." + sys.argv[1]).main(sys.argv[2], V))
