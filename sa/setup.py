"""Builds the extractor and the analysis database once, to show that the framework builds."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import common
common.setup()
