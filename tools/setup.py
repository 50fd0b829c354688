"""Builds the source extractor and dumps the current tree once."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import extract
extract.build_extractor()
extract.extract()
print("extractor built")
