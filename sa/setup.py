"""builds the MIR exporter and warms the dependency builds of the analysed configurations"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import dump
for c in dump.CONFIGS if hasattr(dump, "CONFIGS") else ("default", "mpi", "gen"):
    dump.dump(c)
print("setup done")
