import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seedlib
for m in ("seeds_cpp", "seeds_py", "seeds_mpi"):
    if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), m + ".py")):
        __import__(m)
want = sys.argv[1:] or list(seedlib.SEEDS)
for i in want:
    print(i, seedlib.build(i))
