"""C44: see crates_mc/src/twa.rs."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import *

main(lambda chk: chk.explore_crate("twa"))
