import sys
from vsim import core
sys.exit(core.main(sys.argv[1:]))
