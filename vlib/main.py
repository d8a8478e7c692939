import sys
from vlib.runner import main
sys.exit(main(sys.argv))
