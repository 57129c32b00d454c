import sys
from vmc.core import main
sys.exit(main(sys.argv[1:]))
