import sys
from pbmon.core import main
sys.exit(main(sys.argv[1:]))
