import sys

from mc.engine import main

sys.exit(main())
