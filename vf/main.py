import sys
from vf.core import main

if __name__ == "__main__":
    sys.exit(main())
