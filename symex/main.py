import sys
import warnings
warnings.simplefilter("ignore")
from . import runner
sys.exit(runner.main(sys.argv[1:]))
