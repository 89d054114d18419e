import importlib, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'checks')]
import vlib
mod = importlib.import_module(sys.argv[1].lower())
rc = vlib.main(mod, sys.argv[2:])
sys.stdout.flush()
sys.exit(rc)
