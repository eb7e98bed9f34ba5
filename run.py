import glob, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import mc
prop = sys.argv[1]
hits = glob.glob(os.path.join(mc.VERIF, "checks", prop.lower() + "_*.py"))
assert len(hits) == 1, (prop, hits)
sys.exit(mc.main(prop, os.path.basename(hits[0])[:-3], sys.argv[2:]))
