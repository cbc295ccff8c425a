"""runs the repository's own tests and compares with the stable list"""
import json, subprocess, sys
subprocess.run(["bash", "/opt/vp/build.sh"], stdout=-3, stderr=-3)
subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/stable.json"], stdout=-3, stderr=-3)
b = json.load(open("/opt/vp/BASELINE.json"))["stable"]; o = set(json.load(open("/tmp/stable.json"))["passed"])
bad = [x for x in b if x not in o]
print("stable: %d of %d pass" % (len(b) - len(bad), len(b)), bad[:10])
sys.exit(bool(bad))
