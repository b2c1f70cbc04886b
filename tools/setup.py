"""setup_cmd: nothing to install; verify that the tools the checks rely on are present."""
import shutil, sys, os
need = ["g++", "java", "python3"]
miss = [n for n in need if not shutil.which(n)]
if not os.path.exists("/opt/veriftools/tla/tla2tools.jar"):
    miss.append("tla2tools.jar")
print("missing: " + ", ".join(miss) if miss else "ok")
sys.exit(1 if miss else 0)
