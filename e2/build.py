"""Builds the abstract interpreter from its committed source."""
import fcntl, hashlib, os, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "build")


def absint():
    if os.environ.get("AR_ABSINT"):
        return os.environ["AR_ABSINT"]
    src = os.path.join(HERE, "absint.cpp")
    with open(src, "rb") as f:
        key = hashlib.sha256(f.read()).hexdigest()[:16]
    os.makedirs(OUT, exist_ok=True)
    exe = os.path.join(OUT, "absint-" + key)
    with open(os.path.join(OUT, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            flags = [f for f in subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split() if not f.startswith("-std=") and f != "-fno-exceptions"]
            libs = subprocess.check_output("llvm-config-18 --ldflags --libs core irreader support demangle --link-shared", shell=True, text=True).split()
            p = subprocess.run(["g++", "-O2", "-std=c++20", "-w"] + flags + [src, "-o", exe + ".new"] + libs, capture_output=True, text=True)
            if p.returncode:
                raise RuntimeError("the abstract interpreter does not build: " + p.stderr[:2000])
            os.rename(exe + ".new", exe)
    return exe


if __name__ == "__main__":
    print(absint())
