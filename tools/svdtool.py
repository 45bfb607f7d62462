"""Building and running the real tool."""
import fcntl
import hashlib
import os
import resource
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("SVD_REPO", "/repo")
ENV = "/opt/vp/env.sh"


def tree_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, f) for f in ("Cargo.toml", "Cargo.lock")]
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        if os.path.exists(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as g:
                h.update(hashlib.sha256(g.read()).digest())
    return h.hexdigest()


def build(dest):
    """Build the binary from the current working tree and copy it to dest.  Returns its path."""
    tgt = os.path.join(REPO, "target")
    os.makedirs(tgt, exist_ok=True)
    stamp = os.path.join(tgt, "verif-stamp")
    with open(os.path.join(tgt, "verif-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        h = tree_hash()
        old = open(stamp).read().strip() if os.path.exists(stamp) else ""
        binary = os.path.join(tgt, "debug", "svdtools")
        if h != old or not os.path.exists(binary):
            # never trust time stamps: rebuild the crate whenever its contents changed
            cmd = ("[ -f %s ] && . %s; export CARGO_TARGET_DIR=%s; cd %s && "
                   "cargo clean -q --offline -p svdtools && "
                   "cargo build -q --offline --bin svdtools" % (ENV, ENV, tgt, REPO))
            p = subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                sys.stderr.write(p.stdout[-4000:])
                print("BUILD FAILED")
                sys.exit(2)
            with open(stamp, "w") as f:
                f.write(h)
        out = os.path.join(dest, "svdtools")
        shutil.copy2(binary, out)
    return out


def scratch(prefix="svdv-"):
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
    return tempfile.mkdtemp(prefix=prefix, dir=base)


def limit():
    """Bound what a runaway tool can take (inherited by the processes started from here)."""
    resource.setrlimit(resource.RLIMIT_CPU, (3600, 3600))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 28, 1 << 28))


class Tool:
    def __init__(self, binary, cwd, timeout=10):
        self.binary = binary
        self.cwd = cwd
        self.timeout = timeout
        self.runs = 0
        self.hung = 0        # runs that did not end
        self.env = {"PATH": os.environ.get("PATH", "/usr/bin"), "HOME": cwd, "RUST_BACKTRACE": "0"}

    def run(self, *args, err=False, env=None):
        """(status, stdout) with status ok / err / panic; with err=True also stderr."""
        self.runs += 1
        try:
            p = subprocess.run([self.binary] + list(args), cwd=self.cwd, stdin=subprocess.DEVNULL,
                               env=dict(self.env, **env) if env else self.env,
                               stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE if err else subprocess.DEVNULL,
                               timeout=self.timeout)
        except subprocess.TimeoutExpired:
            self.hung += 1
            return ("panic", "timeout", "") if err else ("panic", "timeout")
        s = "ok" if p.returncode == 0 else "err" if p.returncode == 1 else "panic"
        o = p.stdout.decode("utf-8", "replace")
        return (s, o, p.stderr.decode("utf-8", "replace")) if err else (s, o)
