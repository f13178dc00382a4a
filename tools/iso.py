"""Runs commands with scratch copies of /repo and /verif mounted over the real ones (own mount namespace),
so that planted changes never touch /repo. Development tool; no check uses it."""
import os, subprocess, shutil, shlex


class Box:
    def __init__(self, n, root="/tmp/mut"):
        self.dir = f"{root}/{n}"
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.repo, self.verif = f"{self.dir}/repo", f"{self.dir}/verif"
        shutil.copytree("/repo", self.repo, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copytree(os.environ.get("VERIF_SRC", "/verif"), self.verif, symlinks=True,
                        ignore=shutil.ignore_patterns(".git", "seeded", "replays", "evidence", "__pycache__"))

    def run(self, cmd, timeout=1200, env=None):
        inner = f"mount --bind {self.repo} /repo && mount --bind {self.verif} /verif && cd /repo && {cmd}"
        try:
            r = subprocess.run(["unshare", "-m", "bash", "-c", inner], capture_output=True, text=True,
                               timeout=timeout, env=dict(os.environ, **(env or {})))
            return r.returncode, r.stdout + r.stderr
        except subprocess.TimeoutExpired:
            return -9, "timeout"

    def git(self, *a, check=True):
        return subprocess.run(["git", "-C", self.repo, *a], capture_output=True, text=True, check=check).stdout

    def reset(self):
        self.git("checkout", "--", ".")

    def tests_pass(self):
        rc, out = self.run("bash /opt/vp/build.sh >/dev/null 2>&1 && bash /opt/vp/test.sh /verif/o.json >/dev/null 2>&1", 300)
        if rc != 0 and not os.path.exists(f"{self.verif}/o.json"):
            return False
        import json
        b = json.load(open("/opt/vp/BASELINE.json"))
        want = set(b.get("stable") or b.get("passed") or b.get("tests")) if isinstance(b, dict) else set(b)
        try:
            got = set(json.load(open(f"{self.verif}/o.json"))["passed"])
            os.remove(f"{self.verif}/o.json")
        except Exception:
            return False
        return want <= got

    def check(self, pid, scale=1.0, tier="quick", seed=1, timeout=1200):
        rc, out = self.run(f"cd /verif && VERIF_SEED={seed} python3 check.py {pid} --tier {tier} --scale {scale}", timeout)
        return rc, out

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
