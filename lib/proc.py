"""Running a program with a limit on its memory: a runaway must end as a failure of that program, not of the sandbox."""
import resource, subprocess
GB = 1 << 30
SANITIZERS = ":hard_rss_limit_mb=3000"

def sanitized(cmd, env):
    """sanitizers reserve terabytes of address space, so theirs is limited by their own option"""
    return cmd[0].endswith("valgrind") or any("/%s/" % v in cmd[0] for v in ("asan", "tsan", "fuzz")) or "asan" in (env or {}).get("LD_PRELOAD", "")

def run(cmd, timeout=None, env=None, limit=3 * GB, **kw):
    """subprocess.run with an address space limit"""
    p = subprocess.Popen(cmd, env=env, **kw)
    with p:
        if not sanitized(cmd, env):
            try: resource.prlimit(p.pid, resource.RLIMIT_AS, (limit, limit))
            except (OSError, ValueError): pass
        try:
            out, err = p.communicate(timeout=timeout)
        except BaseException:
            p.kill(); p.communicate(); raise
    return subprocess.CompletedProcess(cmd, p.returncode, out, err)
