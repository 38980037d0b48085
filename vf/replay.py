"""Search for a failing input on the real code: a driver per property (replay/<id>.cpp) that calls /repo's functions on
generated inputs and compares with the contract evaluated concretely."""
import os, subprocess, time
from .cast import VERIF, REPO, FMT


class Rep:
    failing = None
    error = None
    runs = 0
    cmd = ""


def build(src, out, opt="-O1", san=True):
    cmd = ["g++", "-std=c++11", opt, "-w", "-g1", "-fno-access-control", "-DFMT_HEADER_ONLY", "-I" + REPO + "/src", "-I" + FMT,
           "-I" + VERIF + "/replay", "-D_GLIBCXX_ASSERTIONS"]
    if san:
        cmd += ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
    p = subprocess.run(cmd + [src, "-o", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    return p.returncode, p.stdout[-3000:], " ".join(cmd + [src, "-o", out])


def run_replay(prop, P, seed, budget, work, jobs=8):
    r = Rep()
    src = os.path.join(VERIF, "replay", P.get("driver", prop) + ".cpp")
    if not os.path.exists(src):
        r.error = "no driver"
        return r
    exe = os.path.join(work, "replay_" + prop)
    try:
        if not os.path.exists(exe):
            rc, out, cmd = build(src, exe)
            if rc:
                r.error = out
                return r
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1",
                   UBSAN_OPTIONS="print_stacktrace=0:exitcode=77")
        scratch = os.path.join(work, "scratch")
        os.makedirs(scratch, exist_ok=True)
        ps = []
        for k in range(jobs):
            d = os.path.join(scratch, str(k))
            os.makedirs(d, exist_ok=True)
            args = [exe, str(seed * 64 + k), str(budget), str(k), str(jobs)]
            fo = open(os.path.join(d, "out.txt"), "w")
            ps.append((k, args, d, subprocess.Popen(args, cwd=d, stdout=fo, stderr=subprocess.STDOUT, env=env)))
        end = time.time() + budget + 60
        left = list(ps)
        while left and time.time() < end:
            time.sleep(0.05)
            for it in list(left):
                k, args, d, p = it
                if p.poll() is None:
                    continue
                left.remove(it)
                out = open(os.path.join(d, "out.txt"), errors="replace").read()
                for l in out.splitlines():
                    if l.startswith("RUNS "):
                        r.runs += int(l.split()[1])
                if p.returncode != 0 and not r.failing:
                    r.failing = out[-6000:] or "exit status %d" % p.returncode
                    r.cmd = "%s && %s" % (build_cmd(src), " ".join(["./replay_" + prop] + args[1:]))
                    for _, _, _, q in left:
                        q.kill()
                    left = []
                    break
        for k, args, d, p in left:
            p.kill()
            p.wait()
            if not r.failing:
                out = open(os.path.join(d, "out.txt"), errors="replace").read()
                r.failing = "does not terminate within its time limit on:\n" + out[-4000:]
                cur = os.path.join(d, "current.txt")
                if os.path.exists(cur):
                    r.failing += open(cur, errors="replace").read()[-4000:]
                r.cmd = "%s && %s" % (build_cmd(src), " ".join(["./replay_" + prop] + args[1:]))
    except (OSError, subprocess.SubprocessError) as e:
        r.error = str(e)
    return r


def build_cmd(src):
    return ("g++ -std=c++11 -O1 -w -g1 -fno-access-control -DFMT_HEADER_ONLY -I/repo/src -I%s -I%s/replay -D_GLIBCXX_ASSERTIONS "
            "-fsanitize=address,undefined -fno-sanitize-recover=all %s -o replay_bin" % (FMT, VERIF, src))
