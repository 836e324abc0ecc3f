#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property of /repo's current working tree:
  1. the deductive verifiers (Kani over the contract crates, Verus over extracted functions) have to
     discharge every obligation of the property;
  2. the same contracts are then executed natively, with the real dependencies, as a companion run;
  3. a failed obligation is reported as the violation, with a failing input when the native execution of
     the contract (random inputs, then the verifier's own counterexample) reproduces it;
  4. where the verifier gives no answer (it cannot handle the changed code, time, memory), the
     native execution decides, and the evidence says so.
Exit 0: held; 1: violation; 2: no answer (the contracts do not build against the tree)."""
import json, os, re, subprocess, sys, time, shutil, threading
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, COMMON_TRUST
import verus_units

REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
REPLAYS = os.path.join(VERIF, "replays")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
           HOME=os.environ.get("HOME", "/root"))
ENV["PATH"] = ENV.get("PATH", "") + ":/root/.cargo/bin"
ENV.pop("RUSTUP_TOOLCHAIN", None)
T0 = time.time()
LIMIT = float(os.environ.get("CHECK_LIMIT", "800"))


def left():
  return LIMIT - (time.time() - T0)


def log(*a):
  print("[%6.1f]" % (time.time() - T0), *a, flush=True)


def run(cmd, cwd, timeout, env=None):
  """run in a session of its own, so that everything it started can be ended"""
  p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace", start_new_session=True)
  try:
    out, _ = p.communicate(timeout=max(1, timeout))
    return p.returncode, out
  except subprocess.TimeoutExpired:
    try:
      os.killpg(p.pid, 9)
    except OSError:
      pass
    out, _ = p.communicate()
    return None, out or ""


# ------------------------------------------------------------------ preparation

def prepare(kind):
  """mechanical copies of sources that some contract crates are built from"""
  import extract
  return extract.prepare(kind, REPO, BUILD)


# ------------------------------------------------------------------ Kani

UNDECIDED = ("unwinding assertion", "ghost:", "is not currently supported by Kani", "unsupported construct",
             "recursion unwinding assertion", "reached unreachable code due to unsupported")


def serves(name, prop, tier):
  """contracts are named c<number>[_<number>...][t]_<what>; t: thorough tier only"""
  m = re.match(r"c(\d\d(?:_\d\d)*)(t?)_", name)
  return bool(m) and prop[1:] in m.group(1).split("_") and (tier == "thorough" or not m.group(2))


def kani_names(crate, prop, tier):
  src = open(os.path.join(VERIF, "kani", crate, "src", "lib.rs")).read()
  names = []
  for block in re.findall(r"^contracts! \{\n(.*?)^\}", src, re.S | re.M):
    names += re.findall(r"^  (\w+) \[\d+\] \{", block, re.M)
  return [n for n in names if serves(n, prop, tier)]


def kani_run(crate, names, timeout, jobs, per, extra=()):
  cmd = ["cargo", "kani", "--exact"]
  for n in names:
    cmd += ["--harness", n]
  cmd += ["--target-dir", os.path.join(BUILD, "kani", crate), "-j", str(jobs), "--output-format=terse",
          "--no-assertion-reach-checks", "-Z", "stubbing", "-Z", "unstable-options",
          "--harness-timeout", "%ds" % per] + list(extra)
  return run(cmd, os.path.join(VERIF, "kani", crate), timeout)


def kani_parse(out, names):
  """harness -> dict(state=ok|failed|undecided, checks, failures, time)"""
  res = {}
  current = {}
  thread = "0"
  single = None
  for line in out.splitlines():
    m = re.match(r"Thread (\d+): ?(.*)$", line)
    body = line
    if m:
      thread, body = m.group(1), m.group(2)
    m = re.match(r"Checking harness (\S+?)\.\.\.$", body.strip())
    if m:
      h = m.group(1).split("::")[-1]
      current[thread] = h
      res[h] = dict(state="undecided", checks=0, failures=[], why="no result", time=None, covers=None)
      continue
    h = current.get(thread)
    if not h:
      continue
    r = res[h]
    m = re.match(r" \*\* (\d+) of (\d+) failed", body)
    if m:
      r["checks"] = int(m.group(2))
    m = re.match(r" \*\* (\d+) of (\d+) cover properties satisfied", body)
    if m:
      r["covers"] = (int(m.group(1)), int(m.group(2)))
    m = re.match(r"Failed Checks: (.*)$", body)
    if m:
      r["failures"].append(m.group(1))
    m = re.match(r' File: "(.*?)", line (\d+), in (.*)$', body)
    if m and r["failures"]:
      r["failures"][-1] += " [%s:%s in %s]" % m.groups()
    if "CBMC appears to have run out of memory" in body:
      r["why"] = "out of memory"
    if "CBMC timed out" in body:
      r["why"] = "timeout"
    m = re.match(r"VERIFICATION:- (\w+)", body)
    if m:
      if m.group(1) == "SUCCESSFUL":
        r["state"] = "ok"
        if r["covers"] and r["covers"][0] < r["covers"][1]:
          r["state"], r["why"] = "undecided", "vacuous: %d of %d reachability checks" % r["covers"]
      else:
        real = [f for f in r["failures"] if not any(u in f for u in UNDECIDED)]
        if real:
          r["state"] = "failed"
        else:
          r["state"] = "undecided"
          if r["failures"]:
            r["why"] = "; ".join(r["failures"][:3])
    m = re.match(r"Verification Time: ([\d.]+)s", body)
    if m:
      r["time"] = float(m.group(1))
  for n in names:
    res.setdefault(n, dict(state="undecided", checks=0, failures=[], why="not run", time=None, covers=None))
  return {n: res[n] for n in names}


def kani(crate, names, budget):
  err = prepare(crate)
  if err:
    return {n: dict(state="undecided", checks=0, failures=[], why=err, time=None) for n in names}, err
  rc, out = kani_run(crate, names, budget, 8, min(300, max(30, int(budget * 0.9))))
  res = kani_parse(out, names)
  if all(r["why"] == "not run" for r in res.values() if r["state"] == "undecided") and not any(
      r["state"] == "ok" for r in res.values()):
    tail = "\n".join(l for l in out.splitlines() if re.match(r"\s*(error|-->|\||\d+ \|)", l))[-3000:]
    for r in res.values():
      r["why"] = "the contracts do not build for the verifier"
    return res, out[-6000:] if not tail else tail
  lost = [n for n in names if res[n]["why"] in ("not run", "no result", "out of memory") and res[n]["state"] == "undecided"]
  if lost and left() > 250:
    log("running again with less parallelism:", " ".join(lost))
    rc, out2 = kani_run(crate, lost, min(left() - 150, budget), 2, 300)
    again = kani_parse(out2, lost)
    res.update(again)
    out += out2
  return res, out


def kani_counterexample(crate, name, budget):
  """the inputs of the verifier's counterexample, as one byte string"""
  cmd = ["cargo", "kani", "--exact", "--harness", name, "--target-dir", os.path.join(BUILD, "kani", crate),
         "--no-assertion-reach-checks", "-Z", "stubbing", "-Z", "concrete-playback", "--concrete-playback=print"]
  rc, out = run(cmd, os.path.join(VERIF, "kani", crate), budget)
  tests = []
  for t in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S):
    b = []
    for v in re.findall(r"^\s*vec!\[([\d, ]*)\]", t, re.M):
      b += [int(x) for x in v.split(",") if x.strip()]
    tests.append(bytes(b).hex())
  return tests[:4]


# ------------------------------------------------------------------ native execution of the contracts

class Native:
  def __init__(self, crate):
    self.crate = crate
    self.dir = os.path.join(VERIF, "native", crate)
    self.target = os.path.join(BUILD, "native")
    self.bin = None
    self.error = None
    self.names = []

  def build(self, timeout):
    err = prepare("native-" + self.crate)
    if err:
      self.error = err
      return False
    rc, out = run(["cargo", "build", "--offline", "--target-dir", self.target], self.dir, timeout)
    if rc != 0:
      self.error = out[-4000:]
      return False
    self.bin = os.path.join(self.target, "debug", "n" + self.crate)
    rc, out = run([self.bin, "list"], self.dir, 60)
    self.names = out.split()
    return True

  def select(self, prop, tier):
    return [n for n in self.names if serves(n, prop, tier)]

  def one(self, name, secs, seed, case=None, given=None):
    args = [self.bin, name, str(secs), str(seed)]
    if case is not None:
      args.append(str(case))
    if given is not None:
      args.append(given)
    state = os.path.join(BUILD, "state-%s-%s-%d" % (name, seed, os.getpid()))
    env = dict(ENV, RT_STATE=state, RUST_BACKTRACE="0", ASAN_OPTIONS="detect_leaks=0")
    rc, out = run(args, BUILD, secs + 240, env)
    last = None
    try:
      last = int(open(state).read())
      os.remove(state)
    except (OSError, ValueError):
      pass
    m = re.search(r"^FAIL (\S+) (\d+) inputs=(\S*) ?(.*)$", out, re.M)
    if m:
      return dict(name=name, state="fail", case=int(m.group(2)), inputs=m.group(3), message=m.group(4), seed=seed, given=given)
    m = re.search(r"^OK (\S+) cases=(\d+) accepted=(\d+)( complete)?$", out, re.M)
    if m:
      return dict(name=name, state="ok", cases=int(m.group(2)), accepted=int(m.group(3)), complete=bool(m.group(4)))
    if "ABSENT" in out:
      return dict(name=name, state="absent")
    if rc is None:
      return dict(name=name, state="fail", case=last or 0, inputs="", message="the call does not return", seed=seed, given=given)
    return dict(name=name, state="fail", case=last or 0, inputs="", seed=seed, given=given,
                message="the process died (status %s): %s" % (rc, out[-1500:].replace("\n", " ")))

  def many(self, names, secs, seed):
    with ThreadPoolExecutor(8) as ex:
      return list(ex.map(lambda n: self.one(n, secs, seed), names))

  def confirmed(self, f):
    """a failure counts when it happens again"""
    if f["message"] == "the call does not return":
      return f
    g = self.one(f["name"], 1, f["seed"], f["case"], f.get("given"))
    return g if g["state"] == "fail" else None


# ------------------------------------------------------------------ reporting

def write_replay(prop, title, obligation, verifier_output, native=None, f=None):
  os.makedirs(REPLAYS, exist_ok=True)
  path = os.path.join(REPLAYS, "%s.sh" % prop)
  with open(path, "w") as o:
    o.write("#!/bin/bash\n# %s: %s\n# violated obligation: %s\n" % (prop, title, " ".join(obligation.split())))
    if f:
      o.write("# contract %s, case %d of seed %s: %s\n" % (f["name"], f["case"], f["seed"], f["message"]))
      o.write("# inputs drawn, in order: %s\n" % f["inputs"])
      o.write("# runs the contract on /repo's current tree with these inputs; prints FAIL when it is violated\n")
      o.write("cd %s && python3 %s/extract.py native-%s && CARGO_NET_OFFLINE=true cargo build --offline --target-dir %s && %s %s 1 %s %d %s\n" % (
        native.dir, HERE, native.crate, native.target, native.bin, f["name"], f["seed"], f["case"], f.get("given") or ""))
    else:
      o.write("# the verifier gives no failing input that the real code reproduces\n")
    o.write("exit\n")
    o.write("---- verifier output ----\n" + verifier_output[-20000:] + "\n")
  os.chmod(path, 0o755)
  return path


def known():
  """property -> texts of recorded findings"""
  res = {}
  try:
    for line in open(os.path.join(VERIF, "KNOWN_FINDINGS")):
      m = re.match(r"finding: property=(\S+) contract=(\S+) (.*)", line)
      if m:
        res.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
  except OSError:
    pass
  return res


def main():
  prop = sys.argv[1]
  tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
  seed = int(os.environ.get("VERIF_SEED", "1") or 1)
  cfg = PROPS[prop]
  os.makedirs(BUILD, exist_ok=True)
  findings = known().get(prop, {})
  thorough = tier == "thorough"
  obligations = discharged = 0
  per_harness, undecided, failed, outputs = {}, {}, {}, []
  functions = list(cfg.get("functions", []))
  solver_s = 0.0

  # native build in parallel with the verifiers
  natives = [Native(c) for c in cfg.get("native", [])]
  built = {}

  def build_natives():
    for n in natives:
      built[n.crate] = n.build(400)
  th = threading.Thread(target=build_natives)
  th.start()

  for crate in cfg.get("kani", []):
    names = kani_names(crate, prop, tier)
    if not names:
      continue
    log("kani", crate, len(names), "contracts")
    res, out = kani(crate, names, min(cfg.get("kani_budget", 480), left() - 200))
    outputs.append(out)
    for n in names:
      r = res[n]
      obligations += max(1, r["checks"])
      if r["state"] == "ok":
        discharged += max(1, r["checks"])
      elif r["state"] == "failed":
        failed["kani:%s:%s" % (crate, n)] = r["failures"]
      else:
        undecided["kani:%s:%s" % (crate, n)] = r["why"]
      solver_s += r["time"] or 0
      per_harness["kani:%s:%s" % (crate, n)] = dict(state=r["state"], obligations=r["checks"], seconds=r["time"],
                                                   reached=r.get("covers"))
  for unit in cfg.get("verus", []):
    log("verus", unit)
    r = verus_units.check(unit, REPO, os.path.join(BUILD, "verus"), run, min(300, left() - 150))
    outputs.append(r["output"])
    obligations += max(1, r["obligations"])
    discharged += r["discharged"]
    solver_s += r["seconds"]
    per_harness["verus:" + unit] = dict(state=r["state"], obligations=r["obligations"], seconds=r["seconds"],
                                        functions=r["functions"])
    if r["state"] == "failed":
      failed["verus:" + unit] = r["failures"]
    elif r["state"] != "ok":
      undecided["verus:" + unit] = r["why"]
  th.join()
  for k, w in undecided.items():
    log("undecided", k, w)
  for k, w in failed.items():
    log("failed obligation", k, "; ".join(w[:4]))

  # ---- native companion
  secs = cfg.get("native_s", 3 if not thorough else 25)
  if thorough:
    secs = max(secs, 25)
  elif failed or undecided:
    secs = max(secs, 8)
  cases = 0
  violations = []
  native_report = {}
  nat_by = {}
  any_native = False
  for n in natives:
    if not built.get(n.crate):
      log("native build failed", n.crate, (n.error or "")[-1500:])
      continue
    any_native = True
    names = n.select(prop, tier)
    for r in n.many(names, secs, seed):
      nat_by[r["name"]] = n
      if r["state"] == "ok":
        cases += r["accepted"]
        native_report[r["name"]] = dict(cases=r["accepted"], complete=r["complete"])
      elif r["state"] == "fail":
        r = n.confirmed(r)
        if r is None:
          continue
        native_report[r["name"]] = dict(failed=r["message"])
        if r["name"] in findings:
          print("KNOWN-FINDING: property=%s %s" % (prop, findings[r["name"]]))
          continue
        violations.append((n, r))
    log("native", n.crate, len(names), "contracts,", cases, "cases")

  alarm = None
  text = "\n".join(outputs)
  if violations:
    n, f = violations[0]
    ob = "contract %s: %s" % (f["name"], f["message"])
    if failed:
      ob += "; failed obligations: " + "; ".join("%s: %s" % (k, ", ".join(v[:4])) for k, v in failed.items())
    alarm = (write_replay(prop, cfg["title"], ob, text, n, f), "")
  elif failed:
    # feed the verifier's counterexample to the real code
    for k, why in failed.items():
      if not k.startswith("kani:") or left() < 60:
        continue
      _, crate, name = k.split(":")
      n = next((n for n in natives if built.get(n.crate) and name in n.names), None)
      if n is None:
        continue
      log("counterexample of", name)
      for given in kani_counterexample(crate, name, min(300, left() - 30)):
        for case in range(0, 3):
          f = n.one(name, 1, seed, case, given)
          if f["state"] == "fail":
            alarm = (write_replay(prop, cfg["title"], "contract %s: %s; %s" % (name, f["message"], "; ".join(why)), text, n, f), "")
            break
        if alarm:
          break
      if alarm:
        break
    if not alarm and any_native:
      # a longer search with other seeds
      names = [k.split(":")[2] for k in failed if k.startswith("kani:")]
      for n in natives:
        if alarm or not built.get(n.crate):
          continue
        todo = [x for x in n.select(prop, tier) if x in names] or n.select(prop, tier)
        for s in (2, 3):
          if left() < 60:
            break
          for r in n.many(todo, 10, seed * 1000 + s):
            if r["state"] == "fail" and n.confirmed(r):
              alarm = (write_replay(prop, cfg["title"], "contract %s: %s" % (r["name"], r["message"]), text, n, r), "")
              break
          if alarm:
            break
    if not alarm:
      ob = "; ".join("%s: %s" % (k, ", ".join(v[:4])) for k, v in failed.items())
      alarm = (write_replay(prop, cfg["title"], ob, text), " no-failing-input-found")

  # ---- evidence
  level = cfg["level"]
  note = cfg.get("bounds", "")
  complete = not undecided and not failed and not alarm
  if level == "proof" and not complete:
    level = "other"
  cov = dict(obligations=obligations, discharged=discharged,
             checker_cmd="cargo kani --harness <contract> -Z stubbing (CBMC 6.11, CaDiCaL); verus (Z3): see units",
             trusted_base=COMMON_TRUST + cfg.get("trust", []),
             functions_under_contract=functions, units=per_harness, solver_seconds=round(solver_s, 1),
             native_contract_runs=native_report, evaluations=cases, bounds=note,
             undecided=undecided, failed={k: v for k, v in failed.items()})
  cov["explanation"] = (cfg.get("explanation", "") + (
    "" if complete else " THIS RUN: %d of %d obligations discharged; undecided units were decided by running the contracts natively (%d cases)." % (
      discharged, obligations, cases))).strip() or "contracts proved by the units listed"
  ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
            assumptions=COMMON_TRUST + cfg.get("trust", []), wall_s=round(time.time() - T0, 1),
            violations=1 if alarm else 0)
  os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
  with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as o:
    json.dump(ev, o, indent=1)
  if alarm:
    print("VIOLATION property=%s replay=%s%s" % (prop, alarm[0], alarm[1]), flush=True)
    return 1
  if not any_native and undecided and discharged == 0:
    log("no answer: neither the verifier nor the native contracts could be built on this tree")
    return 2
  print("HELD property=%s obligations=%d discharged=%d native_cases=%d undecided=%d wall=%.0fs" % (
    prop, obligations, discharged, cases, len(undecided), time.time() - T0))
  return 0


if __name__ == "__main__":
  sys.exit(main())
