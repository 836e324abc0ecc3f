def check(unit, repo, build, run, timeout):
  raise NotImplementedError
