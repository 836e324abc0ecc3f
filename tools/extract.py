#!/usr/bin/env python3
r"""Mechanical copies of /repo's sources that some contract crates are built from.

keychain   -> .build/src/keychain   : /repo/keychain with exactly these changes:
    - every path `std::collections` becomes `::verif_collections` (HashMap by its contract);
    - lib.rs gets `extern crate verif_collections;` and a module re-exporting private error types;
    - Cargo.toml: the same dependencies, with paths to /repo/bip39 and the contract models.
keychain-c -> .build/src/keychain-c-native : /repo/keychain-c/src unchanged, as an ordinary library (rlib)
    over /repo/keychain; .build/src/keychain-c (for Kani): the same over the copy of keychain above, with
    panic::catch_unwind redirected to its contract (models/verif_panic), as Kani can't unwind."""
import os, re, shutil, sys, filecmp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def put(path, text):
  """writes only what changed, so that cargo does not rebuild without need"""
  os.makedirs(os.path.dirname(path), exist_ok=True)
  try:
    if open(path).read() == text:
      return
  except OSError:
    pass
  with open(path, "w") as o:
    o.write(text)


def tree(src, dst, change):
  keep = set()
  for d, _, fs in os.walk(src):
    for f in fs:
      p = os.path.join(d, f)
      r = os.path.relpath(p, src)
      keep.add(r)
      put(os.path.join(dst, r), change(r, open(p, encoding="utf-8").read()))
  for d, _, fs in os.walk(dst):
    for f in fs:
      p = os.path.join(d, f)
      if os.path.relpath(p, dst) not in keep:
        os.remove(p)


EXPORTS = '''
extern crate verif_collections;
/// private items the contracts name
pub mod verif_exports {
  pub use data::Error as DataError;
  pub use key_path::Error as KeyPathError;
  pub use mnemonic::Error as MnemonicError;
}
'''


def deps(text, name):
  """the lines of a section of a Cargo.toml"""
  m = re.search(r"^\[%s\]\n(.*?)(?=^\[|\Z)" % re.escape(name), text, re.S | re.M)
  return m.group(1) if m else ""


def keychain(repo, build):
  src, dst = os.path.join(repo, "keychain"), os.path.join(build, "src", "keychain")

  def change(r, t):
    t = re.sub(r"(?<![\w:])(::)?std::collections\b", "::verif_collections", t)
    if r == "lib.rs":
      t += EXPORTS
    return t
  tree(os.path.join(src, "src"), os.path.join(dst, "src"), change)
  toml = open(os.path.join(src, "Cargo.toml")).read()
  d = deps(toml, "dependencies")
  d = re.sub(r'path\s*=\s*"\.\./bip39"', 'path = "%s/bip39"' % repo, d)
  d = re.sub(r'path\s*=\s*"\.\./secp256k1_bip32"', 'path = "%s/models/secp256k1_bip32"' % VERIF, d)
  put(os.path.join(dst, "Cargo.toml"), '[package]\nname = "tesseract-keychain"\nversion = "0.0.1"\n[dependencies]\n' + d +
      'verif_collections = { path = "%s/models/verif_collections" }\n[lib]\nname = "keychain"\npath = "src/lib.rs"\n[features]\n' % VERIF +
      deps(toml, "features") + '[lints.rust]\nunexpected_cfgs = "allow"\n')


def keychain_c(repo, build, name, path, redirect):
  src, dst = os.path.join(repo, "keychain-c"), os.path.join(build, "src", name)

  def change(r, t):
    if redirect:
      t = re.sub(r"(?<![\w:])(::)?(std::)?panic::catch_unwind\b", "::verif_panic::catch_unwind", t)
    if r == "lib.rs":
      t += "\n" + ("extern crate verif_panic;\n" if redirect else "") + calls
    return t
  # every C function by its name, wherever it is defined
  calls = "/// every function of the C interface\npub mod verif_exports {\n"
  for d, _, fs in sorted(os.walk(os.path.join(src, "src"))):
    for f in sorted(fs):
      mod = os.path.relpath(os.path.join(d, f), os.path.join(src, "src"))[:-3].split(os.sep)
      if mod[-1] == "mod" or mod == ["lib"]:
        mod = mod[:-1]
      for n in re.findall(r'^pub (?:unsafe )?extern "C" fn (\w+)', open(os.path.join(d, f), encoding="utf-8").read(), re.M):
        calls += "  pub use %s;\n" % "::".join(mod + [n])
  calls += "}\n"
  tree(os.path.join(src, "src"), os.path.join(dst, "src"), change)
  toml = open(os.path.join(src, "Cargo.toml")).read()
  d = re.sub(r'path\s*=\s*"\.\./keychain"', 'path = "%s"' % path, deps(toml, "dependencies"))
  put(os.path.join(dst, "Cargo.toml"), '[package]\nname = "tesseract-keychain-c"\nversion = "0.0.1"\n[dependencies]\n' + d +
      ('verif_panic = { path = "%s/models/verif_panic" }\n' % VERIF if redirect else "") + '[lib]\nname = "rust_keychain"\npath = "src/lib.rs"\n[features]\n' + deps(toml, "features") +
      '\n[lints.rust]\nunexpected_cfgs = "allow"\n')


def prepare(kind, repo, build):
  try:
    if kind in ("keychain", "capi"):
      keychain(repo, build)
    if kind == "capi":
      keychain_c(repo, build, "keychain-c", os.path.join(build, "src", "keychain"), True)
    if kind == "native-capi":
      keychain_c(repo, build, "keychain-c-native", os.path.join(repo, "keychain"), False)
  except Exception as e:
    return "extraction failed: %s" % e
  return None


if __name__ == "__main__":
  e = prepare(sys.argv[1], "/repo", os.path.join(VERIF, ".build"))
  if e:
    print(e)
    sys.exit(1)
