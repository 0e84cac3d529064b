#!/usr/bin/env python3
"""Builds the instrumented copy of /repo's current working tree.

Every `std::` path (and `core::sync`, `core::time`) of the crate is redirected
to the facade crate vrt::stdx, which re-exports std and replaces sync, thread
and time.  Nothing else is changed, apart from read-only accessors appended to
the subject files (dropped one by one when they do not compile)."""
import os, re, shutil, sys

STD = re.compile(r'(?<![\w:$])(?:::)?std\s*::(?!\s*\*)')
CORE = re.compile(r'(?<![\w:$])(?:::)?core\s*::\s*(?=(?:sync|time|hint)\b)')

TLS = re.compile(r'(?<![\w:$])thread_local\s*!')

ACC = {
  'subjects/subject.rs': (
    'subject_count', 'Subject',
    ['s.observers.read().unwrap().len()', 's.observers.lock().unwrap().len()',
     's.observers.len()', None]),
}
STUB = ('''
pub fn subject_count<'a, Item>(
  _: &crate::subjects::Subject<'a, Item>) -> Option<usize>
where Item: Clone + Send + Sync { None }
''')


def rewrite(text):
  text = STD.sub('::vrt::stdx::', text)
  text = CORE.sub('::vrt::stdx::', text)
  text = TLS.sub('::vrt::vrt_thread_local!', text)
  # `use std;` / `use std as x;` are left alone: nothing to redirect
  return text


def put(path, data):
  os.makedirs(os.path.dirname(path), exist_ok=True)
  try:
    if open(path, 'rb').read() == data:
      return False
  except OSError:
    pass
  with open(path, 'wb') as f:
    f.write(data)
  return True


def accessor(rel, variant):
  fn, ty, bodies = ACC[rel]
  b = bodies[variant]
  body = 'Some(%s)' % b
  return ('\n#[allow(dead_code)]\npub fn __vrt_%s<\'a, Item>(s: &%s<\'a, Item>)'
          ' -> Option<usize>\nwhere Item: Clone + Send + Sync {\n  %s\n}\n'
          % (fn, ty, body))


def edition(repo):
  m = re.search(r'^\s*edition\s*=\s*"(\d+)"',
                open(os.path.join(repo, 'Cargo.toml')).read(), re.M)
  return m.group(1) if m else '2021'


def build(repo, out, vrt, variants):
  """variants: dict rel -> index of the accessor body to use"""
  changed = False
  keep = set()
  src = os.path.join(repo, 'src')
  for d, _, fs in os.walk(src):
    for f in sorted(fs):
      p = os.path.join(d, f)
      rel = os.path.relpath(p, src)
      if rel.startswith('tests' + os.sep) or rel == 'tests.rs':
        continue
      keep.add(rel)
      data = open(p, 'rb').read()
      if f.endswith('.rs'):
        t = rewrite(data.decode('utf-8'))
        if rel in ACC and ACC[rel][2][variants.get(rel, 0)] is not None:
          t += accessor(rel, variants.get(rel, 0))
        if rel == 'lib.rs':
          t = re.sub(r'#!\[doc\s*=\s*include_str!\([^)]*\)\]', '', t)
          acc = 'subjects/subject.rs'
          if os.path.exists(os.path.join(src, acc)) and ACC[acc][2][
              variants.get(acc, 0)] is not None:
            body = ('  pub use crate::subjects::subject::'
                    '__vrt_subject_count as subject_count;\n')
          else:
            body = STUB
          t += '\npub mod __vrt {\n' + body + '}\n'
        data = t.encode('utf-8')
      changed |= put(os.path.join(out, 'src', rel), data)
  for d, _, fs in os.walk(os.path.join(out, 'src')):
    for f in fs:
      p = os.path.join(d, f)
      if os.path.relpath(p, os.path.join(out, 'src')) not in keep:
        os.remove(p)
        changed = True
  toml = '''[package]
name = "another-rxrust"
version = "0.0.0"
edition = "%s"

[lib]
path = "src/lib.rs"

[features]
web = []

[dependencies]
vrt = { path = "%s" }

[workspace]
''' % (edition(repo), vrt)
  changed |= put(os.path.join(out, 'Cargo.toml'), toml.encode())
  return changed


if __name__ == '__main__':
  repo, out, vrt = sys.argv[1:4]
  v = {r: 0 for r in ACC}
  build(repo, out, vrt, v)
