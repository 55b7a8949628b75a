"""Crash states of code that writes files, whatever API it writes them with.

`watch(root, fn)` runs fn() under a profiling hook and records what the
operating system sees below root at every Python call, return, builtin call
and builtin return; the distinct snapshots, in order, are the states a crash
between two operations can leave.  `crash_states` adds the torn ones: for each
file that grew or was replaced between two snapshots, every prefix of its new
bytes.  A file that appears by renaming one that was already there is atomic.
"""
import os
import sys


def snapshot(root, cache=None):
  """{relative path: (inode, bytes)} of the regular files below root."""
  out = {}
  stack = [root]
  while stack:
    d = stack.pop()
    try:
      it = list(os.scandir(d))
    except FileNotFoundError:
      continue
    for e in it:
      try:
        if e.is_dir(follow_symlinks=False):
          stack.append(e.path)
          out[os.path.relpath(e.path, root) + '/'] = (0, b'')
          continue
        st = e.stat(follow_symlinks=False)
        sig = (st.st_ino, st.st_size, st.st_mtime_ns)
        key = e.path
        if cache is not None and cache.get(key, (None,))[0] == sig:
          data = cache[key][1]
        else:
          with open(e.path, 'rb') as f:
            data = f.read()
          if cache is not None:
            cache[key] = (sig, data)
        out[os.path.relpath(e.path, root)] = (st.st_ino, data)
      except FileNotFoundError:
        continue
  return out


def same(a, b):
  return a.keys() == b.keys() and all(a[k][1] == b[k][1] for k in a)


def watch(root, fn):
  """Runs fn, returns (list of snapshots, result or exception)."""
  cache = {}
  snaps = [snapshot(root, cache)]
  busy = [False]

  def look():
    s = snapshot(root, cache)
    if not same(s, snaps[-1]):
      snaps.append(s)

  def hook(frame, event, arg):
    if busy[0]:
      return
    busy[0] = True
    try:
      look()
    finally:
      busy[0] = False

  old = sys.getprofile()
  err = None
  sys.setprofile(hook)
  try:
    fn()
  except Exception as e:  # pylint: disable=broad-except
    err = e
  finally:
    sys.setprofile(old)
  look()
  return snaps, err


def crash_states(snaps, torn=lambda path, old, new: range(len(new))):
  """Yields (label, {path: bytes}) for every crash state, torn ones included.

  torn(path, old, new) gives the lengths of the prefixes of new to produce.
  """
  for i, s in enumerate(snaps):
    base = {k: v[1] for k, v in s.items()}
    yield f'after operation {i}', base
    if i + 1 == len(snaps):
      break
    nxt = snaps[i + 1]
    inodes = {v[0]: k for k, v in s.items() if not k.endswith('/')}
    for k, (ino, data) in nxt.items():
      if k.endswith('/') or (k in s and s[k][1] == data):
        continue
      moved = inodes.get(ino)
      if moved is not None and moved != k and s[moved][1] == data:
        continue  # renamed: atomic
      old = s[k][1] if k in s else b''
      lo = len(old) if data.startswith(old) and k in s else 0
      for n in torn(k, old, data):
        if n < lo or n >= len(data):
          continue
        if n == lo and k in s and lo:
          continue
        st = dict(base)
        st[k] = data[:n]
        yield f'{k} torn at {n} of {len(data)} bytes', st


def restore(state, root):
  """Writes a crash state below an empty root."""
  for k, data in state.items():
    p = os.path.join(root, k)
    if k.endswith('/'):
      os.makedirs(p, exist_ok=True)
      continue
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'wb') as f:
      f.write(data)
