def bbc_bytes(tt):
  """A 5x2 machine as the bbchallenge database stores it."""
  out = []
  for row in tt:
    for w, d, q in row:
      out += [0, 0, 0] if w < 0 else [w, 1 - d, q + 1]
  return out
