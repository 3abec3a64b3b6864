import re


def name(text):
  """A machine by its table; a cell at which it stops is written in different ways."""
  return re.sub(r"\d[LR]Z|---", "---", text)
