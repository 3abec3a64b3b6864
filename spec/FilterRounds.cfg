SPECIFICATION RSpec
CONSTANTS
  Machines = {}
  MaxRounds = 0
  MaxShards = 0
  Cls = {}
  Careless = FALSE
CHECK_DEADLOCK FALSE
