SPECIFICATION Spec
CONSTANTS
  Machines = {a, b, c, d}
  MaxRounds = 2
  MaxShards = 3
  Cls = {"unknown", "infinite"}
  Careless = FALSE
INVARIANTS EverythingAccounted ShardsCover
PROPERTY Monotone
CHECK_DEADLOCK FALSE
