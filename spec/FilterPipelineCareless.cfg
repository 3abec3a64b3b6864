SPECIFICATION Spec
CONSTANTS
  Machines = {a, b, c}
  MaxRounds = 2
  MaxShards = 2
  Cls = {"unknown", "infinite", "halt.unk"}
  Careless = TRUE
INVARIANTS EverythingAccounted ShardsCover
PROPERTY Monotone
CHECK_DEADLOCK FALSE
