SPECIFICATION Spec
CONSTANTS
  Payloads <- MCPayloads
  Hdr = 1
  MaxRecs = 3
INVARIANTS PrefixRead QuietEnd CutEnd Complete
PROPERTY Ends
CHECK_DEADLOCK FALSE
