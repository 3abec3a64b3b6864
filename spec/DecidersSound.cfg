SPECIFICATION SoundSpec
INVARIANT Sound
CHECK_DEADLOCK FALSE
