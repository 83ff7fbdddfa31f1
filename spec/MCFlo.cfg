SPECIFICATION Spec
CONSTANTS
  Attachers = {a1, a2, a3}
  Drainers = {d1, d2}
  Alg = "inode"
  MaxIno = 4
  Files = {f, g}
INVARIANT Inv
CHECK_DEADLOCK FALSE
