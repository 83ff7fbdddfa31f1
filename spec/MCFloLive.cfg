SPECIFICATION Spec
CONSTANTS
  Attachers = {a1, a2}
  Drainers = {d1, d2}
  Alg = "inode"
  MaxIno = 4
  Files = {f, g}
PROPERTY Ends
CHECK_DEADLOCK FALSE
