SPECIFICATION Spec
CONSTANTS Cmds = {"convert"} MaxToks = 3 Names = {"a", "b"} Keep = FALSE Early = TRUE
INVARIANTS EndsRight NothingIgnored AsNamed NotBoth

CHECK_DEADLOCK FALSE
