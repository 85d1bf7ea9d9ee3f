SPECIFICATION Spec
CONSTANTS Cmds = {"boolean"} MaxToks = 4 Names = {"a", "b"} Keep = FALSE Early = FALSE
INVARIANTS EndsRight NothingIgnored AsNamed NotBoth

CHECK_DEADLOCK FALSE
