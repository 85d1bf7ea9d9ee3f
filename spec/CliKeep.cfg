SPECIFICATION Spec
CONSTANTS Cmds = {"boolean"} MaxToks = 3 Names = {"a", "b"} Keep = TRUE Early = FALSE
INVARIANTS EndsRight NothingIgnored AsNamed NotBoth

CHECK_DEADLOCK FALSE
