SPECIFICATION Spec
CONSTANTS Cmds = {"convert", "defects"} MaxToks = 3 Names = {"a", "b"} Keep = FALSE Early = FALSE
INVARIANTS EndsRight NothingIgnored AsNamed NotBoth
PROPERTIES Ends
CHECK_DEADLOCK FALSE
