SPECIFICATION Spec
CONSTANTS NV = 6 MaxF = 4 Star = TRUE
INVARIANTS FanAgrees EdgesAgree Balanced EdgeMakesVertex Partition
CHECK_DEADLOCK FALSE
