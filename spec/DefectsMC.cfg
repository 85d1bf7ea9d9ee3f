SPECIFICATION Spec
CONSTANTS NV = 4 MaxF = 3 Star = FALSE
INVARIANTS FanAgrees EdgesAgree Balanced EdgeMakesVertex Partition
CHECK_DEADLOCK FALSE
