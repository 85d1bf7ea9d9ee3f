SPECIFICATION Spec
CONSTANTS NV = 6 MaxF = 5 Star = TRUE
INVARIANTS FanAgrees EdgesAgree Balanced EdgeMakesVertex Partition
CHECK_DEADLOCK FALSE
