CONSTANTS Plants = {"a.plant", "b.plant"}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
