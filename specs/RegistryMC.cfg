SPECIFICATION Spec
CONSTANT Threads = {1, 2, 3}
CONSTANT Names = {1, 2}
CONSTANT MaxOps = 2
INVARIANT OneToOne
INVARIANT Known
INVARIANT Same
PROPERTY Refines
PROPERTY Returns
