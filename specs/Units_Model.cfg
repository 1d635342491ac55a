SPECIFICATION Spec
CONSTANT Reach = 1
INVARIANTS AsTabled OnlyItsDimension
PROPERTY Reversible
CHECK_DEADLOCK FALSE
