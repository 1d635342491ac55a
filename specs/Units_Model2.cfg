SPECIFICATION Spec
CONSTANT Reach = 2
INVARIANTS AsTabled OnlyItsDimension
PROPERTY Reversible
CHECK_DEADLOCK FALSE
