SPECIFICATION Spec
CONSTANTS MX = 2  VMax = 3
INVARIANTS InRange Monotone AreaBounds Shifted
PROPERTY ExchangeFree
CHECK_DEADLOCK FALSE
VIEW Fields
