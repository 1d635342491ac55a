SPECIFICATION Spec
CONSTANTS MX = 3  VMax = 2
INVARIANTS InRange Monotone AreaBounds Shifted
PROPERTY ExchangeFree
CHECK_DEADLOCK FALSE
VIEW Fields
