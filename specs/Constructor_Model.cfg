SPECIFICATION Spec
CONSTANT MaxEdits = 3
INVARIANTS StartsGood SomeOutcome Maximum MaskFree Downward
