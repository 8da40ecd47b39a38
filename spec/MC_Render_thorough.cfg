INIT Init
NEXT Next
INVARIANTS WidthOk Prefixed TextOnce Sided
CONSTANT MaxOuter = 40
