SPECIFICATION LongSpec
CONSTANTS
  Slots <- MCSlots
  Docs <- MCDocs
  Calls <- MCCalls
  Mutable <- MCMutable
  Vias <- MCVias
  Fresh <- MCFresh
INVARIANTS Repeatable WriteOut
CHECK_DEADLOCK FALSE
