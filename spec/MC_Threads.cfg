SPECIFICATION Spec
CONSTANTS
  Workers <- MCWorkers
  Pieces <- PiecesEach
  Questions <- MCQuestions
  Answer <- MCAnswer
INVARIANTS Independent WriteOut
PROPERTY Ends
CHECK_DEADLOCK FALSE
