SPECIFICATION Model
CONSTANTS Nobody = "none"
          Expected <- LookedUp
          Geometry <- Checked
INVARIANTS TypeOK Answerable
PROPERTIES AnswersAreStable QueriesArePure
CHECK_DEADLOCK FALSE
