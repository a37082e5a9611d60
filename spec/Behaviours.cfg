SPECIFICATION Behaviour
CONSTANTS Nobody = "none"
          Expected <- LookedUp
          Geometry <- Checked
CHECK_DEADLOCK FALSE
