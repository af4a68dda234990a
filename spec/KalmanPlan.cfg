SPECIFICATION Spec
VIEW Abstract
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
