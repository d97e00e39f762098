SPECIFICATION Spec
PROPERTIES Persistent Loaded
CHECK_DEADLOCK FALSE
