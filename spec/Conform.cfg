SPECIFICATION Spec
VIEW View
INVARIANTS
  TypeOk
  CondOk
CHECK_DEADLOCK FALSE
