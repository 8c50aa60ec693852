SPECIFICATION Spec
INVARIANTS TypeOK OneWinner Alternates C08 C08start
CHECK_DEADLOCK FALSE
