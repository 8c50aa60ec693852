SPECIFICATION Spec
INVARIANTS TypeOK OneWinner Alternates C05
CHECK_DEADLOCK FALSE
