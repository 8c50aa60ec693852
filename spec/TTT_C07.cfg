SPECIFICATION Spec
INVARIANTS TypeOK OneWinner Alternates C07
CHECK_DEADLOCK FALSE
