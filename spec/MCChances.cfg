SPECIFICATION Spec
CONSTANTS MOVES = 3 MOSTVISITS = 8 INVERSES = {1, 2, 4}
INVARIANTS OnlyVisited MoreVisitsMoreChance PlainShares AsTickets CoolerIsGreedier NotAlwaysTheSame NotOnlyTheFirst ExpectedIsFair OddsOfATurn SureWins
CHECK_DEADLOCK FALSE
