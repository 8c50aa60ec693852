SPECIFICATION Spec
CONSTANTS MOVES = 4 MOSTVISITS = 9 INVERSES = {1, 2, 4}
INVARIANTS OnlyVisited MoreVisitsMoreChance PlainShares AsTickets CoolerIsGreedier NotAlwaysTheSame NotOnlyTheFirst ExpectedIsFair OddsOfATurn SureWins
CHECK_DEADLOCK FALSE
