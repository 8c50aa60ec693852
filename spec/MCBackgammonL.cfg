SPECIFICATION Spec
CONSTANTS N = 7
          H = 3
          NC = 3
          DIE = 3
          StartPts <- S73
INVARIANTS TypeOK Conservation SecondIsDouble OneWinner PlaysAreLegal PlaysAreFullest DiceOrderFree CodesUnique WinnerIsDone InputFaithful
PROPERTIES WinnerIsMover PipsFall DoubleProtocol
CHECK_DEADLOCK FALSE
