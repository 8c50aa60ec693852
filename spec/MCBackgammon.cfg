SPECIFICATION Spec
CONSTANTS N = 6
          H = 2
          NC = 2
          DIE = 2
          StartPts <- S62
INVARIANTS TypeOK Conservation SecondIsDouble OneWinner PlaysAreLegal PlaysAreFullest DiceOrderFree CodesUnique WinnerIsDone InputFaithful
PROPERTIES WinnerIsMover PipsFall DoubleProtocol
CHECK_DEADLOCK FALSE
