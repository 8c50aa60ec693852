SPECIFICATION Spec
CONSTANTS GAMES = {"ttt", "bg"} W = {1, 2, 3} RUNS = {"run-1", "run-2"}
INVARIANTS TypesOk BestIsThere
PROPERTIES OwnFilesOnly RefusedLeavesNothing RulesAgree
CHECK_DEADLOCK FALSE
VIEW Folder
