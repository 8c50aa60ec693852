SPECIFICATION Spec
CONSTANTS GAMES = {"ttt", "bg"} W = {1, 2} RUNS = {"run-1"}
INVARIANTS TypesOk BestIsThere
PROPERTIES OwnFilesOnly RefusedLeavesNothing RulesAgree
CHECK_DEADLOCK FALSE
VIEW Folder
