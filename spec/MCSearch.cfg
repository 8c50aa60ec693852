SPECIFICATION Spec
CONSTANTS
  Kinds = {"rollout", "single", "batch"}
  Iters = 8
  Cs = {200}
  Limits = {1, 2, 4}
INVARIANTS Tree Path Credit Descent Priors Balance Answers
