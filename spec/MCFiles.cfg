SPECIFICATION Spec
CONSTANTS Dirs = {1, 2} Samples <- S1 Paths = {1, 2} Nets = {1, 2} Folders = {1} GameIds = {1, 2}
INVARIANTS Lossless OneEach
PROPERTY Separate
