SPECIFICATION Spec
CONSTANTS Sizes <- SizesC Kappas = {1, 3} Scales = {1, 4} Slopes <- SlopesC Alphas = {1, 2} Emit = TRUE
INVARIANTS Symmetric Slope Balance Numbering Unity Peak Export
CHECK_DEADLOCK FALSE
