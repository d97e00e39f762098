SPECIFICATION Spec
CONSTANTS
 L = 9
 Ops = {"arg", "full", "grad", "point", "gpoint", "fastv", "fastg", "fastv", "fastg"}
 Integs = {"conv", "flux", "lf"}
 Law = FALSE
CHECK_DEADLOCK FALSE
