SPECIFICATION Spec
CONSTANTS
 L = 7
 Ops = {"arg", "grad", "gpoint", "fastg", "deriv"}
 Integs = {"conv", "flux", "lf", "temam", "tface", "tiface"}
 Law = FALSE
CHECK_DEADLOCK FALSE
