SPECIFICATION Spec
CONSTANTS
 L = 6
 Ops = {"arg", "full", "full", "uniform"}
 Integs = {"temam", "tface", "tiface", "lf", "lf"}
 Law = TRUE
CHECK_DEADLOCK FALSE
