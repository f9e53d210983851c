"""Which monitor binaries decide which property."""
CHECKS = {f"C{i:02d}": {"bins": [(f"c{i:02d}", "plain")]} for i in range(1, 31)}
CHECKS["C08"]["bins"] = [("c08", "plain"), ("c08", "tsan")]
CHECKS["C01"]["assumptions"] = [
    "unit directions are those the code's own Direction type produces (unit "
    "to rounding)"]
CHECKS["C21"]["bins"] = [("c21", "plain"), ("c21", "asan")]
CHECKS["C22"]["bins"] = [("c22", "plain"), ("c22", "asan")]
CHECKS["C22"]["program"] = "plain"
CHECKS["C23"]["bins"] = [("c23", "asan"), ("c23", "plain")]
CHECKS["C23"]["program"] = "plain"
CHECKS["C25"]["program"] = "plain"
# What C27 says of whole histories includes the laws of their parts: its check
# runs its own simulation and the monitors of the laws.
CHECKS["C27"]["bins"] = [(b, "plain") for b in (
    "c27", "c10", "c11", "c12", "c13", "c14", "c15", "c16", "c17", "c18",
    "c20", "c26", "c02", "c03", "c04", "c05", "c07")]
