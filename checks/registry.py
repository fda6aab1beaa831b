"""property -> (module, function, level)"""
CHECKS = {p: ("weld", "general", "exploration") for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13")}
CHECKS["C08"] = ("weld", "c08", "exploration")
CHECKS["C11"] = ("weld", "c11", "exploration")
CHECKS["C12"] = ("weld", "c12", "exploration")
CHECKS["C13"] = ("weld", "c13", "exploration")
CHECKS["C14"] = ("files", "c14", "exploration")
CHECKS["C15"] = ("cli", "c15", "exploration")
CHECKS["C16"] = ("cli", "c16", "exploration")
CHECKS["C17"] = ("threads", "c17", "exploration")
CHECKS["C18"] = ("memory", "c18", "exploration")
CHECKS["C20"] = ("track", "c20", "exploration")
CHECKS["C21"] = ("track", "c21", "exploration")
CHECKS["C22"] = ("track", "c22", "exploration")
for _p in ("C23", "C24", "C25", "C26"): CHECKS[_p] = ("straight", "arcs", "exploration")
CHECKS["C27"] = ("straight", "c27", "exploration")
CHECKS["C31"] = ("straight", "c31", "exploration")
CHECKS["C28"] = ("roundtrip", "c28", "exploration")
CHECKS["C19"] = ("compress", "c19", "exploration")
CHECKS["C32"] = ("again", "c32", "exploration")
CHECKS["C29"] = ("pybind", "c29", "exploration")
CHECKS["C30"] = ("pybind", "c30", "exploration")
CHECKS["C33"] = ("printed", "c33", "exploration")
CHECKS["C34"] = ("weld", "c34", "exploration")
CHECKS["C35"] = ("printing", "c35", "exploration")
CHECKS["C36"] = ("logs", "c36", "exploration")
