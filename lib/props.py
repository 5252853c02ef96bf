"""What each property's check consists of: drivers (real code -> recorded sessions), the trace
specification that judges them, model checks of the specification itself, TLC-generated behaviours."""
TECHNIQUE = "TLA+ specification, TLC model checking + trace validation of recorded executions of the real code"
LEVEL_NOTE = "Every recorded execution (seeded random and small-scope enumerated operation histories, edge sizes favoured) is checked by TLC, step by step with arguments and results, against the TLA+ machine; crashes, hangs and address-sanitizer errors are rejected events. Bounded by the histories recorded; trusts TLC, the compiler and the recording driver."
PROPS = {
    "C01": {"gen": [{"name": "g01", "module": "Gen_C01", "tcfg": "Gen_C01_t.cfg"}], "drivers": [{"name": "c01", "src": "c01.cpp", "script": "g01"}], "trace": "T_C01"},
    "C02": {"drivers": [{"name": "c02", "src": "c02.cpp"}], "trace": "T_C02"},
    "C03": {"gen": [{"name": "g03", "module": "Gen_C03", "tcfg": "Gen_C03_t.cfg"}], "drivers": [{"name": "c03", "src": "c03.cpp", "script": "g03"}], "trace": "T_C03"},
    "C04": {"gen": [{"name": "g04", "module": "Gen_C04", "tcfg": "Gen_C04_t.cfg"}], "drivers": [{"name": "c04", "src": "c04.cpp", "script": "g04"}], "trace": "T_C04"},
    "C05": {"gen": [{"name": "g05", "module": "Gen_C05", "tcfg": "Gen_C05_t.cfg"}], "drivers": [{"name": "c05", "src": "c05.cpp", "script": "g05"}], "trace": "T_C05"},
    "C06": {"gen": [{"name": "g06", "module": "Gen_C06", "tcfg": "Gen_C06_t.cfg"}], "drivers": [{"name": "c06", "src": "c06.cpp", "script": "g06"}], "trace": "T_C06"},
    "C07": {"gen": [{"name": "g07", "module": "Gen_C07", "tcfg": "Gen_C07_t.cfg"}], "drivers": [{"name": "c07", "src": "c07.cpp", "script": "g07"}], "trace": "T_C07"},
    "C08": {"drivers": [{"name": "c08", "src": "c08.cpp"}], "trace": "T_C08"},
    "C09": {"drivers": [{"name": "c09", "src": "c09.cpp"}], "trace": "T_C09"},
    "C12": {"gen": [{"name": "g12", "module": "Gen_C12", "tcfg": "Gen_C12_t.cfg"}], "drivers": [{"name": "c12", "src": "c12.cpp", "script": "g12"}], "trace": "T_C12"},
    "C13": {"drivers": [{"name": "c13", "src": "c13.cpp"}], "trace": "T_C13"},
    "C14": {"drivers": [{"name": "c14", "src": "c14.cpp"}], "trace": "T_C14"},
    "C15": {"drivers": [{"name": "c15", "src": "c15.cpp"}], "trace": "T_C15"},
    "C16": {"drivers": [{"name": "c16", "src": "c16.cpp"}], "trace": "T_C16"},
    "C17": {"drivers": [{"name": "c17", "src": "c17.cpp"}], "trace": "T_C17"},
    "C18": {"mc": [{"module": "MC_Str"}], "drivers": [{"name": "c18", "src": "c18.cpp"}], "trace": "T_C18"},
    "C19": {"mc": [{"module": "MC_Num"}], "drivers": [{"name": "c19", "src": "c19.cpp"}], "trace": "T_C19"},
    "C20": {"mc": [{"module": "MC_Big"}], "drivers": [{"name": "c20", "src": "c20.cpp"}, {"name": "c20b", "src": "c20b.cpp"}], "trace": "T_C20"},
    "C21": {"drivers": [{"name": "c21", "src": "c21.cpp"}, {"name": "c21b", "src": "c21b.cpp"}], "trace": "T_C21"},
    "C22": {"mc": [{"module": "MC_Lin"}], "drivers": [{"name": "c22", "src": "c22.cpp"}], "trace": "T_C22"},
    "C23": {"mc": [{"module": "MC_Poly"}], "drivers": [{"name": "c23", "src": "c23.cpp"}, {"name": "c23b", "src": "c23b.cpp"}, {"name": "c23c", "src": "c23c.cpp", "opt": ["-O2"], "asan": False}], "trace": "T_C23"},
    "C24": {"drivers": [{"name": "c24", "src": "c24.cpp"}], "trace": "T_C24"},
    "C25": {"drivers": [{"name": "c25", "src": "c25.cpp"}], "trace": "T_C25"},
    "C26": {"mc": [{"module": "MC_Comb"}], "drivers": [{"name": "c26", "src": "c26.cpp"}], "trace": "T_C26"},
    "C27": {"drivers": [{"name": "c27", "src": "c27.cpp"}], "trace": "T_C27"},
    "C28": {"drivers": [{"name": "c28", "src": "c28.cpp"}], "trace": "T_C28"},
    "C29": {"drivers": [{"name": "c29", "src": "c29.cpp"}], "trace": "T_C29"},
    "C30": {"mc": [{"module": "MC_Nim"}], "drivers": [{"name": "c30", "src": "c30.cpp"}], "trace": "T_C30"},
}
