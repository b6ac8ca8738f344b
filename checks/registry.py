"""What each check runs."""
CHECKS = {
    "C01": {"runs": [{"bin": "structure", "source": "structure.cpp", "flags": "-DREGIONS=0"}], "must_cover": ["accepted", "rejected"]},
    "C02": {"runs": [{"bin": "regions", "source": "structure.cpp", "flags": "-DREGIONS=1"}], "must_cover": ["accepted"]},
    "C03": {"runs": [{"bin": "language", "source": "language.cpp"}], "must_cover": ["accepted", "syntax", "context", "candidate lists"]},
    "C04": {"runs": [{"bin": "lexer", "source": "lexer.cpp"}], "must_cover": ["error tokens", "comments"]},
    "C05": {"runs": [{"bin": "layout", "source": "layout.cpp"}], "must_cover": ["with comments", "with description"]},
    "C06": {"runs": [{"bin": "totality", "source": "totality.cpp", "variant": "san"}], "must_cover": ["trees", "commented"]},
    "C07": {"runs": [{"bin": "values", "source": "values.cpp"}], "must_cover": ["restricted", "concatenated", "sizes", "oversize", "signed", "placeholders", "contextual", "DELIMITED_IDENTIFIER", "HEX_STRING_LITERAL", "HOST_PARAMETER_NAME"]},
    "C08": {"runs": [{"bin": "limits", "source": "limits.cpp"}], "must_cover": ["within", "beyond"]},
    "C09": {"runs": [{"bin": "sequences", "source": "sequences.cpp"}], "must_cover": ["described", "failing"]},
    "C10": {"runs": [{"bin": "enums", "source": "enums.cpp", "flags": "-DENUMS=1"}], "must_cover": ["constants", "subsets", "found", "not found"]},
    "C11": {"runs": [{"bin": "options", "source": "enums.cpp", "flags": "-DENUMS=0"}], "must_cover": ["histories", "option histories"]},
    "C12": {"runs": [{"bin": "astvalues", "source": "astvalues.cpp"}], "must_cover": ["values", "changed", "changed only in regions", "equal pairs", "different pairs"]},
    "C13": {"runs": [{"bin": "astprint", "source": "astprint.cpp", "flags": "-DDISPATCH=0"}], "must_cover": ["printed"]},
    "C14": {"runs": [{"bin": "astdispatch", "source": "astprint.cpp", "flags": "-DDISPATCH=1"}], "must_cover": ["dispatched"]},
    "C15": {"runs": [{"bin": "carriers", "source": "carriers.cpp", "variant": "san"}], "must_cover": ["regions", "unions", "located values", "holder steps", "copied vectors", "unit steps", "diagnostics", "results"]},
    "C16": {"runs": [{"bin": "q_select", "source": "queries.cpp", "flags": "-DPART=1", "libs": ["analyzer", "parser"]}], "must_cover": ["accepted", "databases"]},
    "C17": {"runs": [{"bin": "q_join", "source": "queries.cpp", "flags": "-DPART=2", "libs": ["analyzer", "parser"]}], "must_cover": ["accepted", "databases", "wrong"]},
    "C18": {"runs": [{"bin": "q_group", "source": "queries.cpp", "flags": "-DPART=3", "libs": ["analyzer", "parser"]}], "must_cover": ["accepted", "databases", "wrong"]},
    "C19": {"runs": [{"bin": "q_compose", "source": "queries.cpp", "flags": "-DPART=4", "libs": ["analyzer", "parser"]}], "must_cover": ["accepted", "databases", "wrong"]},
    "C20": {"runs": [{"bin": "q_subquery", "source": "queries.cpp", "flags": "-DPART=5", "libs": ["analyzer", "parser"]}], "must_cover": ["accepted", "databases"]},
    "C21": {"runs": [{"bin": "answers", "source": "analysis.cpp", "flags": "-DPART=1", "libs": ["analyzer", "parser"]}], "must_cover": ["plans", "rejected", "statements"]},
    "C22": {"runs": [{"bin": "repeats", "source": "analysis.cpp", "flags": "-DPART=2", "libs": ["analyzer", "parser"], "variant": "san"}], "must_cover": ["repeated", "histories", "kept by address"]},
    "C23": {"runs": [{"bin": "modify", "source": "modify.cpp", "libs": ["analyzer", "parser"]}], "must_cover": ["databases", "wrong", "plans", "lists of values"]},
    "C24": {"runs": [{"bin": "define_table", "source": "define.cpp", "flags": "-DPART=1", "libs": ["analyzer", "parser"]}], "must_cover": ["accepted", "wrong", "comments"]},
    "C25": {"runs": [{"bin": "define_other", "source": "define.cpp", "flags": "-DPART=2", "libs": ["analyzer", "parser"]}], "must_cover": ["accepted", "wrong"]},
    "C26": {"runs": [{"bin": "literals", "source": "literals.cpp", "flags": "-DPART=1", "libs": ["analyzer", "parser"], "variant": "san"}], "must_cover": ["constants", "wrong"]},
    "C27": {"runs": [{"bin": "types", "source": "literals.cpp", "flags": "-DPART=2", "libs": ["analyzer", "parser"], "variant": "san"}], "must_cover": ["types", "wrong"]},
    "C28": {"runs": [{"bin": "s_values", "source": "scalars.cpp", "flags": "-DPART=1", "libs": ["analyzer", "parser"]}], "must_cover": ["plans", "evaluations", "wrong"]},
    "C29": {"runs": [{"bin": "s_calls", "source": "scalars.cpp", "flags": "-DPART=2", "libs": ["analyzer", "parser"]}], "must_cover": ["calls", "resolved", "ambiguous", "not found", "wrong types"]},
    "C30": {"runs": [{"bin": "s_parameters", "source": "scalars.cpp", "flags": "-DPART=3", "libs": ["analyzer", "parser"]}], "must_cover": ["uses", "unknown"]},
    "C31": {"runs": [{"bin": "names", "source": "names.cpp", "libs": ["analyzer", "parser"]}], "must_cover": ["found", "rejected"]},
    "C32": {"runs": [{"bin": "faults", "source": "faults.cpp", "libs": ["analyzer", "parser"]}], "must_cover": ["faults", "sound"]},
}
