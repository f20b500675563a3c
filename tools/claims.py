BASE = ("Every obligation is generated from the compiled library source on each run and discharged for all real inputs of the stated "
        "dimensions; real arithmetic stands for floats, libm by its contracts, dimensions and iteration counts as listed in the evidence; "
        "parts marked bounded are exact or f64 evaluations on pseudo-random inputs and are not counted as proved.")
NA["C29"] = "XML-string processing with f64 only (not generic over the scalar) and heavy use of roxmltree/std collections; no installed deductive verifier accepts it, and Kani cannot bound the parser's loops usefully."
claim("C01", BASE)
claim("C02", BASE)
claim("C03", BASE)
claim("C04", BASE)
claim("C05", BASE)
claim("C06", BASE)
claim("C07", BASE)
claim("C08", BASE)
claim("C10", BASE)
claim("C11", BASE)
claim("C09", BASE)
claim("C12", BASE)
claim("C13", BASE)
claim("C14", BASE)
claim("C15", BASE)
claim("C16", BASE)
claim("C17", BASE)
claim("C18", BASE)
claim("C19", BASE)
claim("C20", BASE)
claim("C21", BASE)
claim("C22", BASE)
claim("C23", BASE)
claim("C24", BASE)
claim("C25", BASE)
claim("C26", BASE)
claim("C27", BASE)
claim("C28", BASE)
