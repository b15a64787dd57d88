VN = "abstract interpretation with value numbering"
NOTE = ("Static: the current sources are parsed and abstractly interpreted with symbolic data, lengths, averaging factors and rates; "
        "value numbers are compared with the published definition as normal forms (all inputs), and where the normal forms have "
        "different shape by random interpretation of both normal forms (high probability, not proof). Real arithmetic; trusts the "
        "numpy models in sa/lib.py; constructs outside the analysed subset are reported undecided, not as violations.")
TECH = {
    "C01": (VN + " with alias tracking: stores through every reference to a caller-owned cell", NOTE),
    "C02": (VN + " with module variables, defaults and class attributes as heap cells; two-call comparison", NOTE),
    "C03": (VN + " with numbered draw symbols and seeding events; import-resolved reference scan of entropy sources", NOTE),
    "C06": (VN + " against defining formulas", NOTE),
    "C07": (VN + " against defining formulas", NOTE),
    "C08": (VN + " against defining formulas", NOTE),
    "C09": (VN + " of the grid construction; selection evaluated on adversarial requests, call-site arguments compared", NOTE),
    "C13": (VN + "; bounded unrolling and an inductive step on the object state", NOTE),
    "C14": (VN + "; concrete control, symbolic data, closed-form running sums", NOTE),
    "C04": (VN + "; relational (two-run) comparison", NOTE),
    "C05": (VN + "; relational (two-run) comparison", NOTE),
    "C22": (VN + "; relational (two-run) comparison", NOTE),
    "C23": (VN + " against closed forms", NOTE),
    "C16": (VN + "; relational comparison over container and dtype contexts", NOTE),
    "C17": (VN + " in a NaN-tracking context", NOTE),
    "C18": (VN + "; cell-wise comparison with the ITU table", NOTE),
    "C10": (VN + "; index-map and mask analysis of the row filter", NOTE),
    "C11": (VN + "; independence of per-row value numbers", NOTE),
    "C26": (VN + "; symbolic composition of the conversions", NOTE),
    "C27": (VN + " against the three-cornered-hat equations", NOTE),
    "C28": (VN + " against chi-squared quantile formulas", NOTE),
    "C30": (VN + " against published tables", NOTE),
    "C32": (VN + "; the integrand handed to the quadrature is compared with the transfer function", NOTE),
    "C19": (VN + "; length and draw-count value numbers", NOTE),
    "C20": (VN + " against the published scale, filter recursion and spectrum", NOTE),
    "C21": (VN + " of the whole case analysis against the published algorithm", NOTE),
    "C31": (VN + " against the published noise-identification algorithm", NOTE),
    "C24": (VN + " with every library function replaced by a call recorder; recorded callee and arguments compared", NOTE),
    "C25": (VN + " with recorded file writes and axes calls; written text parsed into named columns", NOTE),
    "C15": (VN + "; reachability of a normal return in contexts with an invalid argument", NOTE),
    "C29": (VN + " with name, attribute and signature errors as exits; package-wide scope, possibly-assigned and signature analysis", NOTE),
    "C37": (VN + "; segment levels and break points against the power-law integral, quadrature kept as a functional of its integrand", NOTE),
    "C12": (VN + "; relation between output value numbers", NOTE),
}
NA = {
    "C33": "statistical statement about random spectra: no static argument bounds a random variable's estimated spectrum; C20 decides the scale factors and recursions it rests on",
    "C34": "detection probability of a statistic under random data: not decidable from the source; C30 and C31 decide the formulas it rests on",
    "C35": "accuracy of a numerical approximation with improper integrals: quantifies over runtime quadrature values no static argument in reach bounds; C32 decides the integrands",
    "C36": "rounding-error bounds over arbitrary lengths and magnitudes: the value-number domain is exact real arithmetic, a sound floating-point error analysis of numpy reductions is out of reach here",
}
