CLAIMED.update({
    "P02": ("proof", ""),
    "P03": ("proof", ""),
    "P04": ("proof", ""),
    "P05": ("proof", ""),
    "P06": ("proof", "The compound-Poisson series (power between 1 and 2) is a bounded stand-in, not proved."),
    "P07": ("proof", ""),
})
CLAIMED.update({"P08": ("proof", "")})
CLAIMED.update({"P11": ("proof", "")})
CLAIMED.update({"P12": ("proof", "")})
CLAIMED.update({"P09": ("proof", "")})
CLAIMED.update({"P10": ("proof", "")})
CLAIMED.update({"P31": ("proof", "")})
CLAIMED.update({"P13": ("proof", "")})
CLAIMED.update({"P14": ("proof", "")})
CLAIMED.update({"P15": ("proof", "")})
CLAIMED.update({"P17": ("proof", "")})
CLAIMED.update({"P19": ("proof", "")})
CLAIMED.update({"P22": ("proof", "")})
CLAIMED.update({"P23": ("proof", "")})
CLAIMED.update({"P27": ("proof", "")})
CLAIMED.update({"P28": ("proof", "")})
CLAIMED.update({"P24": ("proof", "Names with a numeric parameter in text and unknown names are bounded lists, not proved.")})
CLAIMED.update({"P20": ("proof", "")})
CLAIMED.update({"P26": ("proof", "")})
CLAIMED.update({"P16": ("proof", "")})
CLAIMED.update({"P21": ("proof", "Numbers of folds (1 to 3) and ratios (1, 2) are enumerated; everything else is arbitrary.")})
CLAIMED.update({"P18": ("proof", "")})
CLAIMED.update({"P29": ("proof", "Fits on data frames and formulas, and the choice among several ratios in cross-validation, are bounded checks, not proved.")})
CLAIMED.update({"P25": ("proof", "The layouts of columns and levels are enumerated; fits and predictions on real frames are bounded checks, not proved.")})
