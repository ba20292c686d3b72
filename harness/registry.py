# property -> (module of harness, function, level)
REGISTRY = {
    "A01": ("archive", "check_a01", "model_checking"),
    "A02": ("archive", "check_a02", "model_checking"),
    "A03": ("archive", "check_a03", "model_checking"),
    "A04": ("archive", "check_a04", "model_checking"),
    "A05": ("archive", "check_a05", "model_checking"),
    "A07": ("archive", "check_a07", "model_checking"),
    "A06": ("vsquery", "check_a06", "model_checking"),
    "A08": ("vsquery", "check_a08", "model_checking"),
    "A09": ("vsexport", "check_a09", "model_checking"),
    "A10": ("vsproto", "check_a10", "model_checking"),
    "A11": ("vsvisits", "check_a11", "model_checking"),
    "A12": ("vsrun", "check_a12", "model_checking"),
    "B01": ("resultsdb", "check_b01", "model_checking"),
    "B02": ("resultsdb", "check_b02", "model_checking"),
    "B03": ("resultsdb", "check_b03", "model_checking"),
    "B04": ("runs", "check_b04", "model_checking"),
    "B05": ("runs", "check_b05", "model_checking"),
    "B06": ("runs", "check_b06", "model_checking"),
    "M01": ("mafgroup", "check_m01", "model_checking"),
    "M02": ("mafcache", "check_m02", "model_checking"),
    "M04": ("mafstore", "check_m04", "model_checking"),
    "M08": ("mafstore", "check_m08", "model_checking"),
    "M05": ("mafgroup", "check_m05", "model_checking"),
    "M06": ("mafgroup", "check_m06", "model_checking"),
    "B07": ("webresults", "check_b07", "model_checking"),
    "M03": ("slicers", "check_m03", "model_checking"),
    "T08": ("simplestats", "check_t08", "model_checking"),
    "T01": ("timemetrics", "check_t01", "model_checking"),
    "T02": ("timemetrics", "check_t02", "model_checking"),
    "T03": ("timemetrics", "check_t03", "model_checking"),
    "T07": ("vectors", "check_t07", "model_checking"),
    "T05": ("moobs", "check_t05", "model_checking"),
    "T06": ("seasons", "check_t06", "model_checking"),
    "T04": ("seasons", "check_t04", "model_checking"),
    "T09": ("stackers", "check_t09", "model_checking"),
    "M07": ("mogroup", "check_m07", "model_checking"),
    "M09": ("mopop", "check_m09", "model_checking"),
    "C02": ("ephem", "check_c02", "model_checking"),
    "C01": ("ephem", "check_c01", "model_checking"),
    "C03": ("orbitsets", "check_c03", "model_checking"),
    "S01": ("selfcal", "check_s01", "model_checking"),
    "C04": ("sightings", "check_c04", "model_checking"),
    "C05": ("sightings", "check_c05", "model_checking"),
}
