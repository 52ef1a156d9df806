"""What decides each property: models (spec, cfg, emits cases), drivers (run on the real code) and
the trace specification that judges what they recorded."""
PLAN = {
    "B01": dict(models=[("MCBuffer", "MCBufferAccess", True)], drivers=[dict(run="b01", spec="TrBuffer")]),
    "B02": dict(models=[("MCBuffer", "MCBufferEdit", True)], drivers=[dict(run="b02", spec="TrBuffer")]),
    "K01": dict(models=[("MCKernel", "MCKernel", True)], drivers=[dict(run="k01", spec="TrKernel")]),
    "G01": dict(models=[("MCGeom", "MCGeom", True)], drivers=[dict(run="g01", spec="TrGeom")]),
    "C01": dict(models=[("MCCompose", "MCCompose", True)], drivers=[dict(run="c01", spec="TrCompose")]),
    "C02": dict(models=[("MCBlend", "MCBlend", False)], drivers=[dict(run="c02", spec="TrBlend")]),
    "R01": dict(models=[("MCResample", "MCResample", True)], drivers=[dict(run="r01", spec="TrResample")]),
    "R02": dict(models=[("MCResample", "MCResample", False)], drivers=[dict(run="r02", spec="TrResample")]),
    "G02": dict(models=[("MCRotate", "MCRotate", True)], drivers=[dict(run="g02", spec="TrResample")]),
    "F01": dict(models=[("MCFilters", "MCFilters", True)], drivers=[dict(run="f01", spec="TrFilters")]),
    "F02": dict(models=[("MCFilters", "MCFilters", True)], drivers=[dict(run="f02", spec="TrFilters")]),
    "V01": dict(models=[("MCColor", "MCColor", True), ("MCReal", "MCReal", False)], drivers=[dict(run="v01", spec="TrColor")]),
    "T01": dict(models=[("MCTone", "MCTone1", True)], drivers=[dict(run="t01", spec="TrTone")]),
    "T02": dict(models=[("MCTone", "MCTone2", True)], drivers=[dict(run="t02", spec="TrTone")]),
    "H01": dict(models=[("MCHist", "MCHist1", True), ("MCHist", "MCHist2", True)], drivers=[dict(run="h01", spec="TrHist")]),
    "H02": dict(models=[("MCAuto", "MCAuto", True)], drivers=[dict(run="h02", spec="TrAuto")]),
    "E01": dict(models=[("MCEffects", "MCEffects", True)], drivers=[dict(run="e01", spec="TrEffects")]),
    "L01": dict(models=[("MCPalette", "MCPalette", True)], drivers=[dict(run="l01", spec="TrPalette")]),
    "N01": dict(models=[("MCNoise", "MCNoise", False)], drivers=[dict(run="n01", spec="TrNoise")]),
    "A01": dict(models=[("MCTotal", "MCTotal", True)], drivers=[dict(run="a01", spec="TrTotal")]),
    "B03": dict(models=[("MCPurity", "MCPurity", True)], drivers=[dict(run="b03", spec="TrPurity")]),
    "V02": dict(models=[("MCText", "MCText", True)], drivers=[dict(run="v02", spec="TrText")]),
    "V03": dict(models=[("MCChannels", "MCChannels", True), ("MCChannels", "MCChannelsRgb", True)], drivers=[dict(run="v03", spec="TrChannels")]),
    "X03": dict(models=[("MCCodec", "MCCodec", True)], drivers=[dict(run="x03", spec="TrCodec")]),
    "X06": dict(models=[("MCLossy", "MCLossy", True)], drivers=[dict(run="x06", spec="TrCodec")]),
    "X01": dict(models=[("MCFiles", "MCFiles", True)], drivers=[dict(run="x01", spec="TrFiles")]),
    "X02": dict(models=[("MCFiles", "MCFiles", True)], drivers=[dict(run="x02", spec="TrFiles")]),
    "X04": dict(models=[("MCSink", "MCSink", True)], drivers=[dict(run="x04", spec="TrSink")]),
    "X07": dict(models=[("MCForeign", "MCForeign", True)], drivers=[dict(run="x07", spec="TrForeign")]),
    "X08": dict(models=[("MCWritten", "MCWritten", True)], drivers=[dict(run="x08", spec="TrWritten")]),
    "X05": dict(models=[("MCDamage", "MCDamage", True)], drivers=[dict(run="x05", spec="TrDamage")]),
    "Z01": dict(models=[("MCFailures", "MCFailures", True)], build=("cli",), drivers=[dict(run="z01", spec="TrFailures")]),
    "Q01": dict(models=[("MCQueue", "MCQueue", True)], drivers=[dict(run="q01", spec="TrQueue")]),
    "Q02": dict(models=[("MCCli", "MCCli", True)], build=("cli",), drivers=[dict(run="q02", spec="TrQueue")]),
    "Y01": dict(models=[("MCPy", "MCPy", True), ("MCPy", "MCPyPair", True)], build=("python",), drivers=[dict(run="y01", spec="TrPy", lang="py")]),
    "Y02": dict(models=[("MCNumpy", "MCNumpy", True)], build=("python",), drivers=[dict(run="y02", spec="TrNumpy", lang="py")]),
}
