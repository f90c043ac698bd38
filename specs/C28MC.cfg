SPECIFICATION Spec
CONSTANTS Most = 9
MaxSide = 4
MaxLayers = 2
INVARIANTS SumsRight RatesRight PowersRight WeightsRight SamplesRight TexelsRight HeightsRight
CHECK_DEADLOCK FALSE
