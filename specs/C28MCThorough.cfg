SPECIFICATION Spec
CONSTANTS Most = 60
MaxSide = 8
MaxLayers = 3
INVARIANTS SumsRight RatesRight PowersRight WeightsRight SamplesRight TexelsRight HeightsRight
CHECK_DEADLOCK FALSE
