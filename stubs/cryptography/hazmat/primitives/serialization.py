class Encoding:
    X962 = 1
class PublicFormat:
    CompressedPoint = 1
