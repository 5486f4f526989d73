import z3, std
SPEC = ['c16.cpp']
SOURCES = ['Utility.cpp', 'VWTransformMatrix.cpp', 'VWPoint3D.cpp', 'VWPoint2D.cpp', 'MCMatrix.cpp', 'MCCoordTypes.cpp', 'VWMathUtils.cpp', 'MCFloat.cpp', 'BasicMath.X.cpp']
FP = 'real'
TIMEOUT = 60000
SIN, COS = z3.Function('sin', z3.RealSort(), z3.RealSort()), z3.Function('cos', z3.RealSort(), z3.RealSort())
def setup(ex, h):
    std.install(ex) if hasattr(std, 'install') else None
    ex.contracts['sin'] = lambda ex, st, a, ci: SIN(a[0])
    ex.contracts['cos'] = lambda ex, st, a, ci: COS(a[0])
ASSUMPTIONS = ['doubles treated as exact reals (the statement is over exact arithmetic)', 'matrices whose determinant is below the code\'s own threshold (1e-8 of the size of its terms) count as not invertible', 'kRadiansPerDegree is pi/180 to double precision']
TRUSTED = ['sin, cos: functions of their argument']
