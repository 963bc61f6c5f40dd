COMMON_ASSUMPTIONS = ["double arithmetic on symbolic values is modelled by exact real arithmetic; rounding, overflow, NaN and infinities are outside the claim (concrete-only arithmetic keeps IEEE semantics)"]
PROPS = {
 "C01": {"units": [{"harness": ["quad.cpp"]}]},
 "C02": {"units": [{"harness": ["bases.cpp"]}]},
 "C03": {"units": [{"harness": ["conform.cpp"]}]},
 "C04": {"units": [{"harness": ["maps.cpp"]}]},
 "C05": {"units": [{"harness": ["refgeom.cpp"]}]},
 "C06": {"units": [{"harness": ["faces.cpp"]}]},
 "C08": {"units": [{"harness": ["integral.cpp"]}]},
 "C09": {"units": [{"harness": ["linalg.cpp"], "srcs": ["kernel/LinearAlgebra/*.cpp", "kernel/Logger.cpp"], "config": "real"}, {"harness": ["linalg.cpp"], "srcs": ["kernel/LinearAlgebra/*.cpp", "kernel/Logger.cpp"], "config": "complex"}]},
 "C11": {"units": [{"harness": ["time.cpp"]}]},
 "C12": {"units": [{"harness": ["solver.cpp"]}]},
 "C10": {"units": [{"harness": ["data.cpp"]}]},
 "C13": {"units": [{"harness": ["assembly.cpp"]}]},
 "C14": {"units": [{"harness": ["meshread.cpp"]}]},
 "C15": {"units": [{"harness": ["prep.cpp"], "srcs": ["kernel/**/*.cpp", "applications/Preprocessor/lib/*.cpp", "applications/Preprocessor/lib/*/*.cpp"], "includes": ["applications/Preprocessor/lib"]}]},
 "C16": {"units": [{"harness": ["gmsh.cpp"], "srcs": ["kernel/**/*.cpp", "applications/Preprocessor/lib/*.cpp", "applications/Preprocessor/lib/*/*.cpp"], "includes": ["applications/Preprocessor/lib"]}]},
 "C17": {"units": [{"harness": ["output.cpp"], "srcs": ["kernel/**/*.cpp", "!kernel/Output/base64.cpp"]}, {"harness": ["base64.cpp"], "srcs": ["kernel/Output/base64.cpp", "kernel/Logger.cpp"]}]},
 "C18": {"units": [{"harness": ["maxwell.cpp"], "srcs": ["kernel/**/*.cpp", "applications/DG-Max/*.cpp", "!applications/DG-Max/DG-Max.cpp", "applications/DG-Max/Algorithms/*Discretization.cpp"], "includes": ["applications/DG-Max"], "config": "complex"}]},
 "C19": {"units": [{"harness": ["divmax.cpp"], "srcs": ["kernel/**/*.cpp", "applications/DG-Max/*.cpp", "!applications/DG-Max/DG-Max.cpp", "applications/DG-Max/Algorithms/*Discretization.cpp"], "includes": ["applications/DG-Max"], "config": "complex"}]},
 "C21": {"units": [{"harness": ["bloch.cpp"], "srcs": ["kernel/**/*.cpp", "applications/DG-Max/*.cpp", "!applications/DG-Max/DG-Max.cpp", "applications/DG-Max/Algorithms/*Discretization.cpp", "applications/DG-Max/Algorithms/*Eigenvalue.cpp", "applications/DG-Max/Utils/*KPhaseShift*.cpp", "applications/DG-Max/Utils/MatrixBlocks.cpp"], "includes": ["applications/DG-Max"], "config": "complex"}]},
 "C22": {"units": [{"harness": ["waves.cpp"], "srcs": ["kernel/**/*.cpp", "applications/DG-Max/*.cpp", "!applications/DG-Max/DG-Max.cpp", "applications/DG-Max/Algorithms/*Discretization.cpp", "applications/DG-Max/Algorithms/HarmonicSolver.cpp", "applications/DG-Max/Algorithms/DGMaxTimeIntegration.cpp"], "includes": ["applications/DG-Max"], "config": "complex"}, {"harness": ["steady.cpp"]}]},
 "C20": {"units": [{"harness": ["refine.cpp"]}]},
 "C07": {"units": [{"harness": ["phys.cpp", "phys2.cpp"]}]},
}
import records as _r
for _x in _r.RECORDS:
    if _x["id"] in PROPS:
        PROPS[_x["id"]]["bounds"] = _x.get("bounds", "")
