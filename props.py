"""What each check runs: build variant, runs per tier, real and stubbed parts, and what counts as a non-trivial run."""

REAL = ["Backend", "DataLoader", "AttitudeEstimate", "PropagateQueue", "MultiViewVisionUpdate", "FeatureManager", "FrameManager",
        "Trianglator", "PnPSolver", "Config (file parsing)", "math_lib", "Eigen", "libstdc++ containers and streams"]
STUB = ["sensors and front end (simulated world, IMU, camera rig, feature tracker)", "transport and consumer scheduling (simulated)",
        "heap (counting, poisoning, failing allocator around the C library's)", "std::rand, random_device, process identity (seeded streams)", "host clocks (simulated)"]
STUB_ARENA = ["callers (simulated)", "heap (counting and poisoning allocator around the C library's)", "std::rand, random_device, process identity (seeded streams)", "host clocks (simulated)"]

# id: (variants, quick runs, thorough runs, real, stubs, rule)
P = {
 "C01": (["float"], 6000, 150000, ["DataLoader", "Backend (every third run)"], STUB_ARENA, "message streams with loss, duplication, reordering, stale and equal stamps, IMU gaps and malformed messages against a model of the buffer; every third run hands them to a whole estimator. Non-trivial: something was handed over and a delivery or acceptance was judged."),
 "C02": (["float"], 40000, 1000000, ["DataLoader"], STUB_ARENA, "packed deliveries of faulty IMU and camera streams against a model of the packer. Non-trivial: at least one pack was judged."),
 "C03": (["float"], 1200, 30000, REAL, STUB, "a faulty run with malformed messages mixed in, against the same run without them, bit for bit. Non-trivial: malformed messages were refused and estimates compared."),
 "C04": (["float"], 5000, 125000, ["Config", "Backend::ConfigParams", "Backend (every third run)"], STUB_ARENA + ["disk (short reads, EINTR, EIO, failing opens; damaged files)"], "a configuration directory damaged at random, loaded under read faults, against an independent reader. Non-trivial: a file was damaged or a read failed."),
 "C05": (["float"], 2200, 55000, REAL, STUB, "whole-estimator runs under transport faults, outages and resets; publication judged after every processing call. Non-trivial: initialised at least once."),
 "C06": (["double"], 450, 11250, REAL, STUB, "a run with delayed camera messages and random interleaving against the undelayed canonical run. Non-trivial: estimates of both runs were compared after equal message sets."),
 "C07": (["double", "float"], 1200, 30000, REAL, STUB, "every processed and every re-integrated IMU sample judged against the reference integration. Non-trivial: samples were judged while initialised."),
 "C08": (["double"], 800, 20000, REAL, STUB, "every camera update judged against the reference Kalman update. Non-trivial: an update with features was compared."),
 "C09": (["float", "double"], 800, 20000, REAL, STUB, "validity of state and joint covariance judged after every processing call under all fault kinds. Non-trivial: initialised at least once."),
 "C10": (["float"], 2200, 55000, REAL, STUB, "feature and frame bookkeeping judged after every camera message. Non-trivial: measurements were compared."),
 "C11": (["float"], 2200, 55000, REAL, STUB, "window changes judged after every camera message. Non-trivial: a full window lost a frame."),
 "C12": (["float"], 600, 15000, REAL, STUB, "accuracy against the simulated motion under tolerable faults. Non-trivial: an estimate was compared."),
 "C13": (["float"], 1300, 32500, REAL, STUB, "odd seeds: faults, then regular data, recovery within a bounded number of messages; even seeds: resets against newly created estimators, bit for bit. Non-trivial: a reset or fault happened and a recovery or an estimate was judged."),
 "C14": (["float"], 1000, 25000, REAL, STUB, "interleaved and successive estimators against each one alone in a fresh process, bit for bit. Non-trivial: estimates were compared."),
 "C15": (["float"], 1200, 30000, REAL, STUB, "a run against the same run with all stamps shifted and another host time, bit for bit. Non-trivial: initialised at least once."),
 "C16": (["float"], 750, 18750, REAL, STUB, "a run against four runs with other heap contents and placement, stack contents, environment and host time, bit for bit. Non-trivial: initialised at least once."),
 "C17": (["float"], 40000, 1000000, ["PnPSolver"], STUB_ARENA, "sampling pose solver under random, repeated, few-valued and scripted random streams and random match sets. Non-trivial: a solve was judged."),
 "C18": (["float"], 1300, 32500, REAL, STUB, "allocation failures at random and at many swept points of hand-overs and processing calls; the run against one without failures, bit for bit. Non-trivial: an allocation failed."),
 "C19": (["float"], 40000, 1000000, ["TickTock"], ["host clocks (simulated, stepped)"], "timer readings under simulated passing of time and calendar clock steps. Non-trivial: a reading was judged."),
 "C20": (["float"], 7000, 175000, REAL, STUB, "starts from rest in random mountings, camera start at random times; first estimate and attitude tracking judged. Non-trivial: a first estimate was judged."),
 "C21": (["float"], 1300, 32500, REAL, STUB, "long runs with failing and working initialisation; bytes held, bytes left behind by resets and destroyed estimators, and messages kept alive judged. Non-trivial: enough camera messages were processed."),
}
