SPECIFICATION MSpec
INVARIANTS Accepted RoundTrip CutFails Written Finished Balanced Inside
PROPERTY Forward
CHECK_DEADLOCK FALSE
