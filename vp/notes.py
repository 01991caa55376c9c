DEFAULT = ('Every obligation of the listed contract units is discharged by CBMC/dfcc for all inputs and all loop iterations (loop contracts, no '
           'unwinding bound) on the current source. Assumed: the contracts of external functions and allocators written as stubs in contracts/, '
           'the CBMC front end and contract instrumentation, the SAT solver; see the evidence file for the list per run. If a source change makes '
           'a contract unattachable, the unit is reported undecided and a bounded search on the real code stands in (labelled, not counted as proved).')
LEVEL = {}
NA = {}
