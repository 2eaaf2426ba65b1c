P_ = "programs of up to three operations with their operands, execution modes, schedules and transient faults"
H_ = "histories of 10 to 25 actions (inputs, operations, variables, traced functions, protocol switches, failing calls) with schedules, transient faults and crashed parties"
for _i in ("T10", "T01", "T02", "T03", "T04", "T05"):
    check(_i, NOTE.format(P_))
for _i in ("T11", "T12", "T13", "T21"):
    check(_i, NOTE.format(H_))
S_ = "programs over secrets with their operands, execution modes, schedules and transient faults, each executed up to 48 times with two sets of secrets and fresh randomness"
R_ = "histories of two or three calls of a program with fresh secrets, execution modes, schedules and operations that fail half-way and are repeated"
for _i, _s in (("T06", S_), ("T07", S_), ("T08", R_)):
    check(_i, NOTE.format(_s) + " A leak counts only if a feature of a party's view separates all executions with one secret from all with the other; finer statistical or computational leaks are out of reach.")

N_ = "encrypted Keras models (layer stacks with their options, weights, data, protocols and execution modes) with schedules and transient faults, against the same model in plain arithmetic"
for _i in ("T17", "T18"):
    check(_i, NOTE.format(N_) + " The tolerance is eight times the spread of plain runs with injected rounding noise; inputs within that distance of a kink are not judged.")
check("T14", NOTE.format("histories of producers, consumers, clients and serving loops taking turns at every queue operation, with message delays, restarts and clients that leave"))
check("T19", NOTE.format("lists of draws from every source of randomness over ranges, types, shapes and executors with seeded entropy") + " Uniformity is judged by statistics with a false-alarm probability below 1e-9 per check and by exact reachability on small ranges.")
check("T20", NOTE.format("histories of parties that build, save, copy, load and use cluster configurations on a simulated disk with write errors, full disks and crashes"))
