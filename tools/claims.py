c("P10 P11","helpers",EX,"exploration","Complete within the stated bounds of the input space (every Unicode scalar value, every cut of short encodings); trusts the Go runtime and standard encoders used as the oracle.")
MC="stateless model checking of the real code: delay-bounded DFS over all schedules under a controlled scheduler with virtual time"
SN="All schedules up to the stated number of deviations from the default one (per scenario in the evidence), on the real code with its locks, channels, timers, contended fields and pools under the scheduler; every new outcome is replayed and must repeat. Trusts the shims of sync, atomic, ants and the instrumentation; sequentially consistent memory."
c("P09","seqs",MC,"model_checking",SN)
c("P27 P28","registry",MC,"model_checking",SN)
c("P12 P13 P14 P15 P16 P17 P18 P19 P20","server",MC,"model_checking",SN+" The network engine is replaced by event loops of the scheduler that follow gnet's rules.")
c("P21 P22 P23 P24 P25","client",MC,"model_checking",SN+" The network connection is replaced by one of the scheduler's that delivers what the gateway side pushes, in the portions it chooses.")
c("P26","e2e",MC,"model_checking",SN+" Client and server run in one process; the network between them is replaced by the scheduler's, which keeps the order of the octets of each direction and nothing more.")
