chk("C17", "seeded circuits, damaged circuits and formulas with clock jumps; the recognised structure is checked by enumeration", AS)
chk("C18", "seeded models and circuits with clock jumps and failing allocations; minimised models compared with enumeration of all parts and extensions", AS)
chk("C19", "seeded pairs of runs in different simulated environments (clock, speed, heap contents and base, read sizes); outputs must be equal", AS + " The relative order of heap blocks is kept, since the solver breaks ties between duplicate clauses by address.")
chk("C20", "seeded circuits and formulas with read faults, clock jumps and failing allocations; printed circuits evaluated for all inputs or by an independent solver", AS)
chk("C21", "seeded circuits and faulty sources of randomness, clock jumps and time limits; conjectures compared with a second evaluation of the circuit on the recorded assignments", AS)
chk("C22", "seeded circuits, lying conjectures and erratic refinement heuristics; enabled clauses compared with a model of what is still believed after every step, answers with an independent solver", AS)
chk("C23", "seeded command lines with values at and beyond their limits, malformed and repeated settings, under varied heap contents; result compared with an executable reference parser, whole program runs with an independent solver", AS)
