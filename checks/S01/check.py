LEVEL = "model_checking"
TECHNIQUE = "stateless model checking: exhaustive operation sequences on the real containers against an abstract sequence"
NOTE = ("Every sequence of up to 3 (thorough 4) operations with every argument, from every fill of 0-4 elements and several capacities, "
        "on the real List, ElasticArray, LinkedList, AnyList and RingBuffer over a guarded heap; every state compared with an array model.")

def run(c):
    for opt in ("-O1", "-O3") if c.thorough else ("-O1",):
        exe = c.compile_c3("seq" + opt, [c.here + "/seq.c3"], opt=opt)
        # out of range checks exist only in safe mode; the optimized build repeats the sequences
        c.cov_explore(c.explore(exe, only=(lambda b: b != "panics") if opt == "-O3" else None))
    c.sample("list_int: capacity 2, elements 1 0 1; remove_if mask 2; add_all self; insert_at 1; then all queries")
    c.assumptions.append("the model is a plain array of ints; sequences start from every listed fill and capacity")
