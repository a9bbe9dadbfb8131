BY += [("cnf2aig printed", "C20"), ("gate patterns accepted", "C17"), ("minimal models were not minimum", "C18")]
BY += [("clauses with more than 65535", "C01")]
BY += [("termination requests were ignored", "C10")]
BY += [("one-sidedly encoded gates with their missing", "C21"), ("gate filters of the random", "C21"), ("visited root gates twice", "C21"), ("never alternated", "C21"), ("equal to simulation inputs fell", "C21"), ("did not end when there were no correlations", "C21")]
BY += [("variables without values for holistically", "C21")]
BY += [("option values outside of their ranges", "C23"), ("malformed numbers were accepted", "C23"), ("truncated to 32 bit", "C23"), ("values of string options were cut off", "C23"), ("--help anywhere", "C23")]
