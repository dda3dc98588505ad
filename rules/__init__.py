from . import filters, query, nodes, iteration, trees, strict, refs, panics, ending, witness
