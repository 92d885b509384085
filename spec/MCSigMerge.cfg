SPECIFICATION Spec
CONSTANTS N = 3 Order = "components" Shape = 1
INVARIANTS Faithful MeaningFaithful TableOrdered
CHECK_DEADLOCK FALSE
