SPECIFICATION Spec
CONSTANTS
  Fs = {0, 1000, 3000, 5000, 8000, 10000}
  Cs = {0, 100, 2000, 5000, 9000, 9900}
INVARIANTS Valid DedConf WeakConf RevSym RevGrows RevBetween NegInv CompSym ExpRange
CHECK_DEADLOCK FALSE
