SPECIFICATION Spec
CONSTANTS
  Fs = {0, 500, 1000, 2000, 3000, 4500, 5000, 6000, 8000, 9500, 10000}
  Cs = {0, 100, 1000, 2000, 3500, 5000, 7500, 9000, 9900, 9990}
INVARIANTS Valid DedConf WeakConf RevSym RevGrows RevBetween NegInv CompSym ExpRange
CHECK_DEADLOCK FALSE
