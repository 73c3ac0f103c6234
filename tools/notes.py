TECH_DEFAULT = 'symbolic execution of the real Python code over exact reals; every path condition and assertion decided by z3 (QF_NRA), counterexamples replayed on the unpatched package'
NOTE_DEFAULT = 'all real inputs within the stated sizes, on every execution path; real arithmetic instead of floating point; numpy/scipy/autograd primitives are replaced by symbolic counterparts that are validated by replaying a model of every path'
TECH = {}
NOTE = {}
OFF = {}
