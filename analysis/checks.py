"""Table of the checks."""
from c_values import *
import c_hist
CHECKS = {'C15': c15, 'C16': c16, 'C21': c21, 'C22': c22, 'C23': c23, 'C24': c24}
CHECKS.update({'C17': c_hist.c17, 'C18': c_hist.c18, 'C19': c_hist.c19, 'C20': c_hist.c20})
import c_wire
CHECKS.update({'C10': c_wire.c10, 'C11': c_wire.c11})
import c_sets
CHECKS.update({'C12': c_sets.c12, 'C13': c_sets.c13, 'C14': c_sets.c14})
import c_decode
CHECKS.update({'C02': c_decode.c02, 'C03': c_decode.c03, 'C04': c_decode.c04, 'C05': c_decode.c05, 'C06': c_decode.c06, 'C07': c_decode.c07, 'C08': c_decode.c08})
CHECKS.update({'C01': c_decode.c01, 'C09': c_decode.c09})
import c_misc
CHECKS.update({'C25': c_misc.c25, 'C26': c_misc.c26})
