from .checks import alias, arith, arrays, effects, loops, names, options, elem, enclose, lift, models, modes, nlfun, objects, optim, recfun, pps, pss, refuse, scalar, solvers, vertex

CHECKS = {'C08': names.c08, 'C09': alias.c09, 'C17': loops.c17, 'C20': options.c20, 'C21': effects.c21, 'C26': effects.c26, 'C27': effects.c27,
          "C13": objects.c13, "C14": objects.c14, "C10": lift.c10, "C02": modes.c02, 'C01': arith.c01, 'C03': scalar.c03,
          'C04': scalar.c04, 'C06': scalar.c06, 'C07': scalar.c07, 'C11': elem.c11, 'C12': arrays.c12, 'C25': arrays.c25, 'C28': arrays.c28, 'C29': arrays.c29,
          'C30': arrays.c30, 'C31': arrays.c31, 'C15': recfun.c15, 'C24': recfun.c24, 'C16': optim.c16, 'C05': enclose.c05,
          'C32': solvers.c32, 'C34': solvers.c34, 'C35': solvers.c35, 'C18': refuse.c18, 'C19': refuse.c19,
          'C22': vertex.c22, 'C23': models.c23, 'C36': models.c36, 'C33': pss.c33, 'C37': pps.c37, 'C38': nlfun.c38, 'C39': nlfun.c39, 'C40': nlfun.c40}
