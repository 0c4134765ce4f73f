"""The property table: properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md are written from it
(python tools/mk.py)."""

PYX = 'intvalpy/kernel/interval_arithmetics.pyx'
RI = 'intvalpy/kernel/real_intervals.py'
PRE = 'intvalpy/kernel/preprocessing.py'
UT = 'intvalpy/kernel/utils.py'
EF = 'intvalpy/kernel/elementary_functions.py'
NO = 'intvalpy/kernel/new_objects.py'

AI = 'static abstract interpretation of the Cython and Python sources (syntax trees, trace partitioning over sign/order cells, value numbering with rounding labels)'

P = []


def prop(id, title, statement, qtext, why, files, mech, note, design, technique=AI, over=('inputs',)):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), qtext=qtext, why=why, files=files, mech=mech,
                  note=note, design=design, technique=technique))


prop('C01', 'Interval arithmetic encloses and is tight, rounded outward',
     'For any two intervals (classical, inverted, or mixed) or an interval and a real number on either side, the ends of the sum, '
     'difference, product and quotient are the exact Kaucher (for proper operands: classical) bounds up to rounding. The lower end is never above and the upper '
     'end never below the exact bound, whatever the rounding of the individual floating-point operations.',
     'all operand pairs with finite ends, in every sign and order configuration, for every operator and dispatch order, scalar or inside an array',
     'tests compare sampled endpoint pairs, almost all of them with exactly representable results; rounding direction and rare sign combinations are not reached',
     [PYX, RI], [('directed rounding contexts and product formulas', PYX), ('array dispatch', RI)],
     'Sound up to the model of fenv, Cython and numpy dispatch; overflow, underflow and integers beyond 2**53 are outside.',
     'Each operator is interpreted for every pair of operand kinds and every sign/order cell of the ends (parameters strictly positive symbols); '
     'every floating-point operation leaves a directed-rounding label in the value number of the result. The end terms are compared with the Kaucher '
     'formula over the same symbols: equal after erasing the labels, and ordered against the exact bound by a structural monotonicity argument over the labels '
     '(first-order error bounds at representative points of the cell where the structural argument is silent).')
prop('C02', 'The floating-point rounding mode is restored on every exit',
     'Whatever operation of an interval is performed - arithmetic, characteristic, comparison, elementary function, power - and however it ends, by a value or by '
     'an exception, the rounding mode of the processor afterwards is the one found before.',
     'all operations, operand kinds and cells, with a failure at any operation that can raise while the mode is changed, from either initial mode',
     'tests never look at the rounding mode, and exceptions in the middle of an operation are not exercised',
     [PYX, RI, EF], [('save and restore of the mode', PYX + ' RoundingContext')],
     'Every synchronous exception point inside a changed-mode region is injected; asynchronous signals in compiled code are not modelled.',
     'The mode is part of the abstract state; each public operation is interpreted from two initial modes, and once more for every operation that may raise while '
     'the mode differs from the initial one, with the exception injected there.', over=('inputs', 'fault_sequences'))
prop('C03', 'Division by an interval that contains zero is refused',
     'Dividing by an interval that contains zero - touching, straddling, degenerate at zero, or inverted with a proper projection that contains zero - '
     'or by the number zero raises an exception for every numerator; no quotient is ever returned.',
     'all numerators (numbers, intervals, arrays) and all divisors from the cells containing zero',
     'tests try a handful of divisors; inverted divisors and mixed dispatch orders are not among them',
     [PYX, RI], [('zero guards of the division methods', PYX)],
     'Complete over sign cells and dispatch paths.',
     'Every division path is interpreted with the divisor in each zero-containing cell; a path that returns is a violation.')
prop('C04', 'Comparisons are endpoint-wise and consistent',
     '<, <=, >, >=, == of intervals hold exactly when they hold for both lower ends and for both upper ends; != is the negation of ==, and a number compares as the degenerate interval on '
     'either side. For arrays the answer is given element by element, and comparing a scalar interval with an operand of a foreign type raises TypeError.',
     'all weak orders of the four ends, all operand kinds, both operand orders',
     'tests sample a few pairs; equal ends, inverted operands and reflected dispatch are rarely hit',
     [PYX, RI], [('comparison methods', PYX), ('element-wise comparison', RI)],
     'Exhaustive over the weak orders: the methods touch the ends only through comparisons.',
     'The ends are placed in each of the 74 weak orders; the interpreter resolves each end comparison definitely, so the answer per cell is a constant compared with the definition.')
prop('C06', 'Membership, subset and superset predicates agree with inclusion',
     'Membership in an interval, subset, proper subset and element-wise containment hold exactly when the inclusion of the ends holds (strictly at both ends for the proper variants), and the superset variants '
     'are their mirror images. For arrays the subset family answers for all elements together and the containment family with an element-wise mask.',
     'all weak orders of the ends, scalars, numbers and arrays',
     'the predicates are barely tested; boundary equalities and mixed operand kinds are not',
     [PYX, UT], [('containment', PYX), ('subset family', UT)],
     'Exhaustive over the weak orders for scalars and two-element arrays.',
     'As C04, for the predicates of the utility module and the containment operator.')
prop('C07', 'Intersection is exact, commutative, and empty only when disjoint',
     'The intersection of two intervals that have a common point is the interval from the larger lower end to the smaller upper end, in either operand order, and numbers act as degenerate intervals. Intervals '
     'separated by more than 1e-15 give the undefined interval [nan, nan]; arrays are intersected element by element.',
     'all weak orders of the ends of the operands; scalars, numbers, arrays',
     'three tests exist; touching ends, numbers and mixed array operands are not covered',
     [PRE], [('intersection', PRE)],
     'Exhaustive over the weak orders; gaps within the documented tolerance are not judged.',
     'As C04, for the intersection routine.')
prop('C10', 'Array operations are the scalar operations element by element',
     'Every arithmetic operator, comparison, in-place operator, elementary function and attribute of an interval array, with an interval, a number or an array on the other side in either order, gives in each '
     'position exactly what the scalar operation gives for the elements there, with the broadcast shape. Matrix products are sums of the products of the elements.',
     'all operand kinds and orders, ranks one and two, all element cells',
     'tests use a few arrays; mixed element classes, reflected numpy dispatch and in-place forms are not compared with the scalar operations',
     [RI, PYX], [('array operators and numpy protocol', RI)],
     'Shapes are represented by two elements per axis; numpy broadcasting is modelled.',
     'The array operation and the scalar operation are both interpreted on the same symbolic elements; classes and end terms must be identical.')
prop('C11', 'Elementary functions and powers give the range of the function',
     'exp, log, square root, sine, cosine and powers of a proper interval are the exact range of the function over the part of the operand in its domain, up to rounding, with no turning point missed and infinite or '
     'overflowing ends handled; inverted operands give the inverted range. The ends of exp, sine, cosine and natural powers are rounded outward, and bases containing '
     'negative numbers are refused for other exponents.',
     'all sign cells for the monotone functions and powers 0..6, all pairs of quarter-turn segments within twelve of zero for sine and cosine',
     'tests sample points; an end off by one unit or a turning point missed between particular segments is not visible in them',
     [PYX, EF], [('elementary functions', PYX + ' BaseTools'), ('powers', PYX)],
     'libm results taken as within one unit in the last place; huge trigonometric arguments outside; the outward rounding of log is a known finding.',
     'Monotone functions by sign cell as in C01 (with an overflow fork inside exp); sine and cosine by evaluating each path condition and end term at the '
     'representatives of every pair of segments between multiples of a quarter turn. Open finding: log uses the library logarithm under a changed rounding mode and no outward step.')
prop('C13', 'Constructors order the ends as documented and refuse everything else',
     'Building an interval from two numbers orders the ends; with ordering switched off an inverted pair is kept as an inverted (Kaucher) interval; the midpoint-radius form gives midpoint minus and plus radius. '
     'Nested lists, pairs of arrays, numbers and intervals convert element by element with their shape, and unsupported arguments are refused.',
     'all order cells of the arguments and all documented argument forms',
     'tests construct a few literals',
     [RI, PRE], [('constructors', RI), ('conversion', PRE)],
     'Documented forms enumerated from the docstrings.',
     'Each form is interpreted over the order cells of its arguments and compared with the documented result.')
prop('C14', 'Characteristics of intervals agree with their definitions',
     'Ends, width, radius, midpoint, magnitude, mignitude, dual, proper projection, opposite, algebraic inverse (rounded outward), negation, absolute value, sign and the corresponding helper functions '
     'on intervals and plain numbers equal their definitions for every interval.',
     'all sign/order cells, classical and Kaucher, scalar and helper forms',
     'tests sample a few values; inverted, degenerate and zero-touching operands are seldom used',
     [PYX, UT, EF], [('characteristics', PYX), ('helper functions', UT)],
     'Complete over the sign/order cells.',
     'As C01 with the definition of each characteristic as the ideal; results are compared up to rounding except for the inverse, which must be rounded outward.')

prop('C12', 'Classical intervals keep lower end at or below upper end',
     'No operation on intervals of the classical class ever builds a classical interval whose lower end exceeds its upper end, and an arithmetic operation, natural power or elementary function whose operands are all classical '
     '(or numbers) gives a classical interval, or array of them, again.',
     'every operator, power, elementary function and characteristic, over all operand kinds and sign/order cells',
     'tests look at values of a few results; the class invariant of every interval constructed on the way is not observed',
     [PYX, RI, EF], [('class of the result', PYX), ('constructors', PYX + ' ClassicalArithmetic')],
     'Observes each construction in the interpreted code; ends closer than rounding noise are not judged.',
     'The constructions of the classical class are intercepted during the interpretation of each operation, and the order of the two end terms is proved structurally or refuted at representative points of the path.')
prop('C25', 'Copies are independent and operations leave their operands unchanged',
     'Changing a copy, a deep copy or the result of an operation or conversion - by assigning elements, rows or slices, in-place operators or deletion - never changes the interval array it came from. An in-place operator keeps the identity '
     'of its target and leaves the other operand alone; no other operator changes an operand.',
     'all copies and results, all ways of mutating them afterwards, scalars, vectors and matrices',
     'aliasing shows only when a result is mutated after the fact; no test does that',
     [RI, PYX], [('copies', RI), ('in-place operators', RI)],
     'Ranks one and two; the buffer aliasing of numpy views is modelled.',
     'The interpretation keeps object identity and buffer sharing; after each mutation the end terms of the elements of the original are compared with those before.',
     over=('inputs', 'histories'))
prop('C28', 'The container protocol keeps elements, shape and metadata in step',
     'Construction, indexing, slicing, masks, assignment, deletion, transposition, reshaping, iteration, reversal, containment and conversion of interval arrays act on the elements as the same operation on a plain array of them, '
     'and the reported shape, number of axes, axis ranges and length always describe the elements - also after deletion and after in-place operators that broadcast.',
     'all container operations on vectors and matrices, all index forms, sequences of an operation and a query',
     'tests read a few slices; metadata after mutation and negative, masked or stepped indices are not compared with an array model',
     [RI, PRE], [('container protocol', RI), ('conversion', PRE)],
     'Shapes 3, 2x3 and 3x3 stand for their ranks; higher ranks are not interpreted.',
     'Each element is a distinct symbol; the result of the interpreted operation is compared with the same operation on an array of element numbers.',
     over=('inputs', 'histories'))
prop('C29', 'The vertices of an interval array are all its corners, each exactly once',
     'The vertex attribute of an interval vector or matrix with n elements has 2**n rows; every row picks one end of each element and no combination is missing or repeated. Arrays of higher rank are refused.',
     'all vectors with up to four and matrices with up to six elements, arbitrary ends',
     'a duplicated or missing corner leaves most uses unaffected',
     [RI], [('vertex enumeration', RI + ' vertex')],
     'Element counts up to six; ends are arbitrary symbols.',
     'The enumeration is interpreted on symbolic ends; the rows of the resulting symbolic matrix are matched against the corners.')
prop('C30', 'Generators and test systems have exactly the documented elements',
     'zeros, full and eye, and the Neumaier, Shary and Toft test systems give a matrix and right-hand side in which every element is the documented interval, for every dimension and every admissible value of the parameters; '
     'parameters outside the documented range are refused.',
     'all parameter values in their documented ranges, dimensions two to four',
     'tests use the default parameters; separate treatment of given and default ends is not visible there',
     [NO], [('generators', NO)],
     'Dimensions two to four; exact arithmetic.',
     'Interpretation with symbolic parameters in exact arithmetic; each element of the result is compared with the documented formula.')
prop('C31', 'Distance, diagonal and comparison matrix follow their definitions',
     'The distance of intervals is the larger absolute difference of corresponding ends (its maximum, sum or Euclidean norm over the elements for arrays, by the requested order), symmetric in its arguments; other orders are refused. The diagonal routine extracts or builds '
     'the requested diagonal, and the comparison matrix has mignitudes on the diagonal and negated magnitudes elsewhere.',
     'all elements in every sign cell, square and rectangular shapes, diagonals -1, 0 and 1',
     'tests hardly touch these helpers; inverted elements and non-square matrices are not used',
     [UT], [('distance', UT + ' dist'), ('comparison matrix', UT + ' compmat'), ('diagonal', UT + ' diag')],
     'Small shapes; exact arithmetic.',
     'Interpretation on symbolic arrays in exact arithmetic; the result terms are compared with the definitions at every cell.')

LI = 'intvalpy/linear/'
ABS = 'intvalpy/kernel/abstract.py'
RA5 = 'intvalpy/kernel/ralgb5.py'

prop('C15', 'Recognizing functionals and their subgradients follow the definitions',
     'For every interval system, weight vector and point, the constituents and the value of Tol, Uni, Uss and ChebNorm are those of their definitions, for floating-point and integer data alike. The objective handed to the optimiser is '
     'the value (negated for the maximised functionals), and its subgradient lies between the one-sided slopes of the functional, wherever it is not on the plateau on which the functional has no slope.',
     'all systems of the shapes 1x1, 2x1, 1x2, 2x2 and 3x1 with ends of any sign, all sign patterns of the point, with and without weights',
     'tests check the optimum of a few systems; a wrong value or slope for one sign pattern of the point leaves these intact',
     [LI + 'Tol.py', LI + 'Uni.py', LI + 'Uss.py', LI + 'ChebNorm.py', ABS], [('values and subgradients', LI + '{Tol,Uni,Uss,ChebNorm}.py calcfg')],
     'Small shapes stand for all; exact arithmetic (rounding of the values is not judged); the linear programme of ChebNorm is replaced by the exact minimiser over its box.',
     'The routines are interpreted on symbolic systems in exact arithmetic; values are compared with the definition as terms, and subgradients with the one-sided difference quotients of the defined functional at representatives of each path.')
prop('C24', 'Linear constraints are stored and penalised exactly as given',
     'A linear constraint keeps every finite bound of every non-zero row exactly once (lower bounds with the row negated) and refuses bounds of another length than the matrix. The violation test is exact, the penalty is the weight '
     'times the total violation with a matching gradient, and the penalty weight is the given magnitude over the smallest non-empty column subset sum.',
     'all patterns of finite, infinite and missing bounds and zero rows for up to three rows; all sign patterns of the point',
     'tests use one constraint pattern; dropping a bound or a wrong sign shows only in constrained optimisation of particular systems',
     [ABS], [('constraint object', ABS + ' LinearConstraint'), ('penalty', ABS + ' BaseRecFun')],
     'Up to three rows and two columns; exact arithmetic.',
     'The constructor and the penalty are interpreted over all patterns of bounds on symbolic rows; stored rows, penalties and gradients are compared with the definitions.')
prop('C16', 'The optimiser returns the best evaluated point with a truthful report',
     'ralgb5 returns a point it has evaluated together with the smallest objective value met, counts its evaluations exactly, and reports a stopping code whose criterion holds, never passing over a criterion met earlier. '
     'Its steps follow the documented rules for h0, nh, q1, q2 and alpha, and the starting point of the caller is left alone. maximize and minimize of the functionals hand it their objective with weights and penalty, the given starting point '
     '(or the least-squares solution of the midpoint system, or the origin when that is singular) and all options, and return its result with the sign of the value restored.',
     'all objectives on a line over up to five evaluations (signs of the slopes and order of the values arbitrary), all tolerances and step parameters; all small systems for the entry points',
     'tests run the optimiser on benign problems that end at the optimum; a stale best point or a wrong stopping report needs a non-monotone objective',
     [RA5, ABS] + [LI + f for f in ('Tol.py', 'Uni.py', 'Uss.py', 'ChebNorm.py')], [('subgradient method', RA5), ('entry points', ABS + ' optimize')],
     'Objectives of one variable and a bounded number of evaluations; convergence is not decided.',
     'The optimiser is interpreted on an objective that answers every evaluation with fresh symbols; each path returns terms that are compared with the recorded evaluations and with the step rule of the documentation. The entry points are interpreted with the optimiser replaced by a recorder.',
     over=('inputs', 'histories'))
NLE = 'intvalpy/nonlinear/external_evaluation.py'
SEL = 'static abstract interpretation in a domain of selections (inclusion-isotonic data flow): which value an interval takes for one arbitrary real system contained in the data'
prop('C05', 'Solvers of interval equations never lose a solution',
     'Whatever Gauss and Gauss_Seidel return for an interval linear system contains the solution of every real system whose matrix and right-hand side lie in the data (for Gauss_Seidel: every one that lies in the initial box), whatever the pivots, the preconditioner and the number '
     'of iterations. Krawczyk and HansenSengupta keep every zero of the function that lies in the initial box, provided the function and Jacobian given enclose their values.',
     'all interval systems of up to three unknowns (elimination and iteration), scalar equations and pairs of equations (nonlinear methods), all choices of the real system, one or two iterations',
     'tests compare a handful of systems with stored results; a system size or pivot order that loses solutions is not among them',
     [LI + 'Gauss.py', LI + 'Gauss_Seidel.py', NLE], [('elimination', LI + 'Gauss.py'), ('iteration', LI + 'Gauss_Seidel.py'), ('interval Newton methods', NLE)],
     'Up to three unknowns; relies on inclusion-isotonic interval operations (C01, C10) and exact intersection (C07); the default initial box of Gauss_Seidel is as documented.',
     'Every interval is represented by the value it takes for one arbitrary real system; interval operations act on these values, any number read off an interval (ends, midpoint, radius, magnitude) and any inverse is an unknown, so that '
     'pivoting and preconditioning are arbitrary. The value carried by the result must be the solution, as an identity of rational functions; an intersection with a set that carries another value is a violation.', technique=SEL)

prop('C32', 'The direct estimates follow their formulas and refuse what they cannot treat',
     'HBR returns exactly the Hansen-Bliek-Rohn enclosure of the preconditioned system for vector and matrix right-hand sides, and HBR and Gauss_Seidel refuse a matrix that is not an H-matrix. Neumaier returns the box around the given centre (a point of the tolerable solution set) '
     'whose half-widths are the weights times the smallest ratio of the rows. Rohn for the united set returns the centre plus and minus the vector of its fixed-point iteration once two successive vectors differ by less than the tolerance, and raises instead of returning a box when that has not happened within maxiter further steps; for the tolerable set the optima of the linear programmes that describe that set, refusing an empty set or an unsolved programme.',
     'all systems of the shapes up to 3x2 with entries of every sign class, weights and centres of every sign, exact inverses',
     'tests compare a handful of systems; a multi-column right-hand side, a weighted box or a row that is not the binding one is not among them',
     [LI + f for f in ('HBR.py', 'Neumaier.py', 'Rohn.py', 'Gauss_Seidel.py')], [('hull', LI + 'HBR.py'), ('inner box', LI + 'Neumaier.py'), ('estimates', LI + 'Rohn.py')],
     'Small shapes; exact arithmetic and exact inverses (rounding of the direct formulas is not judged); whether the iteration of Rohn converges is not decided.',
     'The solvers are interpreted on symbolic systems with the inverse, the optimiser and the linear programming routine replaced by exact or recording stand-ins; the ends of the result are compared with the formulas as terms, and the recorded programmes with the '
     'definition of the tolerable solution set at representatives of the cell.')
prop('C33', 'Parameter subdivision encloses the solution set and improves on evaluation',
     'With exact arithmetic and exactly solved linear programmes, the estimate that PSS gives for an unknown contains the range of that unknown over the united solution set within the starting box (the given box, the box of the solver '
     'it calls, or the default one), whatever the signs in the matrix column and however many subdivisions are allowed, and no exception is raised while there are solutions in the box. When some other component of the box has a width of at least tol '
     'and a subdivision is allowed, the estimate is no wider than interval evaluation of the rows over the box gives.',
     'all systems of the shapes 1x2, 2x2, 3x2, 1x3 and 2x3 with entries, right-hand sides and boxes of every sign class, up to three subdivisions',
     'which division is used, and which programme is solved, depends on the signs of the column, of the right-hand side and of the box; a wrong branch cuts off solutions only for some of them, and the upper ends use the mirrored system',
     [LI + 'PSS.py'], [('subdivision', LI + 'PSS.py algo'), ('bounds of a box', LI + 'PSS.py Omega and ExactOmega')],
     'Small shapes and few subdivisions, at representatives of each trace; tolerances of the floating linear programming library and rounding of the subdivision points are outside.',
     'PSS is interpreted on symbolic systems with the traces partitioned by every comparison; linear programmes are recorded and answered with exact optima; the ends returned are compared with the exact hull and with extended interval division of the rows.')
prop('C37', 'Parameter partitioning encloses the solution set and ends exact',
     'With exact arithmetic, for a regular square system whose matrix is strictly diagonally dominant, the estimate PPS gives for every unknown contains the exact range of that unknown over the united solution set and lies within the box '
     'that its interval solver gives at the start, however many bisections are allowed and whichever entries are points or zero; no exception is raised; and when the method ends before maxiter each end is within tol of the exact one.',
     'all diagonally dominant systems of two and three unknowns with off-diagonal entries and right-hand sides of every sign class, without and with a limit on the bisections, for starting boxes that are exact or wider',
     'which end an entry is fixed at is deduced from signs of derivatives collected along the bisections; one wrong deduction cuts off solutions only for the systems that reach it',
     [LI + 'PPS.py'], [('bisection', LI + 'PPS.py algo'), ('propagation of signs', LI + 'PPS.py split')],
     'Small systems at representatives of each trace; the interval solvers it relies on are replaced by enclosures with the guarantee C35 gives them; rounding is outside.',
     'PPS is interpreted on symbolic systems with the traces partitioned by every comparison; calls of HBR, Gauss and the point solver are recorded and answered with exact or proportionally widened hulls; the ends returned are compared with the exact hull.')
prop('C38', 'Nonlinear functionals give their definitions to user and optimiser',
     'For the nonlinear functionals Tol and Uni the constituents are w_i (rad b_i - mag(mid b_i - f(a_i, x))), for Uni with mig in place of mag, and the value is the least of them. maximize gives the optimiser the negated value plus the penalty of the '
     'linear constraint and a vector between the one-sided slopes of that objective (for models whose derivatives are known exactly, and for Uni where the residual of the attaining constituent does not contain zero), starts it at x0, hands all options on, '
     'and returns its answer with the value negated.',
     'all models with interval values and point slopes, all data, weights and constraints with a given penalty weight; one to three values and one or two parameters',
     'a wrong side of the residual or a wrong constituent only shows for some orders of the constituents; the optimiser then stops short of the optimum without an error',
     ['intvalpy/nonlinear/recognizing_functional.py'], [('functionals and objective', 'intvalpy/nonlinear/recognizing_functional.py')],
     'Interval-valued derivatives, for which the choice of the slope is a heuristic, and constraints without a penalty weight are outside.',
     'The model is replaced by symbols: the ends of its values and its slopes at a symbolic point. The functional is interpreted per order of the constituents and compared with the definition; slopes by exact one-sided differences of the definition.')
prop('C39', 'The existence test holds exactly when the faces carry opposite signs',
     'miranda(f, x) is True exactly when for every component k the values of f_k on the two faces of the box x in direction k have opposite signs, zero allowed, in either order; f is only asked on whole faces of the box.',
     'all maps and boxes of one to three unknowns, by the signs of the values on the faces',
     'a corner in place of a face or a one-ended comparison is right for most maps and claims a solution for some that have none',
     ['intvalpy/nonlinear/solution_existence.py'], [('sign test', 'intvalpy/nonlinear/solution_existence.py miranda')],
     'The map is assumed to enclose its values over the face it is given.',
     'The map is replaced by symbols for its values on each face, in every sign class; a request at anything else than a face is a violation; the verdict is compared with the definition.')
prop('C40', 'The variability estimate is the product of its definition',
     'ive(A, b, N) returns sqrt(n) max Tol (least condition number) |argmax Tol| / |mag b| with n the number of unknowns, where the condition numbers are those of N matrices whose entries are ends of the entries of A in their places.',
     'all systems of up to three rows and two unknowns, all draws and stopping codes of the optimiser',
     'the draws are random: a matrix with an entry in the wrong place changes the value only sometimes and no test can tell the value from a legitimate one',
     [LI + 'system_properties.py'], [('estimate', LI + 'system_properties.py ive')],
     'How well the sampled condition number approximates the least one is not judged.',
     'The optimiser, the random draws and the condition number are replaced by recorders; the value is compared with the definition as an identity of terms.')
prop('C34', 'Global minimisation subdivides without losing the minimum',
     'globopt bisects, along its widest side, the box whose lower bound is least, evaluates both halves, stops when the range of that box is narrower than tol or the iterations are exhausted, and returns the box with the least lower bound among all '
     'boxes of the subdivision together with the range of the objective on it.',
     'all objectives and boxes of up to three dimensions over up to three subdivisions',
     'tests run two benign objectives; an order of the list that is wrong for one pattern of bounds shows only on others',
     ['intvalpy/nonlinear/globopt.py'], [('subdivision', 'intvalpy/nonlinear/globopt.py globopt')],
     'Up to three bisections; exact midpoints.',
     'The objective answers every box with fresh symbols; each path of the subdivision is compared with the reference subdivision at representatives of the path.', over=('inputs', 'histories'))
prop('C35', 'The subdifferential Newton method takes true Newton steps',
     'In every step of Subdiff the matrix handed to the linear solver is a subgradient of the map x -> Ax - b in complete interval arithmetic, the right-hand side is that residual, the new iterate is the old one minus tau times the solution, '
     'the iteration goes on exactly while the relative residual exceeds tol (and maxiter allows), and the ends of the result are the last iterate.',
     'all sign classes, proper and improper, of one-dimensional systems and selected two-dimensional ones',
     'the sixteen cases of the derivative are hardly touched by tests; a wrong one only slows down or breaks convergence for improper data',
     [LI + 'Subdiff.py'], [('Newton step', LI + 'Subdiff.py')],
     'One and two unknowns; exact arithmetic; convergence is not decided.',
     'The linear solver is replaced by a recorder that answers with fresh symbols; the recorded matrix is compared with the one-sided slopes of the exact Kaucher product in each cell, right-hand side and result with their definitions as terms.', over=('inputs', 'histories'))

FLOW = 'static whole-program analysis of the syntax trees of the package: name resolution, control-flow graphs, alias and effect summaries, call graph'
PKGD = 'intvalpy/'
prop('C08', 'Names, attributes, imports and calls resolve in every branch',
     'Every name read anywhere in the package is bound, every import and module attribute exists, every attribute read exists on some value of the package (attributes of self: on the class), every call of a package function, class or '
     'library function matches its signature, and no local variable is read on a path that has not assigned it: no input ends in NameError, UnboundLocalError, ImportError, or a TypeError for a wrong call inside the package.',
     'all modules, functions, branches and call sites of the package',
     'rare branches (failed linear programs, point matrices, unbounded sets, optional modules) are never entered by tests, and Python resolves names only when it gets there',
     [PKGD], [('all modules', PKGD)],
     'Types of arbitrary receivers are not inferred (their attributes are checked against everything the package can hold); for loops are taken to run at least once.',
     'Scopes, imports and classes of all modules are resolved; library namespaces and signatures come from the installed libraries; definite assignment runs over the statements with correlated conditions.', technique=FLOW)
prop('C09', 'Arguments of the caller are left unchanged',
     'No exported function or method changes an array, interval, list or object handed to it (nor an operand of an operation): matrices, right-hand sides, starting points, weights and constraints are after the call what they were before, '
     'whatever the options; element assignment and deletion on an interval array and methods whose purpose is to set up their own object are the only exceptions.',
     'all exported functions and methods, all paths, all aliases the analysis follows (names, views, results of asinterval and asarray, closures, helpers)',
     'tests compare results, hardly ever the inputs afterwards, and aliasing depends on the type that was passed',
     [PKGD], [('copies taken before working in place', LI), ('penalty weight on a copy', 'intvalpy/kernel/abstract.py'), ('weight smoothing on a copy', 'intvalpy/models/')],
     'Aliases through advanced indexing, containers and unknown library results are not counted as certain and stay unreported.',
     'Alias sets of the parameters are propagated flow-sensitively over each control-flow graph with interprocedural summaries to a fixpoint; every store, in-place operator and mutating call on a certain alias is a violation.',
     technique=FLOW, over=('inputs', 'histories'))
prop('C17', 'Iterative methods end: every loop is bounded',
     'Every while loop of the package is bounded by a counter or a shrinking container: the counter is moved toward its bound on every path round the loop, is not reset, and the test that ends the loop is met in every round, '
     'so each solver stops after finitely many iterations even when it does not converge, and its iteration limit is used. Loops that wait for change flags to settle are not covered.',
     'all loops of the package and all paths through their bodies',
     'a loop that does not end shows only on data for which the method does not converge',
     [PKGD], [('iteration limits', LI), ('line search limit', 'intvalpy/kernel/ralgb5.py'), ('nonlinear iterations', 'intvalpy/nonlinear/')],
     'Termination of library calls and of user functions is assumed.',
     'Exit tests, counters, bounds and paths round each loop are found on the control-flow graph; for loops are checked to run over finite sequences that their bodies do not lengthen.', technique=FLOW, over=('inputs', 'histories'))
prop('C20', 'Every option takes effect and is handed on under its own name',
     'The value given for any parameter of an exported function or method reaches a use (it is not ignored or overwritten first), a function that returns the result of another function of the package with an option of the same name, or has no other use for that option, hands its own value on, '
     'and options are not exchanged for one another on the way.',
     'all parameters of exported functions and all calls between package functions that share an option',
     'tests set few options, and an option that is silently ignored or exchanged changes only speed, accuracy or drawing',
     [PKGD], [('options of solvers and drawing functions', LI), ('recognising functionals', 'intvalpy/kernel/abstract.py')],
     'Whether the value has the documented effect once it is used is the subject of other properties.',
     'Liveness of each parameter at entry on the control-flow graph; argument-to-parameter matching at each resolved call.', technique=FLOW)
prop('C21', 'No hidden state between calls',
     'The result of a call depends on its arguments (and the object it is called on), not on earlier calls, the clock or random numbers: module variables, class and function attributes and default values are not used to carry state, '
     'numpy, mpmath and solver settings of the process are not changed. ive (random vertices), precision and the options set once at import are the exceptions.',
     'all functions and all sequences of calls',
     'tests call functions in one order and from a fresh process',
     [PKGD], [('drawing windows collected in a module list', LI + 'boundary_intervals.py'), ('all modules', PKGD)],
     'State kept inside the libraries is outside.',
     'Writes to module variables, classes, functions, defaults and library settings are found in the syntax trees; a changed module variable must be emptied on every path before it is read.', technique=FLOW, over=('histories',))
prop('C26', 'Drawing and files only on request',
     'With show false no exported function opens a figure, and without a true save none writes a file; with show (and save) true the drawing functions do draw (and write). Only the drawing class IPlot draws unasked. Importing the package draws and writes nothing.',
     'all exported functions, all paths and calls under each value of the options',
     'tests run without a display and with drawing switched off, and do not look at the file system',
     [LI + 'boundary_intervals.py', 'intvalpy/kernel/visualization.py'], [('drawing on request', LI + 'boundary_intervals.py')],
     'What is drawn is not judged.',
     'Reachability of drawing and writing calls over control-flow graphs and the call graph, with the branches on show and save decided by the assumed option values.', technique=FLOW)
prop('C27', 'Interrupts and refusals are not swallowed',
     'No handler of the package catches KeyboardInterrupt or SystemExit without raising it again, no finally block or __exit__ discards an exception in flight, and the verdict of clear_zero_rows that a system is contradictory is heeded '
     'before its remaining rows are used.',
     'all handlers, finally blocks, context managers and calls of clear_zero_rows',
     'tests do not interrupt running solvers and rarely contain contradictory zero rows',
     [PKGD], [('handlers in the parameter partitioning method', LI + 'PSS.py'), ('zero rows', LI + 'boundary_intervals.py')],
     'Handlers of Exception may still hide ordinary errors.',
     'Handler types and their re-raising paths, exits from finally blocks, return values of __exit__, and the first use after each call of clear_zero_rows.', technique=FLOW, over=('inputs', 'crash_points'))

SHP = ('static abstract interpretation of the sources in a domain of array shapes with unknown entries: every path of a call with operands that do not fit has to end in an exception')
prop('C18', 'Operands that do not fit together are refused',
     'Linear solvers, recognising functionals, the regression models, the set drawing functions, LinearConstraint and intersection raise an exception when sizes do not fit: a matrix that is not square where it has to be, a right-hand side '
     '(also one of length one), starting point, point, weights or bounds of another length than the matrix asks for, a number of columns the drawing function cannot draw, more unknowns than equations for Rohn, interval data for lineqs, orders of another count than the columns for ISPAE; '
     'Shary_system and Toft_system raise for parameters outside their documented ranges. No such call returns a result.',
     'all listed entry points, shapes up to four rows and three columns, entries unknown',
     'numpy broadcasts a length-one vector silently and zip drops surplus elements, so a wrong call returns a plausible box; tests pass matching sizes',
     [LI, ABS, NO, PRE, 'intvalpy/models/WILS.py', 'intvalpy/nonlinear/recognizing_functional.py'],
     [('assertions at entry of the solvers', LI), ('checks of the functionals', ABS), ('parameter ranges of the test systems', NO)],
     'Entries are unknown numbers of known sign; numpy and cvxopt kernels are replaced by their demands on sizes. Shapes beyond those listed are outside, and so are one weight for all rows and several weights for a single row, which numpy stretches.',
     'Each entry point is interpreted on operands with concrete shapes and unknown entries; linear algebra is replaced by shape transfer functions; any path (with consistent facts) that returns is a violation.', technique=SHP)
prop('C19', 'Unknown names of options and unprovided numpy functions are refused',
     'A kind of solution set, objective, norm, polynomial basis or order of a metric outside the documented names raises an exception instead of falling back to a default, and so does a numpy function the library does not provide, applied to '
     'intervals or interval arrays, and any form of a numpy function on interval arrays other than the plain call (outer, at, reduce, reduceat, accumulate).',
     'Rohn, IntLinIncR2, IntLinIncR3, WILS, ISPAE, dist and the numpy dispatch of all interval classes; some 25 wrong names each and some 40 functions',
     'a misspelt option that is silently taken for another answers a different question; tests spell options correctly',
     [LI, RI, PYX, 'intvalpy/models/', UT], [('dispatch of numpy functions', RI), ('kind of solution set', LI + 'boundary_intervals.py'), ('objective and norm', 'intvalpy/models/')],
     'The names tried are a finite list of near misses; in-place numpy calls with out= are not covered.',
     'The same interpretation as C18, with the option a constant outside the documented set; any path that returns is a violation.', technique=SHP)
prop('C22', 'Drawn solution sets are unions of the right orthant pieces',
     'IntLinIncR2 and IntLinIncR3 hand to the vertex enumeration, for every orthant, exactly the linear inequalities of the united (or tolerable) solution set within it (lower and upper ends taken by the sign of the unknown and exchanged for '
     'the tolerable set) together with the sign conditions; no orthant is missed or taken twice, unbounded pieces are enumerated a second time within one common window, the pieces are returned in order, '
     'and real systems are passed on unchanged.',
     'systems of one to three inequalities in every combination of entry signs, both kinds of set, bounded and unbounded pieces',
     'tests compare a few drawn polygons, in which most orthants are empty; an exchanged row or missed orthant shows only for particular sign patterns',
     [LI + 'boundary_intervals.py'], [('orthant loops', LI + 'boundary_intervals.py algo')],
     'The vertex enumeration of one system of inequalities (lineqs, lineqs3D) is taken as given.',
     'The function is interpreted with symbolic ends for every pattern of entry signs, the enumeration replaced by a recorder; the recorded inequalities are compared with those of the definition over the same symbols, row by row, up to positive factors.')
prop('C23', 'Weighted interval regression optimises what it documents',
     'WILS.fit smooths the weights by w_0 = beta w_0 (1 - alpha), w_k = beta (w_k (1 - alpha) + alpha w_(k-1)) with the smoothed previous weight, maximises the smallest (norm inf) or the sum (l1) of the weighted constituents of Tol, Uni or Uss '
     'minus the penalty of the constraint, hands the optimiser a slope that lies between the one-sided slopes of that objective (for Uni where no plateau of a residual containing zero interferes), starts at the given point, '
     'passes the options on, stores point and value with the right sign, and predict is the product with the found point.',
     'one to three observations and unknowns, all sign cells, both norms, three objectives, with and without weights and constraint',
     'tests fit one data set and compare to a tolerance: a wrong slope or smoothing shows only away from it',
     ['intvalpy/models/WILS.py'], [('smoothing, objectives and slopes', 'intvalpy/models/WILS.py')],
     'The optimiser is a recorder; convergence is outside. Interval arithmetic is exact here (rounding is C01).',
     'fit is interpreted with symbolic data in sign cells; the objective handed to the optimiser is evaluated at a symbolic point and compared with the definition; slopes are compared with derivatives of the value term in the cell.')
prop('C36', 'Interval polynomial regression: exact ranges and the documented objective',
     'ISPAE takes, for every basis (monomials, Chebyshev, Hermite, Laguerre, Legendre) and degree up to two, as value of each input column the exact range of its polynomial over the interval, sums the columns (and the bias), maximises the smallest or the sum of the weighted constituents '
     'minus the penalty, uses for degree one slopes between the one-sided slopes of that objective, and the predicted intervals contain every value of the fitted polynomial over the input and are not wider than the sum of the ranges of its terms.',
     'input intervals in all sign cells, coefficients in all sign cells, five bases, degrees one and two, one or two columns, with and without bias',
     'tests fit one series; the extremum inside the interval is met only when the coefficients put it there',
     ['intvalpy/models/ISPAE.py'], [('range of a polynomial', 'intvalpy/models/ISPAE.py value_of_one_col'), ('objectives and slopes', 'intvalpy/models/ISPAE.py')],
     'Degrees above two need numerical roots and are outside; pandas frames and numpy polynomials are replaced by models in /verif/sa/models.',
     'The column value is interpreted symbolically; its ends are compared with the exact range of the quadratic over every cell of the position of its vertex; objectives and slopes as in C23.')

NA = []
