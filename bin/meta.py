"""Properties, and how each is decided.  bin/gen writes properties.jsonl and MANIFEST.json from this."""
PROPS={}
COMMON_ASSUME=["Numbers are compared with tolerances derived from the working precision and the conditioning of the case; cases at a singularity or on a branch cut are not compared (counted separately in outcomes)."]
def P(id,**k):
    k.setdefault('assumptions',[]); k['assumptions']=k['assumptions']+[a for a in COMMON_ASSUME if k.get('numeric',True)]
    PROPS[id]=k
P('P01',run=[('ft','P01'),('hi','P01')],
 title='Expressions evaluate to what they denote',
 statement='Evaluating any expression built from variables, numbers and the offered operations and functions yields the mathematical value of that expression at the current values of its variables, in double precision and in multiple precision to within the accuracy of the requested precision. This holds no matter how the expression was spelled (every operator form, compound assignment, shared or repeated subexpressions), and after variables change, precision changes, and repeated evaluation; building a larger expression never changes the meaning of the pieces it was built from.',
 over=['inputs','programs','histories'],qtext='all expressions over the operation vocabulary up to a number of operations; all pairs of operator spellings on all operand shapes; histories of changing points and precision',
 why='Tests evaluate a few dozen hand-picked expressions at one point; wrong values arise for particular combinations of operations, sharing and re-evaluation.',
 files=['core/src/function_tree/operators/arithmetic.cpp','core/src/function_tree/operators/trig.cpp','core/src/function_tree/symbols/number.cpp','core/src/function_tree/symbols/special_number.cpp','core/include/bertini2/function_tree/node.hpp','core/include/bertini2/function_tree/operators/arithmetic.hpp'],
 mech=[('fresh evaluation of each operator','core/src/function_tree/operators/arithmetic.cpp'),('cached values and reset','core/include/bertini2/function_tree/node.hpp'),('operator overloads that build trees','core/include/bertini2/function_tree/operators/arithmetic.hpp')],
 state='cached value and freshness flag of every node; precision of every node',observe='value of evaluating the expression',
 rule='every term with at most 2 operations over {x,y,3 constants} x 16 unary x 5 binary operations, each built plain and with shared subterms, every term with 3 operations over a reduced vocabulary, every term with 1 operation over 15 constants; visited at 3 point changes x 2 precisions; plus every pair of API spellings on every operand shape; non-trivial = the value was defined and compared with the reference evaluator; sums and products of 3..8 operands with every pattern of signs, nested in each other, powers -12..20, chains of 4..12 operators, five deep functions; small terms at every sequence of 4 precisions up to 300 digits and steps between all nearby precisions, against a 340 digit reference',
 bounds='2 operations (general), 3 operations (reduced vocabulary); thorough: larger vocabularies; wide families: 8 operands, 300 digits')
P('P02',run=[('ft','P02'),('hi','P02')],
 title='Differentiation gives the true derivative',
 statement='For every expression and every variable, the expression obtained by differentiating with respect to that variable evaluates to the mathematical partial derivative wherever it exists, in both number types. The total differential evaluated along a variable gives the same number, and differentiating leaves the original expression unchanged.',
 over=['inputs','programs'],qtext='all expressions up to a number of operations, all variables (including ones that do not occur), two points each',
 why='Tests check individual rules; the product, quotient, chain and power rules interact in combinations no test samples.',
 files=['core/src/function_tree/operators/arithmetic.cpp','core/src/function_tree/operators/trig.cpp','core/src/function_tree/symbols/differential.cpp','core/src/function_tree/roots/jacobian.cpp','core/src/function_tree/symbols/variable.cpp'],
 mech=[('symbolic differentiation of each operator','core/src/function_tree/operators/arithmetic.cpp'),('evaluation along a differential','core/src/function_tree/roots/jacobian.cpp')],
 state='derivative tree',observe='value of the derivative at a point',
 rule='as P01 (terms up to 2 operations general, 3 reduced), plus products and quotients of 0, 1, -1; compared against forward-mode differentiation of the reference evaluator at two points and back, in the three variables x, y, z (z does not occur); the long, deep and high precision families of P01',
 bounds='2 / 3 operations; wide families: 8 operands, 300 digits')
P('P03',run=[('ft','P03')],
 title='Degree, polynomiality and homogeneity are classified correctly',
 statement='For every expression and every variable or group of variables, in any order, the reported degree equals the polynomial degree of the expression as written in those variables, and is negative exactly when the expression as written is not polynomial in them. An expression is reported homogeneous in a group exactly when every sum in it has terms of equal degree in that group; the per-variable multidegree agrees with the single-variable degrees.',
 over=['inputs','programs'],qtext='all expressions up to 2 operations over the full vocabulary and 3 over a reduced one, all variables and six groups in both orders',
 why='Degrees decide homogenization, total-degree start systems and path counts; tests sample a few polynomials.',
 files=['core/src/function_tree/operators/arithmetic.cpp','core/src/function_tree/operators/operator.cpp','core/src/function_tree/operators/trig.cpp','core/src/function_tree/symbols/variable.cpp','core/src/function_tree/node.cpp'],
 mech=[('degree rules of each operator','core/src/function_tree/operators/arithmetic.cpp'),('homogeneity tests','core/src/function_tree/operators/operator.cpp')],
 state='none (pure)',observe='degree, multidegree, polynomial and homogeneous predicates',numeric=False,
 assumptions=['Degrees are those of the expression as written, without cancellation. Powers whose exponent is itself a non-trivial expression are not compared.'],
 rule='every term (see P01) x {x,y,z} and x 6 groups x 2 orders, against a structural reference definition of degree and homogeneity; the long and deep families of P01, polynomials of degree up to 16',
 bounds='2 / 3 operations; wide families: 8 operands')
P('P04',run=[('ft','P04')],
 title='Homogenization is exact',
 statement='Homogenizing a polynomial expression with respect to a group of variables, using a new variable, yields an expression which restores the original values when the new variable is 1, scales by the original degree when the group and the new variable are scaled together, and is reported homogeneous of that degree. Homogenizing with respect to a second group does the same for it, expressions containing a subexpression several times are handled the same, and homogenizing again changes nothing.',
 over=['inputs','programs','histories'],qtext='all polynomial expressions up to 3 operations, plain and with shared subexpressions, seven choices of one or two groups',
 why='A missing or extra factor of the homogenizing variable in one particular nesting silently changes the solution set at infinity.',
 files=['core/src/function_tree/operators/arithmetic.cpp','core/src/function_tree/operators/operator.cpp','core/src/function_tree/roots/function.cpp'],
 mech=[('insertion of powers of the homogenizing variable','core/src/function_tree/operators/arithmetic.cpp SumOperator::Homogenize')],
 state='expression tree before/after',observe='values at scaled points; degree; homogeneity',
 rule='every polynomial term with at most 2 operations over 3 variables and 4 constants and 3 operations over a reduced vocabulary x {plain, shared} x 7 group choices; terms that are not polynomial in the group are only counted; the long families of P01',
 bounds='3 operations (thorough 4); wide families: 8 operands')
P('P05',run=[('ft','P05')],
 title='Simplification preserves values',
 statement='Simplifying an expression, as a whole or by any one of its passes (removing zeros, removing ones, flattening), never changes the value of the expression at any point where it is defined.',
 over=['inputs','programs'],qtext='all expressions up to 2 operations rich in zeros and ones, 3 operations reduced, each pass',
 why='Zeros and ones in unusual positions (first operand, denominators, negated terms, all operands) each take a different branch.',
 files=['core/src/function_tree/simplify.cpp','core/src/function_tree/operators/arithmetic.cpp','core/src/function_tree/roots/function.cpp'],
 mech=[('EliminateZeros / EliminateOnes / ReduceDepth','core/src/function_tree/operators/arithmetic.cpp')],
 state='expression tree before/after',observe='values at two points afterwards',
 assumptions=['The variables hold generic (non-zero, non-one) values while the simplification runs, as its documentation demands.'],
 rule='every term with at most 2 operations over {x,y,0,1,-1,2,1.0,0.0} and 7 unary and 5 binary operations, plain and shared, x 4 passes x 2 cache states; 3 operations over {x,0,1}; the long families of P01 with zeros and ones',
 bounds='2 / 3 operations; wide families: 8 operands')
P('P06',run=[('sys','P06'),('hi','P06')],
 title='Every evaluation method computes the same, correct, system',
 statement='A system of functions evaluates to the values of its functions, its Jacobian to their partial derivatives in the order of its variables, and its time derivative to the derivatives with respect to the path variable, whichever evaluation method (straight line program or function tree), differentiation method and simplification setting is used. This holds in double and multiple precision, in whatever order values, Jacobian and time derivative are asked for, after the point, the time, the parameters or the precision change, and for functions that share subexpressions, use each other, use subfunctions or are listed twice.',
 over=['inputs','programs','histories'],qtext='all functions up to 2 operations under 8 method combinations; all pairs of functions sharing or using each other; all orders of 3 chained functions; all request sequences up to length 3 after setting both number types',
 why='Tests compare a few systems under one method; stale caches between number types, wrong operands in the compiled program and order dependence need particular function shapes and request orders.',
 files=['core/src/system/straight_line_program.cpp','core/include/bertini2/system/straight_line_program.hpp','core/include/bertini2/system/system.hpp','core/src/system/system.cpp'],
 mech=[('compilation of trees to straight line programs','core/src/system/straight_line_program.cpp SLPCompiler'),('execution of the program','core/include/bertini2/system/straight_line_program.hpp Eval'),('dispatch between methods','core/include/bertini2/system/system.hpp EvalInPlace/JacobianInPlace/TimeDerivativeInPlace')],
 state='registers and is-evaluated flags of the straight line program, cached node values',observe='Eval, Jacobian, TimeDerivative of a System',
 rule='systems in x, y with path variable t (and parameter w): every function with at most 2 operations over {x,t,2,1/3} x 16 unary x 5 binary operations x 8 methods; every constant in every operand position; pairs and triples of functions that contain each other, as shared nodes, functions used in functions and subfunctions, in all orders; all request sequences of length 3 over {f,J,t,set} x {double,mp}; 1..7 functions in 1..7 variables in each method; small systems at every sequence of 4 precisions up to 300 digits and steps between nearby precisions, also cloned and copied',
 bounds='2 operations per function, 3 functions, 3 requests (thorough 4, wider vocabulary); wide families: 7 functions, 300 digits')
P('P07',run=[('sys','P07'),('hi','P07')],
 title='Operations on systems do exactly what they say, in any order',
 statement='After any sequence of copying, moving, swapping, cloning, adding, multiplying, concatenating, reordering, homogenizing, patching, simplifying, changing precision, evaluation or differentiation method, and adding functions or variables, each system evaluates (values, Jacobian, time derivative, patch rows) to what the sequence denotes, has the right counts, degrees and patch, and carries the requested precision. An operation never changes a system other than the one it is applied to.',
 over=['histories','programs'],qtext='all sequences of up to 3 of 28 operations on two systems (4 over a reduced set), with evaluations interleaved, from four starting configurations',
 why='Every operation has to invalidate or carry along derivatives, compiled programs, ordering and patch; tests apply one operation to a fresh system.',
 files=['core/src/system/system.cpp','core/include/bertini2/system/system.hpp','core/include/bertini2/system/patch.hpp'],
 mech=[('copy, move, swap, Clone','core/src/system/system.cpp'),('operator+=, operator*=, Concatenate','core/src/system/system.cpp'),('is_differentiated_ / have_ordering_ invalidation','core/include/bertini2/system/system.hpp')],
 state='functions, derivatives, straight line program, variable ordering, patch, precision of two systems',observe='Eval, Jacobian, TimeDerivative, counts, degrees, patch of both systems',
 assumptions=['Sequences respect documented preconditions: systems whose trees are shared (plain copies) are not homogenized or simplified; a system with ungrouped variables is not patched; pieces added to a system are at its precision.'],
 rule='all operation sequences of length 1..3 over 28 operations from the default method, 1..2 from the three others, 4 over 12 operations; after every evaluation step and at the end both systems are compared in both number types at two points with the model of the sequence; large systems: bounds, orders, concatenation and copies',
 bounds='3 operations of 28, 4 of 12 (thorough 3 from all starts, 5 of 12)')
P('P08',run=[('sys','P08')],
 title='Variable structure, homogenization and dehomogenization agree',
 statement='For any sequence of declarations of affine groups, homogeneous groups and ungrouped variables, the variable ordering is the order of declaration with each homogenizing variable in front of its group, and all counts and group sizes agree with it. Homogenizing a system makes it homogeneous and equal to the original when homogenizing variables are 1; dehomogenizing a point divides each affine group by its own homogenizing variable and returns the natural coordinates in order, rejecting points of the wrong length; rescaling to the patch moves a point only by a factor per group and onto the patch.',
 over=['inputs','histories'],qtext='all declaration sequences of length up to 4 over 7 kinds, asked for structure in between or not, as declared / homogenized / twice / patched',
 why='Index arithmetic across mixed groups; tests use at most two groups, mostly of equal size.',
 files=['core/include/bertini2/system/system.hpp','core/src/system/system.cpp','core/include/bertini2/system/patch.hpp'],
 mech=[('VariableOrdering / FIFO ordering','core/src/system/system.cpp'),('DehomogenizePointFIFO','core/include/bertini2/system/system.hpp')],
 state='groups, homogenizing variables, time order of groups',observe='ordering, counts, DehomogenizePoint, RescalePointToFitPatch, Eval',
 rule='all sequences of length <=4 over {affine group of 1,2,3; homogeneous group of 2,3; one or two ungrouped} x asked in between x 6 continuations (length 4: 2 continuations); more and larger groups',
 bounds='4 declarations (thorough 5)')
P('P09',run=[('sys','P09'),('hi','P09')],
 title='Patches keep their coefficients and precision',
 statement='A patch evaluates, differentiates and rescales points according to one fixed set of non-zero, distinct random coefficients, for any sizes of variable groups, in both number types, through any sequence of precision changes up and down, copies, assignments, serialization and use: raising the precision restores the full accuracy, results carry the working precision, and the patch stays equal to the original and unequal to others.',
 over=['inputs','histories'],qtext='all group size tuples up to 3 groups, all sequences of up to 3 of 9 actions',
 why='Precision is lost or mixed only after particular sequences; a patch that changes on the way moves the endpoints of paths.',
 files=['core/include/bertini2/system/patch.hpp'],
 mech=[('coefficients at highest and at working precision','core/include/bertini2/system/patch.hpp')],
 state='precision and coefficients of the patch',observe='Eval, Jacobian, RescalePoint, Precision, operator==',
 rule='all tuples of up to 3 group sizes (44) x {complex, real} x action sequences of length <=1, and length <=3 for one tuple, over {20,30,50,70 digits, copy, assign, serialize, use double, use mp}; every sequence of 3 precisions up to 300 digits and all steps between nearby precisions, also copied and serialized',
 bounds='3 actions (thorough 4)')
P('P10',run=[('start','P10'),('hi','P10')],
 title='Start systems have the right, distinct start points, and homotopies join up',
 statement='For every target a start system accepts, it promises exactly as many start points as the total degree, the multihomogeneous Bezout number of the variable groups, or the number of points the user gave. Every promised start point solves the start system (and lies on its patch) to the working precision in both number types, the points are pairwise different, the same point is returned at every precision, an index beyond the number is refused, and targets that are not square, not polynomial or otherwise unsuitable are refused. The homotopy (1-t)*target + t*start is the target at t=0 and the start system at t=1.',
 over=['inputs'],qtext='all degree vectors up to 3 variables and degree 3, all multihomogeneous degree matrices over 11 variable structures, patched or not, both evaluation methods',
 why='A missed, repeated or wrong start point loses solutions silently; tests check a few degree patterns at one precision.',
 files=['core/src/system/start/total_degree.cpp','core/src/system/start/mhom.cpp','core/src/system/start/user.cpp','core/include/bertini2/system/start_base.hpp','core/src/system/start_base.cpp'],
 mech=[('generation of start points by index','core/src/system/start/total_degree.cpp GenerateStartPoint'),('partitions and linear solves','core/src/system/start/mhom.cpp'),('number of start points','core/src/system/start/mhom.cpp')],
 state='degrees, random values, partitions of a start system',observe='NumStartPoints, StartPoint, Eval of start system and homotopy',
 assumptions=['Residuals of badly scaled start points (estimated condition above 1e6) are not compared; they are counted.'],
 rule='every degree vector in {1..3}^n, n<=3 (thorough 4) x 3 target shapes x patched x method; every degree matrix with entries 0..2 (or 0..1) for the listed group structures x patched x method; user start systems with 0..3 points of 1..3 coordinates; 8 unsuitable targets; up to 7 variables and degree 30 (thorough 60); start systems with up to 10^12 start points at the ends and beside powers of two',
 bounds='3 variables / degree 3; multihomogeneous: up to 3 groups and 4 variables ; wide: 7 variables')
P('P11',run=[('lin','P11'),('hi','P11')],
 title='Linear products and slices keep their meaning through every use',
 statement='A product of linear factors evaluates, differentiates and reports degrees and homogeneity exactly like the expanded product of its factors, on its own and inside larger expressions, with random or given coefficients, after any sequence of precision changes, new points, homogenization and differentiation. A linear slice likewise evaluates one fixed set of linear functions, orthonormal, real, or homogeneous where requested, through any sequence of precision changes, copies and serialization; results carry the working precision and raising the precision restores full accuracy.',
 over=['inputs','histories'],qtext='up to 3 variables x 3 factors x 4 kinds, up to 4 variables x 5 dimensions x 8 kinds of slices; all sequences of up to 3 of 9 (8) actions',
 why='These objects hold their own coefficients at several precisions; losing or mixing them needs particular sequences of precision changes and uses.',
 files=['core/include/bertini2/function_tree/symbols/linear_product.hpp','core/src/function_tree/linear_product.cpp','core/include/bertini2/system/slice.hpp'],
 mech=[('coefficients at given and working precision','core/include/bertini2/function_tree/symbols/linear_product.hpp PrecisionChangeSpecific'),('precision of slices','core/include/bertini2/system/slice.hpp Precision')],
 state='coefficients, precision, homogenizing variable',observe='Eval, Differentiate, Degree, IsHomogeneous; Eval, Jacobian, Precision of slices',
 rule='linear products: {1..3} variables x {1..3} factors x {random,given} x {affine,homogeneous} x all action sequences of length <=2 (3 for 2x2) over 4 precisions, new point, evaluate double, evaluate mp, homogenize, differentiate; slices: <=4 variables, dimension <=5, {real,homogeneous,orthogonal}, action sequences of length <=1 (3 for one shape); wider products and slices; sequences of 3 precisions up to 300 digits and steps between nearby precisions',
 bounds='3 actions (thorough 4)')
P('P12',run=[('ser','P12'),('hi','P12')],
 title='What is written to an archive comes back the same',
 statement='Numbers of any precision, vectors and matrices, expressions, functions, systems and start systems that are serialized and read back (or cloned) denote the same thing as before: equal numbers with the same precision whatever the default precision is when reading, expressions with the same values, derivatives, degrees, names and sharing, systems with the same structure, settings, precision, patch, values and derivatives, and start systems with the same start points. The copy can be used like the original afterwards (precision changes, differentiation, change of evaluation method, homogenization, serializing again), and the original is untouched.',
 over=['inputs','histories'],qtext='all expressions up to 2 operations, five systems under 8 methods and up to 16 structures with every history before and use after, all start system kinds, all matrix shapes up to 3x3, several precisions',
 why='Every class serializes its own list of members; a forgotten member shows only for particular objects in particular states.',
 files=['core/include/bertini2/mpfr_complex.hpp','core/include/bertini2/mpfr_extensions.hpp','core/include/bertini2/function_tree/operators/arithmetic.hpp','core/include/bertini2/system/system.hpp','core/include/bertini2/system/straight_line_program.hpp','core/src/system/system.cpp','core/include/bertini2/system/start/mhom.hpp'],
 mech=[('serialize members of each class','core/include/bertini2/function_tree/**, core/include/bertini2/system/**'),('Clone','core/src/system/system.cpp')],
 state='all members of the serialized objects',observe='values, derivatives, structure and precision after reading back',
 assumptions=['Current values of variables and parameters are not part of an archive; they are set again after reading.','Pointers to start systems are written to text archives only, as the library registers them for those.'],
 rule='5 precisions x 4 default precisions when reading x {text,binary} x 9 numbers, 56 exact numbers, 16 shapes; every term with at most 2 operations over 4 constants x 12 unary x 5 binary (and 15 constants) x 3 ways of building; 5 systems x structures x 8 methods x 4 states before x {text,binary,pointer,clone} x 6 uses after; 5 start systems x 4 forms; numbers of up to 999 digits, nodes and systems in every sequence of 2 precisions up to 300 digits',
 bounds='2 operations (thorough 3)')
P('P13',run=[('parse','P13'),('hi','P13')],
 title='Expressions in text mean what ordinary notation says',
 statement='A string is accepted as an expression exactly when it is well formed (numbers, declared names, pi/Pi, e/E, i/I, the functions sin cos tan exp log sqrt with a parenthesized argument, + - * / ^, signs and parentheses, blanks anywhere between lexemes; no implicit multiplication, no undeclared names). Its value is that of ordinary notation: sums and differences, products and quotients and chained powers group from the left, ^ binds tighter than * and /, those tighter than + and -, a sign applies to the factor it precedes (so -x+y is (-x)+y and -2^2 is -(2^2)), numbers are decimal with optional fraction and exponent and keep all their digits, and names are taken whole (x1 is not x). No string makes the parser throw. What is printed (with as many digits as the numbers carry) for an expression without complex constants can be parsed again and means the same.',
 over=['inputs'],qtext='all strings of at most 6 lexemes over 10, of at most 4 over 19 with functions, of at most 5 number characters, all pairs of 19 names',
 why='Unit tests parse a few dozen strings; precedence, sign and literal mistakes show on particular combinations only.',
 files=['core/include/bertini2/io/parsing/function_rules.hpp','core/include/bertini2/io/parsing/number_rules.hpp','core/src/function_tree/operators/arithmetic.cpp'],
 mech=[('FunctionParser','core/include/bertini2/io/parsing/function_rules.hpp'),('LongNum','core/include/bertini2/io/parsing/number_rules.hpp'),('print','core/src/function_tree')],
 state='the string and the set of declared names',observe='accepted or refused; value of the parsed expression at two points with 30 digits; value after printing and parsing again',
 rule='every string of 1..6 lexemes from {x y 2 + - * / ^ ( )}; 1..4 from 19 lexemes with functions, constants and blanks; 3024 combinations around each function; 1..5 characters of number syntax; 8 long literals at 50 digits; 342 ordered pairs of 19 names x 171 expressions; blanks in every subset of gaps of 4 expressions; chains of operators, parentheses, signs and functions up to 64 long (thorough 100), up to 64 names; literals of up to 300 digits',
 bounds='6 lexemes (thorough 7), 5 number characters (thorough 6)',
 assumptions=['Values are compared only where every intermediate value is finite, below 10^6 and away from branch cuts.'])
P('P14',run=[('parse','P14')],
 title='A system file gives exactly the system it describes',
 statement='Text is accepted as a system exactly when it is a sequence of declarations (variable_group, hom_variable_group, variable, function, constant, parameter, implicit_parameter, pathvariable, each followed by new names) and definitions name = expression; in which every name is declared before it is used, an undeclared name on the left of a definition introducing a subfunction. Keywords, constants and names already declared cannot be declared again; any other name can, whether or not another name, a constant or a keyword is a prefix of it. The resulting system has the groups, variables, functions (by name and in order), constants, parameters and path variable of the text, and its values, Jacobian and time derivative are those of the definitions. Text that is refused leaves the target system unchanged.',
 over=['inputs'],qtext='all sequences of at most 4 statements out of 18 (and 3 after two prefixes), names out of 32 in three templates, every one-lexeme edit of three files',
 why='The parser keeps tables that grow as it reads; whether a name or statement is accepted depends on everything before it.',
 files=['core/include/bertini2/io/parsing/system_rules.hpp','core/include/bertini2/io/parsing/system_parsers.hpp','core/include/bertini2/io/parsing/function_rules.hpp','core/src/system/system.cpp'],
 mech=[('SystemParser','core/include/bertini2/io/parsing/system_rules.hpp'),('System::System(string), parse','core/include/bertini2/io/parsing/system_parsers.hpp')],
 state='the text; tables of encountered symbols and functions',observe='accepted or refused; structure, names, values and derivatives of the system',
 rule='every sequence of 1..4 statements from 18, 0..3 after each of two prefixes; 32 names in three templates (first/second/third position varied two at a time; thorough all triples); each deletion, duplication, exchange, replacement by and insertion of 20 lexemes in three files; blanks; up to 48 names, groups and functions in one, many and two lists, forwards and backwards; names up to 48 long',
 bounds='4 statements (thorough 5)',
 assumptions=['Values are compared when every function is defined, not circular, and there is at most one path variable.'])
P('P15',run=[('parse','P15')],
 title='An input file is split into its config and input sections',
 statement='For every layout of the keywords CONFIG, END;, INPUT, END; (any letter case) that Bertini accepts, the config section is the text between CONFIG and the first END; (or INPUT), and the input section the text between INPUT (or the END; of the config section, or the start) and the last END; (or the end of the file); text before, between and after is dropped; comments (% to the end of the line) do not count, whatever they contain, with either line ending and with or without a final newline. Layouts that cannot be split are reported as unreadable. This holds for strings and for files.',
 over=['inputs'],qtext='all 16 keyword layouts x letter case x comments x bodies x headings x endings',
 why='The splitter tries a dozen alternatives in turn; which is taken depends on the combination of keywords present.',
 files=['core/include/bertini2/io/parsing/classic_utilities.hpp'],
 mech=[('SplitInputFileParser, CommentStripper','core/include/bertini2/io/parsing/classic_utilities.hpp'),('ParseInputFile, SplitIntoConfigAndInput','core/include/bertini2/io/parsing/classic_utilities.hpp')],
 state='the text',observe='Config(), Input(), Readable()',
 rule='every combination of keyword layout (14 distinguishable), 3 config bodies, 2 input bodies, 5 comment texts on every line, 3 letter cases, 2 headings, 4 endings, 2 line endings; long files',
 bounds='the same in both tiers (the space is exhausted)',
 assumptions=['The section keywords do not occur elsewhere outside comments.'])
P('P16',run=[('parse','P16'),('hi','P16')],
 title='Numbers are read and written faithfully',
 statement='Reading a real or complex number (double or multiple precision, classic "re im" or C++ "(re,im)" notation) accepts exactly the strings of that form and yields their decimal value to at least the working precision, and to all the digits written where there are more; a refused string leaves the target alone. A number, complex number or vector that is written and read back is the same to within the last digit of its precision.',
 over=['inputs'],qtext='all strings of at most 6 pieces of number syntax; 12 mantissas x 21 exponents x 4 signs x 5 precisions',
 why='Exponents, signs and digits interact; the files that connect program runs are made of these numbers.',
 files=['core/include/bertini2/io/parsing/number_parsers.hpp','core/include/bertini2/io/parsing/number_rules.hpp','core/include/bertini2/io/generators.hpp'],
 mech=[('MpfrFloatParser, MpfrComplexParser, parse','core/include/bertini2/io/parsing/number_parsers.hpp'),('LongNum','core/include/bertini2/io/parsing/number_rules.hpp'),('Classic::generate, CPlusPlus::generate','core/include/bertini2/io/generators.hpp')],
 state='the string, the default precision',observe='accepted or refused, value, value after writing and reading',
 rule='every string of 1..6 pieces from {0 1 7 25 . e E - + blank} read five ways; every mantissa, exponent, sign and precision listed, written and read back; 31..300 digits written and read; up to 320 digits read at 20, 30 and 100',
 bounds='6 pieces (thorough 7)',
 assumptions=['Strings with a leading + and doubles beyond 10^290 are not judged.'])
P('P17',run=[('parse','P17')],
 title='Settings in the config section set the setting they name',
 statement='For every family of settings, reading a config section gives each setting named in it the value written there (numbers, quotients, integers, names, or the method a code stands for) and every other setting its default, whatever the order, letter case, spacing, and whatever other settings stand before, between or after.',
 over=['inputs'],qtext='19 families, every ordered choice of up to 3 settings with all values for the first two, plus all settings together, among 6 foreign contexts',
 why='One parser per family has to skip all settings of the others; mistakes show for particular orders and neighbours.',
 files=['core/include/bertini2/io/parsing/settings_parsers/tracking.hpp','core/include/bertini2/io/parsing/settings_parsers/endgames.hpp','core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp','core/include/bertini2/io/parsing/settings_parsers.hpp','core/include/bertini2/io/parsing/number_rules.hpp'],
 mech=[('ConfigSettingParser','core/include/bertini2/io/parsing/settings_parsers/*.hpp'),('FillConfigStruct','core/include/bertini2/io/parsing/settings_parsers.hpp')],
 state='the text',observe='every field of the configuration struct',
 rule='19 families; ordered choices of 0..3 settings x values x 3 styles x 7 contexts x 3 places; all settings forwards and backwards',
 bounds='3 settings (thorough 4)',
 assumptions=['A setting is given at most once. Fields without a default are compared only when set.'])
P('P18',run=[('track','P18')],
 title='A predictor step has the order of accuracy of its method',
 statement='For every predictor method (constant, Euler, Heun-Euler, RK4, RKF45, Cash-Karp, Dormand-Prince, Verner), regular point of a homotopy, time, direction of the step and number type, one step is a step of that method: its error shrinks like |dt|^(order+1), the method reports its order and whether it has an error estimate, the estimate shrinks at the same rate and is not far below the error, and the size proportion is the estimate divided by |dt|^(order+1). The norms reported are those of the Jacobian and a lower estimate of its inverse, the condition number their product. Steps in double and in every multiple precision agree to the precision in use, all overloads agree, and a predictor object taken through any changes of method, precision and system behaves as a new one. A singular matrix, or a failure of criterion A or C, is reported as such.',
 over=['inputs','histories'],qtext='8 methods x 10 homotopies with exactly known paths x 3 times x 3 directions x 5 precisions and double; all histories of at most 3 changes out of 10; 1458 criteria settings per method',
 why='A wrong coefficient in a tableau still follows paths, only with more steps or at the wrong precision; tests compare a few hard coded values.',
 files=['core/include/bertini2/trackers/explicit_predictors.hpp','core/include/bertini2/trackers/predict.hpp','core/include/bertini2/trackers/amp_criteria.hpp','core/include/bertini2/trackers/ode_predictors.hpp','core/src/tracking/explicit_predictors.cpp'],
 mech=[('ExplicitRKPredictor::Predict','core/include/bertini2/trackers/explicit_predictors.hpp'),('PredictorMethod, ChangeSystem, ChangePrecision','core/include/bertini2/trackers/explicit_predictors.hpp'),('Order, HasErrorEstimate','core/include/bertini2/trackers/ode_predictors.hpp')],
 state='the predictor object (method, workspace, precision, system), point, time and step',observe='return code, predicted point against the exact path, error estimate, norms, condition number, precision of the point',
 rule='every method, path, time, direction and form of the homotopies, with step 1/128 and 1/256 at 80 digits; 16 to 80 digits and double at step 1/16; every history of changes then two predictions, compared with a new object; histories over systems of different sizes, up to 20 variables; error estimates and norms reported against their definitions',
 bounds='histories of 3 changes (thorough 4, all methods)',
 assumptions=['The estimate of the norm of the inverse uses a random vector; it is only required to lie within what vectors of complex units can give.'])
P('P19',run=[('track','P19')],
 title='The Newton corrector returns Newton iterates and an honest verdict',
 statement='Starting anywhere near a regular root, the corrector performs exactly Newton iterations: it stops with success after the first iteration, not before the minimum number, whose step is shorter than the tolerance, otherwise reports failure after the maximum number; the returned point is the corresponding iterate to the precision in use, and the reported step length, norms and condition number are those of the last iteration. Singular matrices are reported as matrix failures. With precision control it asks for higher precision exactly when criterion B or C of adaptive precision tracking is violated, which compute the documented bounds. A corrector taken through any changes of system and precision, and successful or failing corrections, behaves as a new one.',
 over=['inputs','histories'],qtext='10 homotopies, 5 offsets, 3 precisions and double x 7 tolerances x all minima and maxima up to 6; 1458 criteria settings; all histories of at most 3 operations out of 9',
 why='Off-by-one iterations, lost precision or a wrong bound only change how often steps fail, which no test notices, but void the tolerance or the precision guarantee.',
 files=['core/include/bertini2/trackers/newton_corrector.hpp','core/include/bertini2/trackers/newton_correct.hpp','core/include/bertini2/trackers/amp_criteria.hpp'],
 mech=[('NewtonCorrector::Correct','core/include/bertini2/trackers/newton_corrector.hpp'),('CriterionA, CriterionB, CriterionC and their bounds','core/include/bertini2/trackers/amp_criteria.hpp')],
 state='the corrector object (workspace, precision, system), point, tolerance, iteration bounds',observe='return code, point, step length, norms, condition number, precision',
 rule='every path, time, offset, precision, tolerance and pair of iteration bounds against a reference Newton iteration at 90 digits; every criteria setting listed; every history followed by three corrections compared with a new corrector; systems of up to 20 variables; the settings of adaptive precision made from a system against their definitions',
 bounds='histories of 3 operations (thorough 5)',
 assumptions=['Cases in which the length of a step is within rounding or 1% of the tolerance are not judged.'])
P('P20',run=[('trk','P20')],
 title='Fixed precision trackers follow the path or say that they did not',
 statement='For every homotopy with regular paths, every start and end time (real or complex, forwards, backwards, equal), predictor, tolerance, step size and Newton settings, a double or multiple precision tracker follows the path it started on: at each event the time lies on the segment, the point within the tolerance of that path, no step is longer than the current or largest step size, the first is the initial step size or the length over the least number of steps, steps grow only after the asked number of successes and by no more than the given factor, failed steps move nothing and shrink the step by the given factor, and tracking ends at the end time with the endpoint to the tolerance after at least the minimum number of steps. On paths to infinity, through or to singular points, with step size or number of steps bounded, it ends with the code for what happened (cut off exactly when the point in the coordinates of the user, whether the system is affine or homogenized and patched, is beyond the threshold and cutting off is on, step count and step size limits exact) and reports success only with a correct endpoint. Start points of wrong size or precision are refused. Counters and the sequence of events are consistent. The same path tracked again takes the same steps. After any history of tracks (ending well or not), and changes of system, predictor, tolerance and steps, a tracker gives the same result, bit by bit, as a new one.',
 over=['inputs','histories'],qtext='10 homotopies, all paths, 7 segments x 8 predictors x 4 tolerances x 4 step settings x 3 Newton settings (at most 2 deviating from the default), 5 impossible paths x limits, all histories of at most 3 operations out of 17',
 why='Path jumping, steps past the end, or state left over from an earlier path show only for particular paths, settings and histories; tests track a handful of paths to one tolerance.',
 files=['core/include/bertini2/trackers/base_tracker.hpp','core/include/bertini2/trackers/fixed_precision_tracker.hpp','core/include/bertini2/trackers/newton_corrector.hpp','core/include/bertini2/trackers/explicit_predictors.hpp'],
 mech=[('Tracker::TrackPath','core/include/bertini2/trackers/base_tracker.hpp'),('FixedPrecisionTracker','core/include/bertini2/trackers/fixed_precision_tracker.hpp')],
 state='the tracker (time, point, step size, counters, settings), system, default precision',observe='every event, time and point at each of them against the exact path, return code, endpoint, counters',
 rule='every combination with at most 2 (thorough 3) settings off the default; every impossible path x predictor x tolerance x threshold x limits; every bound on the number of steps from 0 to 10 and around the number needed; every history then two tracks compared with a new tracker; systems of up to 20 variables, affine and patched; first step, growth and shrinking of steps against the settings; cut-off by the norm in the coordinates of the user at three thresholds, 1..8 variables, affine, homogenized in one or many groups; the same path again takes the same steps',
 bounds='histories of 3 operations (thorough 4)',
 assumptions=['Copies of a tracker share its predictor and corrector and are not covered.'])
P('P21',run=[('trk','P21')],
 title='The adaptive precision tracker follows the path at sufficient precision',
 statement='What holds for fixed precision trackers holds for the adaptive one at every starting precision, tolerances below double precision included. In addition tracker, system, default precision and tracked point are always at the same precision, every change of precision is announced with the right values, each step is made at a precision sufficient by the criteria for the path (up to the estimates they use), precision is lowered only after the asked number of successful steps and at most as often as allowed, and is lowered where allowed and more than needed, the endpoint carries the precision at which tracking ended, precision is restored when asked to be preserved, a singular start point and reaching the maximum precision are reported as such, and after any history of operations it tracks as correctly as a new one.',
 over=['inputs','histories'],qtext='10 homotopies, 7 segments x 8 predictors x 5 tolerances down to 1e-20 x settings x starting at 16, 20, 30 or 50 digits, preserved or not; impossible paths; all histories of at most 3 operations out of 17',
 why='Precision is global state changed in the middle of steps; a missed conversion shows only on paths that change precision at a certain moment.',
 files=['core/include/bertini2/trackers/amp_tracker.hpp','core/include/bertini2/trackers/base_tracker.hpp','core/include/bertini2/trackers/adaptive_precision_utilities.hpp','core/include/bertini2/trackers/amp_criteria.hpp'],
 mech=[('AMPTracker','core/include/bertini2/trackers/amp_tracker.hpp'),('Tracker::TrackPath','core/include/bertini2/trackers/base_tracker.hpp')],
 state='the tracker (time, point, step size, precision, counters, settings), system, default precision',observe='every event, time, point and precision at each of them, return code, endpoint and its precision, counters',
 rule='as for the fixed precision trackers, times starting precision and preservation; systems of up to 20 variables; sufficient precision by criteria A and C at each step; when precision is lowered, against three settings; cut-off as for fixed precision; the same path again',
 bounds='histories of 3 operations (thorough 4)',
 assumptions=['Times are held at the precision of the start point, and at double precision while tracking in double.','The number of steps may vary slightly, as condition numbers are estimated with random vectors.'])
P('P22',run=[('trk','P22')],
 title='Observers hear of every event once, and recorders record what happened',
 statement='Whatever observers do when told of an event (add or remove observers, themselves included), every observer attached throughout is told exactly once, no other more than once, and afterwards exactly those attached and not removed are told. Over any sequence of paths, the precision recorders report what happened on those paths: precision at the start, whether, when and to what it first increased, least and greatest precision, precision at each event, and the points after each successful step.',
 over=['histories','inputs'],qtext='2 to 3 observers, every order of attachment, every combination of actions; all sequences of at most 3 out of 8 adaptive precision paths',
 why='An observer that leaves while being notified disturbs the others; recorders attached for many paths carry over what they saw.',
 files=['core/include/bertini2/detail/observable.hpp','core/include/bertini2/detail/observer.hpp','core/include/bertini2/trackers/observers.hpp','core/include/bertini2/trackers/events.hpp'],
 mech=[('Observable::NotifyObservers, AddObserver, RemoveObserver','core/include/bertini2/detail/observable.hpp'),('FirstPrecisionRecorder, MinMaxPrecisionRecorder, PrecisionAccumulator, AMPPathAccumulator','core/include/bertini2/trackers/observers.hpp')],
 state='the set of observers; what each recorder holds',observe='how often each observer is told; what recorders report against an independent observer',
 rule='every order and action combination; every sequence of paths x order of attachment; 5 to 33 observers at once',
 bounds='3 observers, 3 paths (thorough 4 and 4)')
P('P23',run=[('eg','P23')],
 title='The power series endgame finds the limit of a path, or says it did not',
 statement='For every path with a finite limit, regular or singular with any small cycle number, every target time (real or complex), start of the endgame, sample factor, number of sample points, tolerance, number type and precision, the power series endgame reports success only with the limit to the final tolerance, a cycle number that is a multiple of the true one, and the change between its last two approximations as error estimate. It succeeds at the first approximation whose change is below the tolerance, gives up as too large exactly when security is on and two successive approximations exceed the norm, and never samples nearer to the target than allowed. Start points of the wrong size are refused. After any history of runs, changed settings and failures an endgame works as a new one. Interpolation through points with derivatives reproduces the polynomials it determines.',
 over=['inputs','histories'],qtext='16 paths with known limit and cycle number x 3 targets x 4 starts x 4 factors x 3 numbers of points x 4 tolerances x precisions x 3 trackers (at most 2 deviating from the default), 5 paths x 240 security settings, 7 least distances, all histories of at most 2 operations out of 11',
 why='Endgames decide what the endpoint of every path is; a wrong power, a stale sample or a misjudged stop gives plausible but wrong digits only for some cycle numbers, targets or histories.',
 files=['core/include/bertini2/endgames/powerseries.hpp','core/include/bertini2/endgames/base_endgame.hpp','core/include/bertini2/endgames/interpolation.hpp','core/include/bertini2/endgames/amp_endgame.hpp','core/include/bertini2/endgames/fixed_prec_endgame.hpp'],
 mech=[('PowerSeriesEndgame::RunImpl, AdvanceTime, ComputeCycleNumber','core/include/bertini2/endgames/powerseries.hpp'),('ComputeInitialSamples','core/include/bertini2/endgames/base_endgame.hpp'),('HermiteInterpolateAndSolve','core/include/bertini2/endgames/interpolation.hpp')],
 state='the endgame object (samples, times, approximations, cycle number, settings) and its tracker',observe='return code, final approximation against the exact limit, cycle number, error estimate, last time, every announced approximation, precision of the result',
 rule='every path and every combination with at most 2 (thorough 3) settings off the default; every security setting; every least distance; three malformed start points; every history followed by a run; Hermite interpolation of every monomial pair of degree below twice the number of points (1..5), 4 node sets, 4 precisions; systems of 5..17 coupled variables; what was decided after each approximation against the decision rules',
 bounds='2 settings off the default, histories of 2 operations (thorough 3 and 3)',
 assumptions=['In double precision, paths that wind five times or more may be reported as failures.','The error tolerated is 10 tolerances divided by one minus the ratio of successive changes, as the endgame only sees the change.'])
P('P24',run=[('eg','P24')],
 title='The Cauchy endgame finds limit and cycle number, or says it did not',
 statement='For every path with a finite limit, regular or singular with any small cycle number, every target time, start, sample factor, number of sample points, tolerance, number type and precision, the Cauchy endgame reports success only with the limit to the final tolerance, the true cycle number, and the change between its last two approximations as error estimate. It succeeds at the first approximation whose change is below the tolerance, gives up as too large exactly when security is on and two successive approximations exceed the norm, gives up when the loop does not close within the allowed number of cycles and does not when it closes, and never goes nearer to the target than allowed. Start points of the wrong size are refused. After any history of runs, changed settings and failures an endgame works as a new one.',
 over=['inputs','histories'],qtext='16 paths with known limit and cycle number x 3 targets x 4 starts x 4 factors x 3 numbers of points x 4 tolerances x precisions x 3 trackers (at most 2 deviating from the default), 5 paths x 240 security settings, 7 least distances, 7 cycle bounds, all histories of at most 2 operations out of 11',
 why='The loop around the target must close on the right branch, for every cycle number and target; mistakes in it show for particular paths or after particular earlier runs.',
 files=['core/include/bertini2/endgames/cauchy.hpp','core/include/bertini2/endgames/base_endgame.hpp','core/include/bertini2/endgames/amp_endgame.hpp','core/include/bertini2/endgames/fixed_prec_endgame.hpp','core/include/bertini2/endgames/config.hpp'],
 mech=[('CauchyEndgame::RunImpl, ComputeCauchySamples, InitialCauchyLoops','core/include/bertini2/endgames/cauchy.hpp'),('ComputeInitialSamples','core/include/bertini2/endgames/base_endgame.hpp')],
 state='the endgame object (circle samples, times, approximations, cycle number, settings) and its tracker',observe='return code, final approximation against the exact limit, cycle number, error estimate, last time, every announced approximation, precision of the result',
 rule='as for the power series endgame, and every bound 1..7 on the number of cycles for every path and target; systems of 5..17 coupled variables; what was decided after each approximation against the decision rules',
 bounds='2 settings off the default, histories of 2 operations (thorough 3 and 3)',
 assumptions=['One more cycle than the bound is tolerated, as in the first loops.','Cycle numbers of branches that differ by less than the tracking tolerance near the target are not judged.'])
P('P25',run=[('zd','P25')],case_seconds=300,
 title='Solving a zero-dimensional system finds all isolated solutions',
 statement='For every square polynomial system with finitely many solutions, however it is written, the zero dimensional solver tracks as many paths as the Bezout number of the start system, and with generic random constants every finite solution of multiplicity m is the endpoint of exactly m paths, every path reported as successful and finite ends at a solution to the accuracy asked for, and the multiplicity of each is the number of paths that end there; the reported residual is that of the endpoint, extraction of all and of nonsingular solutions selects the right ones in user coordinates, in double, multiple and adaptive precision, with either endgame and with total degree or multihomogeneous start. Systems that are underdetermined, not polynomial or already have a path variable are refused.',
 over=['inputs','configurations'],qtext='all multisets of up to three roots out of five, all grids of roots, linear systems, and 17 further systems with multiple roots and roots at infinity x 3 trackers x 2 endgames x 2 start systems x settings',
 why='This is the promise of the program. A lost, duplicated or spurious solution results from one particular combination of system, settings and numbers; tests solve a handful of systems, and mostly check that nothing throws.',
 files=['core/include/bertini2/nag_algorithms/zero_dim_solve.hpp','core/include/bertini2/nag_algorithms/output.hpp','core/include/bertini2/nag_algorithms/midpath_check.hpp','core/include/bertini2/system/system.hpp','core/src/system/start/total_degree.cpp','core/src/system/start/mhom.cpp'],
 mech=[('ZeroDim::Solve and its stages','core/include/bertini2/nag_algorithms/zero_dim_solve.hpp'),('AllSolutions, NonsingularSolutions','core/include/bertini2/nag_algorithms/output.hpp')],
 state='the solver: homotopy, boundary points, endpoints and metadata of every path',observe='endpoints in user coordinates against the known solutions, codes, multiplicities, residuals, number of paths, extracted solutions',
 rule='every listed system x tracker x endgame x start system with default settings (every second for multiple and adaptive precision; thorough all), and with one (thorough two) of tolerance, precision, set up twice, tracking tolerances, boundary, predictor changed on a fixed quarter of the systems (thorough all); one equation of degree 6, 11, 20; linear systems in 5, 8, 12 variables; mixed squares in 3..6 variables',
 bounds='3 variables, degree 3, 6 paths, wide: 20 (multiple precision), 64 (double) paths, 12 variables',
 assumptions=['The constants of the homotopy are random and solving is only expected to work for generic ones: a case is a violation if it fails for four independent choices of them. Everything that does not depend on them is judged on every attempt.','In double precision, paths to multiple solutions may be reported as failures.'])
P('P26',run=[('zd','P26')],case_seconds=300,
 title='A solve reports about every path what happened to it, and only that',
 statement='For every system and setting, also when no path arrives, endgames are stopped early, paths are rerun, or points are declared equal, a zero dimensional solve has one entry for each path, labelled with its number, whose codes say how tracking and endgame ended, and for successful paths the accuracy, cycle number, final time, residuals, condition number, precision and multiplicity of that path as observed while it ran; failed paths do not appear among the solutions. Solving again with the same object, after any history of solves and changed settings, reports on the last solve only and finds all solutions again.',
 over=['inputs','histories','fault_sequences'],qtext='systems with known solutions x 6 situations x 3 trackers x 2 endgames; all histories of at most 2 operations out of 8 on 4 systems',
 why='Results of one path or solve left over in another look plausible; they arise only when paths fail or objects are used again.',
 files=['core/include/bertini2/nag_algorithms/zero_dim_solve.hpp','core/include/bertini2/nag_algorithms/midpath_check.hpp','core/include/bertini2/nag_algorithms/output.hpp','core/include/bertini2/endgames/base_endgame.hpp','core/include/bertini2/trackers/observers.hpp'],
 mech=[('metadata of each path','core/include/bertini2/nag_algorithms/zero_dim_solve.hpp'),('post processing','core/include/bertini2/nag_algorithms/zero_dim_solve.hpp')],
 state='solutions and metadata of the solver, from this and earlier solves',observe='every field of the metadata against observations of the endgame, definitions and the situation forced',
 rule='every third (seventh for multiprecision) system (thorough all) x 6 situations; every history followed by a solve; the wide systems of P25',
 bounds='histories of 2 operations (thorough 3), wide: 64 paths',
 assumptions=['As for finding all solutions, what depends on the random constants is a violation only if it happens for four independent choices.'])
P('P27',run=[('bb','P27')],case_seconds=300,
 title='Algorithms chosen at run time are the ones asked for, and solve',
 statement='For every combination of start system, tracker and endgame asked for at run time, the zero dimensional algorithm made is of that kind (adaptive precision, Cauchy endgame and total degree by default), leaves the given system unchanged, and running it solves: as many endpoints as start points, finding all isolated solutions of every polynomial system, also when it is run again. User homotopies, affine or patched, with start points in double or multiple precision, are tracked with exactly the target, start system and homotopy given, one path per start point, and lead to the solutions the homotopy leads to. Systems that cannot be solved this way are refused.',
 over=['inputs','configurations'],qtext='12 combinations on every fourth (double) or ninth of the 102 systems with known solutions; 6 combinations of tracker and endgame for user homotopies of 3 kinds and 2 evaluation methods on those systems',
 why='The selection at run time is a chain of switches over template instances: one wrong branch silently runs another algorithm, and no test looks at which one was made.',
 files=['core/include/bertini2/blackbox/switches_zerodim.hpp','core/include/bertini2/blackbox/user_homotopy.hpp','core/include/bertini2/nag_algorithms/zero_dim_solve.hpp','core/include/bertini2/system/start/user.hpp','core/src/system/start/user.cpp'],
 mech=[('MakeZeroDim and the switches behind it','core/include/bertini2/blackbox/switches_zerodim.hpp'),('MakeUserHom','core/include/bertini2/blackbox/user_homotopy.hpp'),('ZeroDim::Run','core/include/bertini2/nag_algorithms/zero_dim_solve.hpp')],
 state='the algorithm object, systems given',observe='dynamic type, endpoints against the known solutions, metadata, the given systems afterwards',
 rule='every choice of three switches x systems; every kind, evaluation method, tracker and endgame of user homotopies x systems (thorough: all systems for all); the wide systems of P25',
 bounds='3 variables, degree 3, 6 paths, wide: 64 paths',
 assumptions=['What depends on the random constants of the homotopy is a violation only if it happens for four independent choices.'])
P('P28',run=[('bb','P28')],case_seconds=300,
 title='What is written about a solve is what the solve found',
 statement='For every system, tracker, endgame and start system, and however many paths succeed, fail or never start, the main and raw data written name the number of variables and the variables in order, then each path that was started, once, in order, with its number, and the values held about it (condition number, residuals, times, accuracy, precision, cycle number, multiplicity and codes), the coordinates to all the digits they carry, and finally the target system; written user coordinates are the dehomogenized endpoint, and writing changes nothing.',
 over=['inputs','fault_sequences'],qtext='102 systems x 3 situations (complete, stopped at once, stopped on the way) x 4 combinations of tracker, endgame and start system',
 why='The output is what a user reads; a swapped field, a skipped path or lost digits need a solve with particular failures or precisions to show.',
 files=['core/include/bertini2/nag_algorithms/output.hpp','core/include/bertini2/nag_algorithms/zero_dim_solve.hpp','core/include/bertini2/io/generators.hpp'],
 mech=[('output::Classic MainData, RawData, EndPointMDFull, EndPointMDRaw','core/include/bertini2/nag_algorithms/output.hpp')],
 state='solutions and metadata of a solve',observe='the text written, read back field by field',
 rule='every system x situation x combination (every third for multiple and adaptive precision; thorough all); the wide systems of P25',bounds='3 variables, degree 3, 6 paths, wide: 64 paths')
P('P29',run=[('nag','P29')],
 title='Crossed paths are found before the endgame, all of them and only them',
 statement='For every set of paths with points at the endgame boundary that coincide or not at any scale, that failed or not, and start points equal or different, and every tolerance, the midpath check lists exactly the successful paths whose point agrees with that of another successful path to the tolerance, each once, with exactly the paths it agrees with, asks for tracking again exactly of those whose start points differ, and passes exactly if there are none. Checking again with the same object reports on the new points only.',
 over=['inputs','histories'],qtext='all sets of up to 3 paths (4 in part) with 4 points, 2 start points, success or failure x 3 tolerances x 3 scales in double and multiple precision; sequences of two checks',
 why='A missed crossing loses a solution silently, a wrong one reruns good paths; whether it is noticed depends on which of the paths coincide and which failed.',
 files=['core/include/bertini2/nag_algorithms/midpath_check.hpp','core/include/bertini2/nag_algorithms/zero_dim_solve.hpp'],
 mech=[('MidpathChecker::Check, GetCrossedPaths','core/include/bertini2/nag_algorithms/midpath_check.hpp')],
 state='boundary points and codes of all paths; the lists of the checker',observe='whether it passed, the crossed paths, whom with, and which to rerun',
 rule='every tuple of (point, start, code); every pair of tuples of two paths checked one after the other (every fifth second one; thorough all); 5 to 20 paths (thorough 64) of which few cross, anywhere in the list; points of 1..9 coordinates that differ in one',bounds='4 paths, 4 points, wide: 20 paths (thorough 64), 9 coordinates',
 assumptions=['Points are not zero.'])
P('P30',run=[('nag','P30')],
 title='Numbers and linear algebra are right to the precision in use',
 statement='At every precision, integer powers, conversions of rationals, precision of numbers and matrices, digit counts of tolerances, comparisons for smallness and sudden growth, largest values and dot, outer and matrix products and norms are what their definitions say, to all digits. LU decompositions solve regular systems and are reported as singular exactly when the matrix is. Random reals, complex numbers and units lie in their range or on the unit circle, are generic, differ from one another and carry all digits of the precision asked for whatever the default precision, which they leave as it was.',
 over=['inputs','configurations'],qtext='all matrices up to 3 by 3 with small entries at 2 to 4 precisions, all vectors of up to 2 entries out of 5, random numbers at 39 precisions under 4 defaults, powers -9..17, magnitudes 1e-60..1e20',
 why='Everything else computes with these; a lost digit at some precision or a singular matrix taken for regular shows nowhere near its cause.',
 files=['core/include/bertini2/eigen_extensions.hpp','core/include/bertini2/mpfr_complex.hpp','core/include/bertini2/mpfr_extensions.hpp','core/include/bertini2/num_traits.hpp','core/include/bertini2/random.hpp','core/src/basics/random.cpp'],
 mech=[('LUPartialPivotDecompositionSuccessful, IsSmallValue, IsLargeChange, RandomOfUnits','core/include/bertini2/eigen_extensions.hpp'),('RandomMp, RandomUnit and relatives','core/include/bertini2/random.hpp')],
 state='default precision; precision of each number',observe='values against 90 digit arithmetic, precisions, ranges',
 rule='every matrix, vector, exponent, magnitude and precision listed; LU of 4..14, vectors up to 16, sums up to 15, matrices of 7 by 6, powers -40..70',bounds='3 by 3 matrices, 1000 digits, wide: 14 by 14')
P('P31',run=[('nag','P31')],
 title='Witness sets, pools, settings and files hold what was put into them',
 statement='After any sequence of operations a witness set, holding copies, references or shared objects, has the points, slice and system last given to it, degree and dimension accordingly, is consistent exactly if the numbers match, and refuses indices out of range. A pool keeps every object given or made exactly once, and after a purge exactly those still held elsewhere. Stored settings are those last set, whatever else was set, also in copies, and arguments in any order are matched by type. Ready-made systems are the ones named, and the text of any file is read unchanged.',
 over=['histories','inputs'],qtext='all sequences of at most 4 out of 9 operations on witness sets (3 policies), 6 out of 6 on pools, 4 out of 7 on settings; all orders of arguments; all files of at most 3 characters out of 8',
 why='Containers fail on particular sequences: an index equal to the size, a purge between additions, a setting set twice.',
 files=['core/include/bertini2/nag_datatypes/witness_set.hpp','core/include/bertini2/pool/pool.hpp','core/include/bertini2/detail/configured.hpp','core/include/bertini2/detail/typelist.hpp','core/include/bertini2/system/precon.hpp','core/include/bertini2/io/file_utilities.hpp'],
 mech=[('WitnessSet','core/include/bertini2/nag_datatypes/witness_set.hpp'),('detail::Pool','core/include/bertini2/pool/pool.hpp'),('detail::Configured','core/include/bertini2/detail/configured.hpp')],
 state='the container and what it holds',observe='everything it reports, objects alive',
 rule='every sequence up to the length, compared with a list; long sequences',bounds='sequences of 4 to 6 operations (thorough 5 to 7), wide: sequences of 40')
