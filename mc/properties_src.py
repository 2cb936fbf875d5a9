import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
S='interpolation/splines/'
p('C01','Multilinear interpolation is exact inside the grid',
 "On every cartesian grid of one to five dimensions, each dimension uniform or nonuniform with at least two increasing nodes, multilinear spline evaluation at any location inside the grid returns, up to rounding, the tensor-product linear interpolant of the node values surrounding the location. In particular it returns the stored value at every node. This holds for scalar- and vector-valued data of any magnitude, at single locations and on batches.",
 ['inputs','configurations'],'all grids (type of each dimension, node counts, intervals, spacing), node values and inside locations',
 'Tests evaluate random data on one or two grid shapes and mostly only look at shapes or at agreement between two calls; no test covers three or more dimensions, short dimensions, mixed grids of all types or the values themselves.',
 [S+'codegen.py',S+'eval_splines.py'],[('cell search and barycentric weights in the evaluation templates',S+'codegen.py'),('tensor reduction generator',S+'codegen.py: gen_trex/get_values'),('dispatch on argument types',S+'eval_splines.py')],
 obs=['interpolation.splines.eval_spline','interpolation.splines.eval_linear'])
p('C02','Extrapolation options are honoured everywhere outside the grid',
 "Outside the grid, in any combination of dimensions and at any finite distance, evaluation of linear and cubic splines follows the requested option: 'constant' gives zero, 'nearest' gives the value at the closest point of the grid, 'linear' (also the default of the shorthand functions) continues with the slope at that closest point, dimension by dimension. On and inside the boundary the three options agree. This holds in every call form (one location or batch, allocating or in place, scalar- or vector-valued), on uniform and, for linear splines, nonuniform dimensions.",
 ['inputs','configurations'],'all combinations of below/inside/above per dimension, distances, options, spline orders and call forms',
 'The only test of extrapolation compares call forms with each other for a linear spline in one uniform dimension; it does not check the values and covers neither cubic splines, several dimensions, nonuniform grids nor vector-valued or in-place single-location calls.',
 [S+'codegen.py',S+'eval_splines.py',S+'option_types.py'],[('clamping / zeroing / clamped cell index in the templates',S+'codegen.py'),('option types to mode names',S+'eval_splines.py: eval_linear/eval_cubic overloads')],
 obs=['eval_spline(extrap_mode=)','eval_linear(..., options)','eval_cubic(..., options)'])
p('C03','Filtering then evaluating gives the natural cubic spline',
 "On every uniform grid of one to four dimensions with at least two nodes per dimension, filtering node values and evaluating with cubic order gives the tensor-product natural cubic spline: it passes through every node value, is twice continuously differentiable and has zero second derivative at the ends of each dimension. Coefficient arrays have two more entries than nodes along every dimension, and filtering into a supplied array (whatever it held) or vector-valued data gives the same coefficients as filtering each component into a new array. Filtering for linear order returns the values unchanged.",
 ['inputs','configurations'],'all grids, node counts, node values and inside locations',
 'Tests only check shapes of cubic results; none compares a cubic spline with the values it should interpolate, in any dimension.',
 [S+'prefilter_cubic.py',S+'codegen.py',S+'eval_splines.py'],[('tridiagonal solver with natural boundary rows',S+'prefilter_cubic.py: solve_deriv_interp_1d/find_coefs_1d'),('dimension by dimension sweeps',S+'prefilter_cubic.py: _filter_cubic overloads'),('cubic basis functions',S+'codegen.py: blending_formula')],
 obs=['filter_cubic','prefilter','eval_cubic','eval_spline(k=3)'])
p('C04','Requested derivatives are the derivatives of the interpolant, in order',
 "For any list of derivative multi-indices, in any order and with repetitions, evaluation returns one entry per multi-index, in the order requested, equal up to rounding to that partial derivative of the very interpolant the value comes from: inside the grid, and outside of it along the linear continuation. Derivatives of linear splines of order two or more along a dimension are zero; at an interior node of a linear spline the derivative of either adjacent cell may be returned. This holds for linear splines on uniform, nonuniform and mixed grids and for cubic splines (orders 0 and 1), in all call forms.",
 ['inputs','configurations'],'all lists of multi-indices, grids, locations and call forms',
 'Tests check first derivatives of linear splines on nonuniform grids for one list of multi-indices per dimension; uniform grids, cubic derivatives, other orderings and single-location forms are never checked for value.',
 [S+'codegen.py',S+'eval_splines.py'],[('derivative basis functions',S+'codegen.py: blending_formula'),('selection of bases per multi-index',S+'codegen.py: get_values, get_code_spline'),('output layout',S+'eval_splines.py: allocate_output')],
 obs=['eval_spline(diff=)'])
p('C05','All call forms of spline evaluation agree',
 "The same evaluation written in any supported way gives the same numbers, in the documented shape: one location (array or tuple) or a batch of any size including empty, allocating or in place (every entry of the output is overwritten, whatever it held), scalar data or the matching component of vector data, any memory layout or read-only flag of values, nodes, locations and output, from Python or from compiled code, through the general function or the linear and cubic shorthands. Values may be stored as floating point or integer arrays.",
 ['inputs','configurations'],'all pairs of call forms over all configurations, batch sizes, memory layouts',
 'Every combination of template options, output shape and argument type compiles its own code; tests run a few of them and mostly check only that they return.',
 [S+'codegen.py',S+'eval_splines.py',S+'option_types.py'],[('two parallel templates',S+'codegen.py: eval_template, eval_template_vectorized'),('output allocation',S+'eval_splines.py: allocate_output'),('detection of batches by array type',S+'eval_splines.py: t_array_2d')],
 obs=['eval_spline','eval_linear','eval_cubic'])
p('C06','Evaluation is pure and stays inside its arrays',
 "For every location, including locations far away, infinite or not a number, spline evaluation, filtering and multilinear interpolation never modify grid, values, coefficients or locations, never write outside the supplied output and never let the result depend on memory outside the coefficient array. For finite locations the result depends only on the coefficients of the cell that contains the location (or of the closest cell), not on the other coefficients. Repeating a call gives bitwise the same result.",
 ['inputs'],'all locations (including special floating point values), grids and call forms',
 'Compiled code does no bounds checking: an index that is off reads neighbouring memory and usually returns a plausible number; tests never look at memory around the arrays nor at special coordinates.',
 [S+'codegen.py',S+'eval_splines.py',S+'prefilter_cubic.py','interpolation/multilinear/fungen.py'],[('clamping of cell indices',S+'codegen.py'),('clamp in get_index','interpolation/multilinear/fungen.py')],
 obs=['eval_spline','eval_linear','eval_cubic','filter_cubic','interp','mlinterp'])
p('C07','interp and mlinterp return the multilinear interpolant in every form',
 "The simple interface, in each supported form (one location given as numbers, tuple or array; a batch of locations; one or two vectors of coordinates whose cartesian product is evaluated), returns the multilinear interpolant of the data, continued beyond the edges by the value at the closest point of the grid, with one result per location in the order given. The lower-level multilinear function returns the multilinear interpolant on uniform, nonuniform and mixed grids, continued linearly beyond the edges. Both hold for one to four dimensions and any number of nodes from two.",
 ['inputs','configurations'],'all grids, data, locations and call forms',
 'Tests only check that a result is returned for one grid per form; values are never checked.',
 ['interpolation/multilinear/mlinterp.py','interpolation/multilinear/fungen.py'],[('argument classification','interpolation/multilinear/mlinterp.py: detect_types'),('source generation','interpolation/multilinear/mlinterp.py: make_mlinterp'),('cell search, projection, tensor reduction','interpolation/multilinear/fungen.py')],
 obs=['interpolation.interp','interpolation.mlinterp'])
p('C08','Spline objects answer for the values last set, whatever happened before',
 "After any sequence of constructions, settings of values, evaluations, accesses to the grid and refused calls, a linear or cubic spline object (scalar or vector-valued) evaluates to the spline of the values last accepted, exactly as a fresh object would; results already returned never change, and other objects are not affected. Cubic objects refuse non-finite values and non-finite locations and keep their previous state. The grid they expose enumerates the nodes in the order in which values are given, and values given flat or shaped are equivalent.",
 ['histories','inputs'],'all operation sequences up to a bounded length over two objects',
 'Tests build each object once, evaluate it at one repeated point and check shapes; no test sets values twice, uses two objects, or looks at values.',
 [S+'splines.py',S+'multilinear.py',S+'filter_cubic.py','interpolation/cartesian.py'],[('cached coefficients, values and grid',S+'splines.py'),('values and cached grid',S+'multilinear.py')],
 state=[('coefficients','filtered values currently interpolated',S+'splines.py: __coeffs__/__mcoeffs__'),('grid cache','lazily built node list',S+'splines.py, '+S+'multilinear.py: __grid__')],
 obs=['CubicSpline','CubicSplines','LinearSpline','LinearSplines'])
p('C09','Compatibility functions and gradients agree with the main interface',
 "The bounds/orders style functions for linear and cubic splines (coefficient filtering, evaluation of one or several splines at one or many locations, allocating or in place, and the kernels specialised for one to four dimensions) return the same numbers as the main interface, inside and outside the grid. The gradient function, also reachable from the vector-valued cubic object, returns the values together with their partial derivatives, indexed location, dimension, spline, for one to four dimensions; outside the grid these are the derivatives of the linear continuation.",
 ['inputs','configurations'],'all dimensions one to four, grids, data and locations',
 'About nine thousand lines of unrolled kernels are exercised by tests in two dimensions at one point, for shape only.',
 [S+'eval_cubic.py',S+'eval_cubic_numba.py',S+'filter_cubic.py',S+'multilinear_numba.py',S+'splines.py'],[('unrolled kernels',S+'eval_cubic_numba.py'),('second implementation of the filter',S+'filter_cubic.py'),('wrappers',S+'eval_cubic.py, '+S+'multilinear_numba.py')],
 obs=['filter_coeffs','filter_mcoeffs','eval_cubic_spline(s)','vec_eval_cubic_spline(s)','vec_eval_cubic_splines_G','multilinear_interpolation','CubicSplines.interpolate(diff=True)'])
p('C10','Cartesian grids enumerate every node exactly once in the stated order',
 "The cartesian product of any list of one-dimensional node arrays, the regular cartesian grid, and the node list of any uniform, nonuniform or mixed grid contain every combination of nodes exactly once, one per row, with the last dimension varying fastest in 'C' order (the default) and the first varying fastest in 'F' order. Values computed on that list therefore reshape, in the same order, to an array indexed by node numbers. Regular grids contain both end points and are evenly spaced.",
 ['inputs','configurations'],'all numbers of dimensions and node counts (including one), both orders',
 'Tests use the builders to produce data but never check an ordering, mostly with equal node counts where a permutation of dimensions goes unnoticed.',
 ['interpolation/cartesian.py',S+'__init__.py'],[('repetition pattern','interpolation/cartesian.py: _repeat_1d'),('repetitions by order','interpolation/cartesian.py: cartesian'),('nodes',S+'__init__.py')],
 obs=['cartesian','mlinspace','nodes'])
p('C11','Complete polynomial bases contain every monomial once, in a fixed order',
 "For any number of variables and degree 0 to 5, the complete polynomial basis contains each monomial of total degree at most the given degree exactly once, starting with the constant and then the variables in order, and its announced size is that number of monomials. The row order depends only on the number of variables and the degree, and evaluating one observation as a vector gives the same column as evaluating it within a matrix of observations.",
 ['inputs','configurations'],'all numbers of variables, degrees and observations',
 'Tests compare vector and matrix forms at degree 2 and 4 in two variables and fit one function; the content of the basis is never enumerated.',
 ['interpolation/complete_poly.py'],[('nested loops per degree','interpolation/complete_poly.py: _complete_poly_impl(_vec)'),('size formula','interpolation/complete_poly.py: n_complete')],
 obs=['n_complete','complete_polynomial'])
p('C12','Complete polynomial derivative bases differentiate the basis row by row',
 "For any number of variables, degree 0 to 5 and variable of differentiation, each row of the derivative basis is the partial derivative of the same row of the basis, at every observation including zero and negative coordinates, for vector and matrix input alike. Out-of-range variables, negative degrees and degrees above 5 are refused.",
 ['inputs','configurations'],'all numbers of variables, degrees, variables of differentiation and observations',
 'Tests check one derivative of degree 2 by hand and vector against matrix form for two cases.',
 ['interpolation/complete_poly.py'],[('coefficient/power bookkeeping','interpolation/complete_poly.py: _complete_poly_der_impl(_vec)')],
 obs=['complete_polynomial_der'])
p('C13','Complete polynomial fits reproduce polynomials and damp as documented',
 "A complete polynomial fitted on enough points in general position reproduces, at any location, every polynomial of at most its degree, and its derivative method returns the partial derivatives of the fitted polynomial, for scalar and vector data. After any sequence of fits, coefficients are those of the last undamped fit combined in order with each later damped fit as (1-damp) times the new plus damp times the previous coefficients; evaluating never changes them.",
 ['inputs','histories'],'all polynomials up to the degree (by linearity, all monomials), and all sequences of fits up to a bound',
 'Tests fit two functions once, evaluate on the fitting points and run one damped fit without looking at the result.',
 ['interpolation/complete_poly.py'],[('least squares and damping','interpolation/complete_poly.py: CompletePolynomial')],
 state=[('coefs','coefficients of the current polynomial','interpolation/complete_poly.py: CompletePolynomial')],
 obs=['CompletePolynomial'])
p('C14','Smolyak grids contain exactly the points of the sparse construction',
 "For any dimension from two and any isotropic or per-dimension density, the Smolyak grid consists of exactly the points of the Smolyak construction (tensor products of nested Chebyshev extrema whose levels sum to at most the dimension plus the maximal density, each level at most one plus that dimension's density), each once, mapped affinely onto the given bounds (scalar, per-dimension or default), with as many basis polynomials as points. The point-count formula agrees for densities 1 to 3, and the maps between the unit cube and the domain are inverse to each other.",
 ['inputs','configurations'],'all dimensions, densities and bounds',
 'Tests build two grids and never look at the points.',
 ['interpolation/smolyak/grid.py','interpolation/smolyak/util.py'],[('index enumeration','interpolation/smolyak/grid.py: smol_inds, poly_inds; util.py: permute'),('nested sets','interpolation/smolyak/grid.py: s_n, a_chain, phi_chain'),('domain maps','interpolation/smolyak/grid.py: dom2cube, cube2dom')],
 obs=['SmolyakGrid','build_grid','smol_inds','num_grid_points'])
p('C15','Smolyak interpolation reproduces data and every basis polynomial',
 "For any Smolyak grid, the interpolant takes the given value at every grid point and reproduces, at any location of the domain, every polynomial of the Smolyak basis (tensor products of Chebyshev polynomials, in particular constants and coordinates), for scalar and vector-valued data, on isotropic and anisotropic grids and any bounds. After any sequence of updates of the data the interpolant is that of the last data given, and interpolants sharing a grid do not affect each other.",
 ['inputs','histories','configurations'],'all grids, data (by linearity, all unit data and basis polynomials), locations and update sequences',
 'Tests print errors of two interpolations without asserting anything; the derivative test checks one linear function.',
 ['interpolation/smolyak/interp.py','interpolation/smolyak/grid.py'],[('basis matrix and its LU factors','interpolation/smolyak/grid.py: build_B, SmolyakGrid'),('coefficients','interpolation/smolyak/interp.py: find_theta, SmolyakInterp')],
 state=[('theta','coefficients of the current interpolant','interpolation/smolyak/interp.py')],
 obs=['SmolyakInterp','find_theta'])
p('C16','Smolyak derivatives are those of the interpolant, returned in order',
 "The gradient returned with a Smolyak interpolation is the derivative of the interpolated values with respect to each coordinate in the units of the domain (indexed location, dimension, then component for vector-valued data); the other two matrices are the derivatives of the values with respect to the coefficients and with respect to the data on the grid. For every combination of requested outputs, those requested come back in the documented order (values, gradient, coefficients, data), a single one not wrapped in a list.",
 ['inputs','configurations'],'all grids, bounds, data, locations and combinations of requested outputs',
 'The test differentiates one linear function on one isotropic grid and requests one combination of outputs.',
 ['interpolation/smolyak/interp.py','interpolation/smolyak/grid.py'],[('derivative of the basis','interpolation/smolyak/grid.py: build_B(deriv=True)'),('chain rule and packing','interpolation/smolyak/interp.py: interpolate')],
 obs=['SmolyakInterp.interpolate'])
p('C17','Hermite interpolation matches values and slopes and is flat outside',
 "On any increasing grid of at least two nodes, Hermite interpolation is on each cell the cubic that matches the given values and slopes at both ends, so that it reproduces every cubic polynomial given its values and slopes; at or beyond an end of the grid it returns the value at that end. Evaluating a scalar, a vector or a one-column matrix of locations gives the same numbers.",
 ['inputs'],'all grids, values, slopes and locations',
 'The test runs the vector form on random data and checks nothing.',
 [S+'hermite.py'],[('cell search and end cases',S+'hermite.py: HermiteInterpolation'),('basis polynomials',S+'hermite.py: hermite_splines, hermite_interp'),('dispatch on location type',S+'hermite.py: hermite')],
 obs=['HermiteInterpolation','HermiteInterpolationVect','hermite (in compiled code)'])
p('C18','Results do not depend on what was evaluated before',
 "Evaluation code is generated and compiled on first use of each combination of argument types and options; whatever calls were made before, and in whatever order, every call returns what it returns in a fresh process. This holds across spline evaluation, filtering, the simple interface, the compatibility functions and Hermite interpolation.",
 ['histories'],'all orders of first use of call configurations, up to bounded histories',
 'Each test process runs one arbitrary order of calls; code generated for one configuration and wrongly reused for another only shows in particular orders.',
 [S+'eval_splines.py',S+'codegen.py',S+'eval_cubic.py','interpolation/multilinear/mlinterp.py','interpolation/multilinear/fungen.py'],[('code generation into a fresh or shared namespace',S+'codegen.py: source_to_function'),('module-level function slot','interpolation/multilinear/mlinterp.py: ol_interp')],
 state=[('compiled specialisations','per-type code kept by the dispatchers','numba dispatchers of the public functions')],
 obs=['all public evaluation functions'])
p('C19','Objects can be shared by threads',
 "When several threads use the same spline, polynomial or Smolyak object, evaluations that overlap with a change of its data return the result for the data before or after the change, never a mixture, an error or a result for another thread's location; evaluations and grid accesses among themselves behave as if run one after the other, and results already returned are not modified.",
 ['schedules'],'all interleavings of two threads at Python statement granularity up to two preemptions',
 'No test uses threads.',
 [S+'splines.py',S+'multilinear.py','interpolation/smolyak/interp.py','interpolation/complete_poly.py'],[('single assignment of the new coefficients',S+'splines.py: set_values; smolyak/interp.py: update_theta; complete_poly.py: fit_values'),('single read of the coefficients per evaluation','same files')],
 obs=['CubicSpline(s)','LinearSpline(s)','SmolyakInterp','CompletePolynomial'])
p('C20','B-spline basis functions follow the Cox-de Boor recursion',
 "On any strictly increasing knot vector, the B-spline basis function of degree p attached to knot i is nonnegative, vanishes outside the half-open interval from knot i to knot i+p+1, sums to one with its neighbours wherever p+1 of them are available, and follows the recursion started at the indicator of one knot interval; degree-1 functions are the hat functions and degree-3 functions on equidistant knots take the values 1/6, 2/3, 1/6 at the inner knots.",
 ['inputs'],'all knot vectors, degrees, indices and locations',
 'Not tested at all.',
 [S+'basis_splines.py'],[('recursion',S+'basis_splines.py: B, B0')],obs=['interpolation.splines.basis_splines.B'])
p('C21','Grid constructors accept exactly well-formed grids and return them unchanged',
 "Building a uniform grid succeeds exactly when every dimension is a (float, float, int) triple with lower bound below upper bound and at least two nodes; building a general grid additionally accepts one-dimensional arrays with at least two nodes, and refuses anything else. An accepted grid is returned as a tuple of the dimensions given, in order and unmodified.",
 ['inputs'],'all tuples of dimension specifications over an alphabet of well-formed and ill-formed ones',
 'Tests only construct valid grids.',
 [S+'__init__.py'],[('assertions',S+'__init__.py: UCGrid, CGrid')],obs=['UCGrid','CGrid'])
p('C22','The template engine renders control flow as specified',
 "Rendering a template in which literal text, expressions, loops (including nested loops, loops over pairs, break and continue), conditionals (if/elif/else, nested) and assignments are combined in any way produces the text a direct interpretation of the directives produces, with directive-only lines leaving no trace, all other text unchanged, and the position helper of loops (index, first, last, neighbours, groups) telling where the loop is. Malformed templates (unbalanced directives or braces, else or elif outside an if, break or continue outside a loop, a loop or condition without expression) are refused when compiled.",
 ['programs'],'all template programs up to a bounded size',
 'The engine generates all evaluation code but has no tests here; the two templates in use exercise one fixed program each.',
 ['interpolation/tempita/__init__.py','interpolation/tempita/_looper.py'],[('lexer, whitespace trimming, parser','interpolation/tempita/__init__.py: lex, trim_lex, parse'),('interpreter','interpolation/tempita/__init__.py: Template')],obs=['interpolation.tempita.Template'])
p('C23','Copies are faithful, and objects are independent of copies and caller arrays',
 "A spline object, complete polynomial or Smolyak interpolant that is copied (shallow or deep) or pickled and restored, in the same or another process and at any point of its life, evaluates exactly like the original, shows the same grid, and is independent of it from then on: setting values or refitting either never changes the other, nor results already returned. Overwriting the arrays given for bounds, orders and densities (and, except for linear splines, for values) after the call changes nothing.",
 ['histories'],'all histories of data changes, evaluations, copies and overwritten arguments up to a depth',
 'No test copies or pickles an object, and none reuses an argument array after handing it over.',
 [S+'splines.py',S+'multilinear.py','interpolation/smolyak/grid.py','interpolation/smolyak/interp.py','interpolation/complete_poly.py'],[('new coefficients replace, never overwrite, the old ones',S+'splines.py: set_values; smolyak/interp.py: update_theta; complete_poly.py: fit_values'),('arguments are copied',S+'splines.py: __init__; smolyak/grid.py: SmolyakGrid.__init__')],
 obs=['CubicSpline(s)','LinearSpline(s)','SmolyakInterp','CompletePolynomial','copy, pickle'])
p('C24','Chebyshev and index building blocks of the Smolyak module are right',
 "The functions the Smolyak construction is built from, which are public, follow their definitions for every level, degree, dimension and density: the number of nodes of a level, the nested Chebyshev extrema and the new extrema and polynomials of each level (disjoint, together the whole set), Chebyshev polynomials of both kinds at arrays of any shape, each distinct ordering of a list exactly once, the level vectors, the polynomial indices and points in matching order, and basis matrices with gradients for any batch of locations and any given, reordered or partial index list.",
 ['inputs'],'all levels, degrees, multisets, densities and index lists',
 'Tests only reach them through two-dimensional grids of small density.',
 ['interpolation/smolyak/grid.py','interpolation/smolyak/util.py'],[('definitions','interpolation/smolyak/grid.py: m_i, s_n, a_chain, phi_chain, cheby2n, chebyvalto, smol_inds, poly_inds, build_grid, build_B'),('distinct orderings','interpolation/smolyak/util.py: permute')],obs=['functions of interpolation.smolyak.grid','interpolation.smolyak.util.permute'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch); assert len(x['title'])<=80,x['id']
