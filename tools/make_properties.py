import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe}
    if state: a["state"]=[{"name":n} for n in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
U="src/tfc/utils/"
p("C01","Constrained expressions satisfy their constraints for every free function",
  "For every set of constraints (values, derivatives, integrals, relative and linear combinations, in one or several variables) whose support matrix is invertible, the constrained expression that CeSolver returns satisfies every constraint exactly, whatever function is substituted for the free function. It leaves any free function that already satisfies the constraints unchanged, and differs from the free function only by a combination of the support functions.",
  ["inputs","programs"],"all constraint sets, support functions with an invertible support matrix, kappas, and all free functions",
  "The tests solve a few textbook constraint sets and compare with one expected formula; the guarantee is over all constraint sets and all free functions.",
  [U+"CeSolver.py"],[("constrained expression from switching functions and projection functionals","CeSolver._solveCe, S, alpha, phi, rho")],["CeSolver.ce"])
p("C02","CeSolver stays consistent under any history of gets and sets",
  "After any sequence of reading and setting C, kappa, s, g, phi and ce, every quantity read from a CeSolver (S, alpha, phi, rho, ce) equals what a fresh solver built from the current inputs gives, where a phi or ce the user has set is kept until an input it depends on is changed. checkCe returns True exactly when the stored constrained expression satisfies the stored constraints, and reading a quantity never changes any other quantity or the lists the user passed in.",
  ["histories"],"all sequences of property reads and assignments on a CeSolver",
  "Stale caches need a particular order of reads and writes; the tests only construct, read once and set one value.",
  [U+"CeSolver.py"],[("stale flags of the cached quantities","CeSolver property getters and setters")],["CeSolver.S","CeSolver.alpha","CeSolver.phi","CeSolver.rho","CeSolver.ce","CeSolver.checkCe"],["_ce_stale","_S_stale","_alpha_stale","_phi_stale","_rho_stale"])
p("C03","Printed constrained expressions are code with the same value",
  "The Python code that the \"tfc\" print type produces for an expression (free functions of several variables, their partial and mixed derivatives, evaluations at constants or other symbols, and elementary functions and constants) evaluates, with NumPy or jax.numpy as np and egrad in scope and numbers that appear as arguments of a free function taken as constant arrays, to the value of the expression at every point. Creating or using the printer does not change what SymPy's own printers print.",
  ["programs","inputs"],"all printable expressions and all evaluation points",
  "The tests compare a few printed strings; the guarantee is about the value of arbitrary generated code.",
  [U+"CeSolver.py"],[("code printer","TfcPrinter"),("print type selection","CeSolver.print_type")],["TfcPrinter().doprint"])
p("C04","Univariate basis functions and their derivatives match their definition",
  "For every basis (Chebyshev, Legendre, Laguerre, both Hermite families, Fourier series, and the ELM activations with the instance's own weights and biases), either backend, every domain, number of functions and derivative order (up to 8 for the C++ sigmoid, tanh and swish ELMs), each entry of the basis matrix is that derivative, with respect to the problem variable, of that basis function at that point. The entries do not depend on how many or which other points, columns or derivative orders are evaluated with them, and points outside the domain are extrapolated by the same formula.",
  ["inputs","configurations"],"all bases, backends, domains, degrees, derivative orders and points",
  "The tests sample one degree and domain and low derivative orders per basis; recurrences go wrong at specific degree/order combinations.",
  [U+"BF.cc",U+"BF_Py.py","src/tfc/utfc.py"],[("recurrences","BF.cc *::Hint"),("Python recurrences","BF_Py.py *._Hint"),("chain rule factor c^d","BasisFunc::H")],["utfc.H","utfc.dH","utfc.d2H","utfc.d4H","utfc.d8H","BF.*.H"])
p("C05","Multivariate basis functions and partial derivatives match their definition",
  "For every multivariate basis, either backend, any number of dimensions, domain, degree and tuple of derivative orders, each column of the basis matrix is the requested partial derivative of one product of univariate basis functions of total degree at most deg (dimension 0 varying fastest), each such product occurring exactly once; for ELMs it is the derivative of the activation of the weighted sum of all mapped coordinates plus the bias. The named derivatives of mtfc (Hx, Hy, Hz, Hxy, Hx2, Hy2, Hx2y) are the partial derivatives their names say.",
  ["inputs","configurations"],"all bases, backends, dimensions, domains, degrees, derivative tuples and points",
  "The tests check two or three dimensions with one degree; index enumeration and per-dimension scaling go wrong in particular dimension/degree/order combinations.",
  [U+"BF.cc",U+"BF_Py.py","src/tfc/mtfc.py"],[("tensor product recursion","nBasisFunc::H / RecurseBasis, BF_Py nBasisFunc.H"),("n-dimensional ELM derivatives","nELM*::nHint")],["mtfc.H","mtfc.Hx","mtfc.Hxy","BF.n*.H"])
p("C06","The C++ and Python backends are interchangeable",
  "A utfc or mtfc built with the same arguments (and, for ELMs, the same weights and biases) has the same collocation points, mapping constants, number of columns and basis matrices of every supported derivative order with either backend, for every accepted form of the arguments. On the Python backend, complex domains, points, weights and biases give the analytic continuation of the same functions and derivatives, with complex results.",
  ["inputs","configurations"],"all constructor arguments in every accepted form, all points and orders",
  "The two backends are separate implementations; tests compare each with a separate reference on a few samples only.",
  [U+"BF.cc",U+"BF_Py.cc",U+"BF_Py.py","src/tfc/utfc.py","src/tfc/mtfc.py"],[("two implementations","BF_Py.py versus BF.cc"),("argument normalisation","utfc.__init__, mtfc.__init__")],["utfc.H","mtfc.H","utfc.x","mtfc.x","basisClass.c"])
p("C07","nC removes exactly the requested basis functions",
  "For every form of nC (integer, list, tuple, NumPy or JAX array; per dimension for mtfc, with -1 or 0 for none), the basis matrix is the full matrix without exactly the requested columns, in the original order, for every derivative order; for products of univariate functions a column is removed if and only if its index is listed in every dimension. The advertised numbers of basis functions agree with the matrices, and full=True always gives all columns.",
  ["inputs","configurations"],"all nC values and forms, bases, degrees, dimensions, derivative orders, eager and compiled",
  "There are exponentially many index sets and several ways to give them; tests use two or three.",
  ["src/tfc/utfc.py","src/tfc/mtfc.py",U+"BF.cc",U+"BF_Py.py"],[("column removal","BasisFunc::H, nBasisFunc::H, nELM::H"),("nC normalisation","utfc.__init__, mtfc.__init__")],["utfc.H(full=...)","mtfc.H(full=...)","basisClass.numBasisFunc","basisClass.m","basisClass.numC"])
p("C08","Compiled evaluation equals eager evaluation for every live instance",
  "A function using the basis matrices of any number of utfc and mtfc objects gives the same result under jax.jit (C++ backend) as when it is run eagerly, for every array length, derivative order and full flag, including when constants are folded, inside lax.scan, while_loop, cond or vmap, and when the compiled function is called again after other objects were created, changed or dropped. Each compiled call uses the instance, derivative order and column selection it was traced with, and ELM weights set before the call.",
  ["inputs","histories","programs"],"all programs over H calls of several instances, all creation and call orders",
  "Compiled calls find their instance through a global identifier table; mix-ups need many instances or a particular order of creation and calls.",
  ["src/tfc/utfc.py","src/tfc/mtfc.py",U+"BF.cc",U+"BF.h",U+"BF_Py.cc"],[("identifier table","BasisFunc::BasisFuncContainer, identifier"),("XLA entry points","BasisFunc::xla, nBasisFunc::xla"),("lowering","utfc._SetupJax H_xla, mtfc.SetupJAX H_xla")],["jax.jit of functions calling H"])
p("C09","Automatic differentiation equals the analytic derivatives",
  "Differentiating any function of the basis matrices with JAX or egrad (jvp, jacfwd, grad, nested, mixed in any order of the variables, with respect to points or coefficients, under jit and vmap, with zero, constant or traced tangents) gives the true derivative, i.e. the result of evaluating the higher-order basis matrices by the chain rule. This holds for every element of the tangent, for both utfc and mtfc.",
  ["programs","inputs"],"all compositions of derivatives over H and all tangents",
  "Derivative rules are code paths chosen by tangent kind, shape and order; tests take a few derivatives of one constrained expression.",
  ["src/tfc/utfc.py","src/tfc/mtfc.py",U+"TFCUtils.py"],[("jvp rules","H_jvp in utfc._SetupJax and mtfc.SetupJAX"),("batching rules","H_batch"),("elementwise gradient","egrad, egradRobust")],["egrad(...)","jax.jvp","jax.jacfwd"])
p("C10","Collocation points cover the domain and match the mapping",
  "For every N of at least 2, basis and domain (increasing or decreasing, any number of dimensions and points per dimension, default x0 included), the object has exactly the requested number of points: Chebyshev-Gauss-Lobatto points for Chebyshev and Legendre, equally spaced for the others, from x0 to xf in order and inside the domain up to rounding, and z is the affine image of x under the constant c. In several dimensions the points are the full tensor grid, each combination once, with dimension 0 varying slowest.",
  ["inputs","configurations"],"all N (or tuples n), bases, domains and dimensions, both backends",
  "Tests use one or two grids; ordering and end points go wrong for unequal n, decreasing domains or many dimensions.",
  ["src/tfc/utfc.py","src/tfc/mtfc.py"],[("collocation points","utfc.__init__, mtfc.__init__")],["utfc.x","utfc.z","utfc.c","mtfc.x","mtfc.z","mtfc.c"])
p("C11","The native code has no memory errors or undefined behaviour",
  "No sequence of creating, evaluating (directly or through its compiled entry point), copying weights of, and destroying basis objects of any kind, size, dimension and nC, with input arrays of any layout, length (including 0 and 1) and number type that the bindings accept, makes the C++ extension read or write outside its buffers, use freed or uninitialised memory, overflow an integer, leak the object's arrays or end the process. Inputs of a wrong size raise a Python exception instead.",
  ["inputs","histories","configurations"],"all object kinds and sizes, all input arrays and all call sequences",
  "Memory errors are usually silent in tests; the results still come out right.",
  [U+"BF.cc",U+"BF.h",U+"BF_Py.cc"],[("raw buffers","BF.cc new/delete, nBasisFunc, nELM"),("binding conversions","BF_Py.cc")],["the extension under AddressSanitizer, UBSan and a heap accounting monitor"])
p("C12","Concurrent use of the extension is safe",
  "When several threads evaluate compiled basis functions, of the same or different objects, while other threads create and destroy objects, there are no data races inside the extension, no crashes and no deadlocks. Every evaluation returns the same result as it would alone.",
  ["schedules"],"all interleavings of evaluations, constructions and destructions",
  "The tests are single threaded.",
  [U+"BF.cc",U+"BF.h"],[("shared instance table and its lock","BasisFunc::BasisFuncContainer"),("XLA entry points","BasisFunc::xla, nBasisFunc::xla")],["the extension under ThreadSanitizer; results per thread"],["BasisFuncContainer","nIdentifier"])
p("C13","Evaluations are pure and instances are independent",
  "Evaluating a basis matrix never changes its arguments, the object or any other object: the same call gives the same result at any later time, whatever other objects were created, evaluated, changed or garbage collected in between, and results already returned never change. Changing the weights or biases of one ELM affects only that ELM, takes effect in the next evaluation, and arrays passed to a constructor or setter by the user are not modified.",
  ["histories"],"all interleavings of operations on any number of objects",
  "Needs particular histories over several objects; tests use one object at a time.",
  ["src/tfc/utfc.py","src/tfc/mtfc.py",U+"BF.cc",U+"BF_Py.cc",U+"BF_Py.py"],[("object state","BasisFunc, ELM, nELM members and setters"),("returned arrays own their memory","BF_Py.cc H")],["utfc.H","mtfc.H","basisClass.w","basisClass.b"])
p("C14","Linear least-squares returns the minimiser in the structure of the guess",
  "For every residual that is affine in its unknowns, LS and LsClass.run return the least-squares minimiser of the residual (the exact solution when there is one; the pinv and lstsq minimum-norm solution for rank-deficient problems when starting from zero), in the container type, key order and shapes of the guess, with either method, with or without timer, a user Jacobian, extra arguments or constant_arg_nums, and without changing the arguments. LsClass.run gives that result for the arguments of each call, however many calls were made before, and ScaledQrLs returns the least-squares solution of every full-rank system, one column per right-hand side.",
  ["inputs","histories","configurations"],"all affine residuals, containers, option combinations and call sequences",
  "Many option combinations share code paths; tests solve one problem with the defaults.",
  [U+"TFCUtils.py"],[("linear least-squares","LS, LsClass"),("scaled QR","ScaledQrLs, _MatPinv"),("container arithmetic","TFCDict, TFCDictRobust")],["LS","LsClass.run","ScaledQrLs"])
p("C15","Nonlinear least-squares follows its stopping rule and returns its last iterate",
  "NLLS and NllsClass.run perform Gauss-Newton steps from the given start and stop at the first iterate where the largest residual is at most tol, the largest component of the last step is at most tol, or maxIter steps were made; they return that iterate and the number of steps, in the container of the guess. Method, timer, printing, constant_arg_nums, the container type, and earlier calls do not change the result, a user-given Jacobian, cond or body function is used as given, printing reports each iteration's number and residual, and the arguments are not modified.",
  ["inputs","histories","configurations"],"all residual functions, starts, tolerances, iteration limits and options",
  "Off-by-one and stopping errors leave converged answers right; tests only look at the converged answer.",
  [U+"TFCUtils.py"],[("Gauss-Newton loop","NLLS, NllsClass: cond, body, run")],["NLLS","NllsClass.run","printed iterations"])
p("C16","Partial evaluation preserves meaning",
  "For every function, argument list (arrays, numbers, dictionaries, TFCDicts and nested containers) and set of constant argument numbers in any order, the function that pe and pejit return gives, for all values of the remaining arguments in their original order, the same result in the same structure as calling the original function with the constants in place, and so do its derivatives. The constant part is evaluated once, when pe is applied, and neither the arguments nor constant_arg_nums are modified.",
  ["programs","inputs"],"all functions, argument structures and constant argument sets",
  "Argument reordering and structure handling depend on the combination; tests use one constant argument.",
  [U+"TFCUtils.py"],[("partial evaluation","pe, pejit")],["pe(...)(f)","pejit(...)(f)"])
p("C17","TFCDict and TFCDictRobust behave as ordered vectors",
  "For every ordered set of keys and arrays and every history of insertions, deletions, replacements and reorderings, toDict(toArray()) gives the dictionary back (keys in order, shapes for TFCDictRobust), toArray concatenates the values in key order, and +, -, += and -= with a dictionary, an equal-length flat NumPy or JAX array or another TFCDict act element by element on the right keys. Operands other than the target are unchanged, no result shares storage such that changing one changes the other, and the types survive JAX transformations (jit, jacfwd, tree_map) with keys, order and shapes intact.",
  ["histories","inputs"],"all key sets, shapes, operands and operation sequences",
  "Key order and slices depend on history; tests use one dictionary shape.",
  [U+"TFCUtils.py"],[("slices and arithmetic","TFCDict, TFCDictRobust"),("pytree registration","register_pytree_node calls")],["toArray","toDict","arithmetic operators"])
p("C18","Component constraint graphs list exactly the valid embeddings",
  "For every list of nodes and component constraints between distinct nodes, targets lists every orientation of the edges once and goodTargets lists exactly the orientations without directed cycles, in increasing order. SaveGraphs writes one page and one drawing per listed (or, on request, every) orientation, each showing all nodes and every edge with its name and direction, and an index page that links every one of them.",
  ["inputs"],"all multigraphs on named nodes",
  "Tests do not cover it; cycles of length > 2, parallel edges and isolated nodes each need their own graph.",
  [U+"TFCUtils.py",U+"Html.py"],[("orientation enumeration and cycle test","ComponentConstraintGraph.__init__"),("drawings","ComponentConstraintGraph.SaveGraphs, Html.HTML, Html.Dot")],["targets","goodTargets","files written by SaveGraphs"])
p("C19","egrad is the elementwise derivative and step has zero derivative",
  "For every elementwise function of several array (or, for the robust version, nested dictionary) arguments, egrad(f, j) is the derivative with respect to argument j at every element, nested and mixed in any order, eagerly, under jit and of jitted functions, for arrays of any shape, without evaluating other arguments' derivatives into it. step(x) is 0 for x <= 0 and 1 for x > 0, and every derivative of it is 0 everywhere, including at the jump.",
  ["programs","inputs"],"all elementwise functions, argument numbers, shapes and nesting orders",
  "Tests check one step function and polynomial derivatives of basis matrices.",
  [U+"TFCUtils.py"],[("elementwise derivatives","egrad, egradRobust, onesRobust, zerosRobust"),("unit step","step")],["egrad","egradSimple","step"])
p("C20","Problems solved with the package satisfy constraints and reach the true solution",
  "For every well-posed problem in the documented workflow (a constrained expression from utfc/mtfc basis matrices, residuals by egrad, LS or NLLS with or without TFCDict), the constraints hold to rounding error for every coefficient vector, not only the converged one, and the solved function converges to the true solution: problems whose solution lies in the span of the basis are solved to near machine accuracy. The result does not depend on the backend, the compilation path, constant_arg_nums or the container used.",
  ["inputs","configurations"],"all linear and nonlinear boundary and initial value problems with solutions in the spanned space",
  "Tests solve about ten fixed problems with fixed parameters.",
  ["src/tfc/utfc.py","src/tfc/mtfc.py",U+"TFCUtils.py",U+"BF.cc",U+"BF_Py.py"],[("whole workflow","utfc/mtfc + egrad + LS/NLLS")],["constrained expressions and LS/NLLS results"])
p("C21","HybridUtfc concatenates its parts for every derivative",
  "For every list of utfc objects with the same number of points, each matrix of HybridUtfc (H, dH, d2H, d3H, d4H, d8H, with or without full) is the horizontal concatenation, in list order, of the parts' basis matrices of that derivative order at the same points, eagerly, under jit and under differentiation. The parts stay usable on their own and a list whose parts have different numbers of points is refused.",
  ["inputs","configurations"],"all lists of parts, derivative orders and points",
  "There is no test of HybridUtfc.",
  ["src/tfc/utfc.py"],[("concatenation","HybridUtfc")],["HybridUtfc.H","dH","d2H","d3H","d4H","d8H"])
p("C22","LaTeX tables contain every number once, in place and in the given format",
  "For every 2-D array, number format and optional row and column headers, the table text parses as a LaTeX tabular whose column count covers the header column, whose rows hold the row header and then exactly the array's entries in order formatted with the given format, with the column headers above them, and balanced begin/end environments.",
  ["inputs"],"all arrays (any shape, NaN and infinities, integers), formats and headers",
  "There is no test of it.",
  [U+"Latex.py"],[("table text","Latex.table")],["table.SimpleTable"])
p("C23","Plot helpers put labels, data and files where asked",
  "For every rectangular arrangement of labels, given as a string, list, tuple or array, MakePlot creates exactly one subplot per non-empty (not None) position, and the Plotly version one per position, each in its place with its own x, y, z and twin labels and title. Saving writes the requested file type under the requested name, pickling restores an equivalent figure, and animate writes one numbered frame per generator step, showing the plot after that step. In the Plotly version traces and views apply to the chosen subplot only, and colour scales are normalised over the chosen trace types to the given limits or to those of the named data, which are preserved.",
  ["inputs","configurations"],"all label arrangements, options and output formats",
  "There are no tests of the plot helpers.",
  [U+"MakePlot.py",U+"PlotlyMakePlot.py"],[("subplot creation","MakePlot.__init__ (both)"),("saving","MakePlot.save, savePickle, saveAll, animate"),("Plotly options","PlotlyMakePlot")],["fig, ax, twinAx, written files"])
p("C24","Invalid requests are refused, valid ones are not",
  "An unknown basis, backend, method or print type, more removed functions than the degree allows, numbers of functions that do not exist and negative numbers in a univariate or ELM nC list, and n, nC, x0 or xf whose length differs from the number of dimensions, points of the wrong rank or count, or ELM weights of the wrong size, are refused with an error (an exception or the documented exit with a message) before any result is returned, and objects made before stay usable. The nearest valid requests, at the limits, are accepted.",
  ["inputs"],"all invalid and boundary arguments",
  "Tests only use valid arguments.",
  ["src/tfc/utfc.py","src/tfc/mtfc.py",U+"TFCUtils.py",U+"CeSolver.py",U+"BF_Py.cc"],[("argument checks","utfc.__init__, mtfc.__init__, LS, NLLS, CeSolver.print_type, BF_Py.cc")],["raised exceptions and exits"])
p("C25","Checkpoints ask CRIU for exactly what was requested",
  "For every directory name (with spaces, quotes or shell characters, relative or absolute, existing or not) criuCheckpoint creates the directory if needed, keeps what it held, starts in the background exactly one dump of the calling process into exactly that directory, leaving the process running, with sudo unless user_mode asks for an unprivileged dump, and prints a command that restores from that directory. Nothing else is run or written, and it returns without waiting for the dump.",
  ["inputs","configurations","histories"],"all directory names, both modes, repeated calls",
  "There is no test of it, and it needs CRIU; what reaches the shell depends on the name.",
  [U+"TFCUtils.py"],[("shell command","criuCheckpoint")],["arguments criu and sudo receive, files, printed restart command"])
p("C26","The Mayavi plot helper passes on exactly what was asked for its own figure",
  "For every history of calls on any number of Mayavi plots, each drawing call, view, size, save and show reaches Mayavi once, with the given data and options unchanged, for that plot's own figure, and returns what Mayavi returned; colours given by any Matplotlib name become their RGB values. Colour tables run linearly from the first to the last colour, saving writes the requested name and type (the type in the name, or pdf with a warning, if none is given), and animate writes one numbered frame after each generator step.",
  ["inputs","histories","configurations"],"all call histories, colours, names, types and generators",
  "There is no test of it, and it needs Mayavi and a screen.",
  [U+"MayaviMakePlot.py"],[("delegation to Mayavi","MayaviMakePlot.MakePlot")],["calls Mayavi receives, files written"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
