import json
P=[]
def p(id,title,st,over,text,why,files,mech,obs=None,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title)); assert st.count('. ')<=2,(id,st.count('. '))
    P.append(d)
C='include/fastad_bits/reverse/core/'; S='include/fastad_bits/reverse/stat/'
p('C01','Reverse-mode gradient of any composed program is the exact VJP',
 "For every well-formed expression built from variables, constants and the library's operations, in any composition, shape and size, back-evaluating with a seed adds to each participating variable's adjoint exactly the vector-Jacobian product of that seed (up to floating-point rounding). This holds when a variable occurs many times, and for every seed, not only 1.",
 ['programs','inputs'],'every composition of supported operations, every shape and dimension, every finite differentiable point, every seed, every initial adjoint',
 'The unit tests check a few dozen fixed expressions at fixed points, mostly depth 1 or 2, with hand-derived gradients; the claim is about every composition.',
 [C+'unary.hpp',C+'binary.hpp',C+'eval.hpp',C+'var_view.hpp',C+'bind.hpp'],
 [('UnaryNode/BinaryNode::beval pass seed * partial derivative to their operands',C+'unary.hpp, '+C+'binary.hpp'),('VarViewBase::beval accumulates into the adjoint',C+'var_view.hpp')],
 ['adjoint memory of the variables after autodiff/evaluate_adj'],
 [('val/adj cache','values and seeds of intermediate nodes between the two passes',C+'value_adj_view.hpp')])
p('C02','Forward values are right and every public evaluation route agrees',
 "Evaluating an expression gives its mathematical value in the shape it denotes (up to floating-point rounding). The value and the gradient are the same whichever public route is used: autodiff or evaluate followed by evaluate_adj, on a manually bound expression, on the result of ad::bind kept as an lvalue, copied, or used as a temporary.",
 ['programs','inputs'],'every supported expression, every input, every public evaluation entry point',
 'Tests use one route per expression and few expressions; agreement of all routes over all expressions is never asked.',
 [C+'eval.hpp',C+'bind.hpp',C+'unary.hpp',C+'binary.hpp'],
 [('evaluate/evaluate_adj/autodiff overloads for expressions and ExprBind',C+'eval.hpp'),('ExprBind allocates and binds the cache',C+'bind.hpp')],
 ['returned value of evaluate/autodiff','adjoint memory of the variables'])
p('C03','Every unary function has the right value and derivative on its domain',
 "For each unary function (minus, sin, cos, tan, asin, acos, atan, exp, log, sqrt, erf, sigmoid, sinh, cosh, tanh) applied to a scalar, vector or matrix variable or expression, every element of the result is the function of that element and every element of the gradient is the seed times the mathematical derivative there. This includes points close to the ends of the domain and large arguments, where a finite true value or derivative must not turn into NaN or infinity.",
 ['inputs'],'every element value in the domain of the function (including extremes), every shape and size, every seed',
 'Tests evaluate each function at one or two points per shape; the domain ends and large arguments are not sampled.',
 [C+'unary.hpp'],[('one fmap/bmap pair per function',C+'unary.hpp')],['value and adjoint of the operand'])
p('C04','Binary operators broadcast correctly in value and gradient',
 "For + - * / on any legal combination of scalar, vector and matrix operands (variables, constants of any arithmetic type, or expressions; the two operands may be the same variable), the value is element-wise with scalar broadcasting and each operand receives its element-wise partial derivative times the seed, summed over the broadcast when the operand is scalar. Comparisons and logical operators give the element-wise boolean value and contribute nothing to any adjoint.",
 ['inputs','programs'],'every operator, every legal shape pair and operand kind, every size, value and seed',
 'Tests cover a handful of shape pairs with variables only and one seed; constants on either side, mixed arithmetic types and aliased operands are rarely combined.',
 [C+'binary.hpp','include/fastad_bits/util/value.hpp','include/fastad_bits/util/shape_traits.hpp'],[('Add/Sub/Mul/Div functors sum the seed for a broadcast scalar',C+'binary.hpp')],['value and operand adjoints'])
p('C05','Placeholders and glued statements behave as if inlined',
 "A sequence of statements joined by the comma operator, in which placeholders are assigned expressions and used afterwards any number of times, has the value of its last statement and gives every differentiable variable the same gradient as the single expression obtained by substituting each placeholder by its definition. After evaluation each placeholder holds the value of its definition, and re-evaluating after resetting the adjoints gives the same answer again.",
 ['programs','inputs','histories'],'every statement sequence over placeholders of any shape, any nesting and re-use, any inputs, repeated evaluation',
 'Tests glue two or three fixed statements; the number of programs (re-use, chains, mixed shapes, reductions of placeholders) is unbounded.',
 [C+'eq.hpp',C+'glue.hpp',C+'var_view.hpp'],[('EqNode binds the root of its right-hand side to the memory of the placeholder',C+'eq.hpp'),('GlueNode back-evaluates the right statement with the seed and the left with 0',C+'glue.hpp')],['gradients of variables, values of placeholders'])
p('C06','Compound assignments differentiate as rebinding and restore the variable',
 "In a statement sequence, x += e, -= , *= and /= (e may mention x and may be a scalar for a multi-dimensional x) behave as redefining x by the corresponding expression: later statements see the new value, and the gradient that reaches every variable, x's original value included, is that of the inlined program. After the backward pass every such variable holds again, exactly, the value it had before the forward pass.",
 ['programs','inputs','histories'],'every sequence of compound assignments, chained and repeated on the same variable, every shape, value and seed, repeated evaluation',
 'Tests run each operator once on simple right-hand sides; chains, self-reference and repeated evaluation need many programs.',
 [C+'eq.hpp',C+'glue.hpp'],[('OpEqNode saves the previous left-hand side and restores it in beval',C+'eq.hpp')],['values and adjoints of the assigned variables after forward and after backward evaluation'])
p('C07','Reductions and iterations are exact, including zeros and single elements',
 "sum, prod and norm of a vector or matrix expression (norm is the sum of squares), and sum, prod and for_each over a range with a functor, have the value and gradient of the written-out sum, product, sum of squares or statement sequence, for every length. The gradient of a product is the product of all the other factors even when one, several or all factors are zero.",
 ['inputs','programs'],'every length (1 included; empty ranges for sums), every shape of element, every placement of zeros, every functor, every seed',
 'Tests use short fixed ranges and at most a couple of zero placements.',
 [C+'sum.hpp',C+'prod.hpp',C+'norm.hpp',C+'for_each.hpp'],[('zero counting in the prod nodes',C+'prod.hpp'),('cached adjoint broadcast to each element',C+'sum.hpp')],['value and adjoints of all elements'])
p('C08','Integer powers are exact for every exponent, base and shape',
 "pow<n>(x) equals x multiplied n times (1 for n = 0, the reciprocal for negative n) and its gradient is n*x^(n-1) times the seed, element by element, for every integer n and scalar, vector or matrix x, for negative bases and, when n >= 0, for zero bases. By the documented convention 0^0 is 1, and a zero base with negative exponent gives an infinite value.",
 ['inputs'],'every exponent, base (sign, zero, magnitude), shape, size and seed',
 'Tests use a few exponents at a few bases.',
 [C+'pow.hpp'],[('PowFunc recursive squaring; PowNode::beval divides by the base except at 0',C+'pow.hpp')],['value and adjoint'])
p('C09','Matrix products and transposes have the exact value and gradient',
 "dot(A, B) is the matrix product for every conformable matrix-matrix and matrix-vector pair and transpose(A) the transpose, for every shape (1xn, nx1, tall, wide), and their gradients are seed*B', A'*seed and the transposed seed. This holds for variables, constants and nested expressions on either side, also when both operands are the same variable.",
 ['inputs','programs'],'every dimension triple, operand kind, nesting and seed matrix',
 'Tests fix two or three small shapes and mostly reduce to a scalar first.',
 [C+'dot.hpp',C+'transpose.hpp'],[('DotNode::beval',C+'dot.hpp'),('TransposeNode::beval',C+'transpose.hpp')],['value and adjoints'])
p('C10','Determinant and log-determinant are exact for every decomposition policy',
 "det(A) and log_det(A) = log|det A| with any of the offered decompositions give the determinant's value and the gradient det(A)*inv(A)' respectively inv(A)' times the seed, for every matrix that is valid for the decomposition (invertible for full-pivoting LU, symmetric definite for LDLT, symmetric positive definite for LLT), of either determinant sign where applicable. A matrix the decomposition rejects (singular; for LLT not positive definite) leaves every adjoint untouched, a singular one having value 0 (respectively -infinity) under LU and LDLT, and the next evaluation with a valid matrix is right again.",
 ['inputs','histories'],'every size, valid or singular matrix, decomposition, seed, and alternation of valid and singular evaluations',
 'Tests use one 2x2 or 3x3 matrix per policy.',
 [C+'det.hpp',C+'log_det.hpp'],[('DetFullPivLU/DetLDLT/DetLLT and their log variants: fmap, bmap, valid',C+'det.hpp, '+C+'log_det.hpp')],['value and adjoint'],
 [('decomposition and its validity flag','state kept from the forward to the backward pass',C+'det.hpp')])
p('C11','if_else evaluates and differentiates exactly the chosen branch',
 "if_else(c, a, b) has the value and shape of a when c is true and of b otherwise, its gradient is entirely that of the chosen branch, and neither the condition's variables nor those occurring only in the branch not chosen receive any adjoint. The choice is made anew at each evaluation and if_else may be used like any other expression inside larger ones.",
 ['inputs','programs','histories'],'every condition (comparisons, logical combinations, constants, ties), branch expression, shape, nesting and sequence of evaluations that flips the choice',
 'Tests evaluate each branch once with fixed values and never flip the condition on the same expression.',
 [C+'if_else.hpp',C+'binary.hpp'],[('IfElseNode::feval/beval test the cached condition',C+'if_else.hpp')],['value, adjoints of all variables mentioned'])
p('C12','Statistical log-densities are exact inside their support',
 "Inside the support, the normal, cauchy, uniform, bernoulli and wishart log-density expressions equal the log-density with its normalising constant (the terms in which no argument, or only the degrees of freedom, occurs) omitted, for every combination of scalar, vector (and matrix) arguments the library accepts and every mix of variables, constants and expressions. Each variable argument receives seed times the partial derivative, summed when a scalar argument serves many samples.",
 ['inputs','programs'],'every distribution, shape combination, variable/constant combination, size, value inside the support, seed',
 'Tests use one small sample per combination, mostly with seed 1, and not all constant/variable mixes.',
 [S+'normal.hpp',S+'cauchy.hpp',S+'uniform.hpp',S+'bernoulli.hpp',S+'wishart.hpp'],[('one node specialisation per shape combination, each with hand-written gradients and caches of constant arguments',S)],['value and adjoints of the arguments'])
p('C13','Out-of-support densities are -inf without gradient, and recover',
 "When a sample or parameter lies outside the support (including exactly on an excluded boundary: non-positive scale, sample not strictly between uniform bounds, impossible or non-0/1 bernoulli outcome, matrix not positive definite, too few degrees of freedom), the log-density is -infinity and back-evaluation adds nothing to any argument (for a vector of bernoulli probabilities, to none of the responsible ones); probabilities outside (0,1) are clipped, so a certain bernoulli outcome has value 0. A later evaluation of the same expression inside the support is exact again, and the other way round.",
 ['inputs','histories'],'every distribution and argument mix, every way of leaving the support (which element, boundary or far), every alternation of inside and outside evaluations of one expression',
 'Tests check one invalid argument per distribution once, on a fresh expression; recovery on the same expression is not tested.',
 [S+'normal.hpp',S+'cauchy.hpp',S+'uniform.hpp',S+'bernoulli.hpp',S+'wishart.hpp'],[('within_range/valid guards and cached flags in feval and beval',S)],['value and adjoints over a sequence of evaluations'],
 [('cached range flags, logs, decompositions','valid only if refreshed whenever a non-constant argument changes',S)])
p('C14','An expression uses exactly the cache it asks for',
 "For every expression, binding it to value and adjoint storage of exactly the announced sizes is sufficient: binding consumes exactly those sizes, evaluation in both directions reads and writes no element outside them, and distinct simultaneously live intermediates never share storage. The announced sizes do not change by binding or evaluating, and the expression may be bound again to other storage at any time before a forward evaluation.",
 ['programs','inputs'],'every expression of every shape and size, every alignment and content of the storage, any number of re-bindings',
 'Tests check bind_cache_size for a few nodes and never watch memory accesses at the ends of the storage.',
 [C+'bind.hpp',C+'eq.hpp',C+'value_adj_view.hpp',C+'value_view.hpp'],[('bind_cache/bind_cache_size/single_bind_cache_size of each node','every node header')],['pointers returned by bind_cache','guard zones around the storage'])
p('C15','No use of the library triggers undefined behaviour',
 "Building, binding, evaluating forwards and backwards, copying, moving and destroying well-formed expressions and variables never performs an invalid, out-of-bounds, misaligned or use-after-lifetime memory access, never depends on uninitialised memory and triggers no other undefined behaviour. This includes returned values of temporaries and expressions that outlive the Var handles' scope only through views onto still-living memory.",
 ['programs','inputs','histories'],'every supported expression, size (1 and odd sizes included), storage alignment and API call sequence',
 'The test build runs without sanitizers and its storage is oversized or default-aligned, so violations pass unnoticed.',
 [C+'value_view.hpp',C+'var.hpp',C+'eval.hpp',C+'bind.hpp',C+'unary.hpp'],[('Eigen maps re-seated over caller-owned storage',C+'value_view.hpp')],['AddressSanitizer/UndefinedBehaviorSanitizer reports, results under differently filled storage'])
p('C16','Results depend only on current inputs: no history, additive adjoints',
 "Each evaluation of one bound expression gives the value and gradient determined by the current values of its variables and the seed alone, whatever was evaluated with it before, with whatever values and seeds. Back-evaluation adds to existing adjoints (never overwrites), is linear in the seed, may be repeated after one forward evaluation for expressions without assignments, and a zero seed changes nothing.",
 ['histories','inputs'],'every sequence of forward and backward evaluations with changing values, seeds and adjoint resets on the same expression',
 'Tests almost always evaluate a fresh expression once with zero adjoints and seed 1.',
 [C+'var_view.hpp',C+'eval.hpp',C+'unary.hpp',C+'binary.hpp',S],[('nodes overwrite their cached value and seed at each pass; leaves accumulate',C+'var_view.hpp')],['values and adjoints after each step of a history'])
p('C17','Evaluation touches nothing but its outputs',
 "Forward and backward evaluation never change the value of a variable the expression only reads, any constant or memory viewed as a constant, the seed, or any variable that does not occur in the expression; forward evaluation changes no adjoint of any variable. Evaluating one expression never disturbs another one that is bound to different storage, even when both share variables.",
 ['programs','inputs','histories'],'every expression and input, every interleaving of evaluations of several expressions sharing variables',
 'Tests look only at the variables whose gradient they check, after running one expression.',
 [C+'var_view.hpp',C+'constant.hpp',C+'eval.hpp',C+'bind.hpp'],[('all intermediate state lives in the storage bound to the expression',C+'value_adj_view.hpp')],['all input values, constants, idle variables, other expressions, before and after'])
p('C18','Variables own or view memory faithfully through copy, move and subviews',
 "A Var owns its value and adjoint: after copying, moving, assigning, self-assigning, swapping, or growing a container of Vars, each Var has the expected contents, is independent of the others and stays usable, while every VarView (including element, head and tail subviews) reads and writes exactly the memory it was built over, so gradients with respect to a subview land in the right elements. Copies of expressions and bound expressions are independent of the original's lifetime and evaluate to the same result.",
 ['histories','inputs'],'every sequence of constructions, copies, moves, assignments, subviews and evaluations, every shape and size',
 'Tests copy or move once per shape and take a couple of subviews.',
 [C+'var.hpp',C+'var_view.hpp',C+'bind.hpp'],[('Var rebinds its view after each copy or move',C+'var.hpp'),('head/tail/operator() offset both value and adjoint pointers',C+'var_view.hpp'),('ExprBind copy binds to its own cache',C+'bind.hpp')],['values, adjoints and data pointers against a shadow model'])
p('C19','Constants behave as values of the right shape and never take adjoints',
 "A constant made from any arithmetic value or Eigen vector or matrix, or viewing memory, contributes its value with the right shape in every operation, and an operation on constants only is itself a constant with the same value that the operation gives on variables holding the same numbers. Owned constants keep their value when the source changes or dies, views follow the viewed memory, and no constant ever receives an adjoint or needs cache.",
 ['inputs','programs'],'every operation on constant operands, every value type, shape and mix with variables',
 'Tests have constants in a few operations and hardly ever compare them with the variable version.',
 [C+'constant.hpp',C+'unary.hpp',C+'binary.hpp','include/fastad_bits/util/type_traits.hpp'],[('constant folding in every operation factory when all operands are constant',C),('convert_to_ad maps arithmetic and Eigen types to constants','include/fastad_bits/util/type_traits.hpp')],['values, cache sizes, adjoints of the other operands'])
p('C20','Forward mode propagates the exact directional derivative',
 "For every program over forward variables built from + - * / += and the supported functions, plain numbers entering as constants, the value is the value of the program and the adjoint its directional derivative along the adjoints given to the inputs, for every direction. Operands are never modified except the left side of +=, and x += x and similar aliasing are right.",
 ['programs','inputs'],'every program, point and direction',
 'Tests differentiate a few one-operation programs along unit directions.',
 ['include/fastad_bits/forward/core/forward.hpp','include/fastad_bits/forward/core/dualnum.hpp'],[('FORWARD_UNARY_FUNC/FORWARD_BINARY_FUNC','include/fastad_bits/forward/core/forward.hpp')],['get_value()/get_adjoint() of the result'])
p('C21','Forward and reverse mode agree on every common program',
 "For every scalar program written once over the operations both modes offer, the reverse-mode value equals the forward-mode value and the inner product of the reverse-mode gradient with any direction equals the forward-mode adjoint along it (up to rounding).",
 ['programs','inputs'],'every common program, point and direction',
 'No test runs the two modes on the same program.',
 ['include/fastad_bits/forward/core/forward.hpp',C+'unary.hpp',C+'binary.hpp'],[('the two independent derivative tables','include/fastad_bits/forward/core/forward.hpp, '+C+'unary.hpp')],['values, directional derivatives'])
p('C22','Distinct expressions can be evaluated concurrently',
 "Threads that evaluate and back-evaluate distinct expressions over distinct variables and adjoints, possibly reading the same constants or the same value memory through separate views, never race and each gets the result it would get alone. The library keeps no hidden shared mutable state.",
 ['schedules','programs'],'every interleaving of threads over every supported operation',
 'The tests are single-threaded.',
 [C+'value_adj_view.hpp',C+'unary.hpp',S],[('all state lives in the expression object, its bound storage and the variables',C+'value_adj_view.hpp')],['ThreadSanitizer reports; results against a sequential run'])
p('C23','Repeated evaluation neither leaks nor grows memory',
 "Evaluating, back-evaluating, re-binding, copying and destroying expressions any number of times returns all memory they allocated: live heap memory after N rounds equals that after the first rounds, and nothing is left when expressions and variables are destroyed.",
 ['histories','programs'],'every operation, every number of evaluations, copies and destructions',
 'Tests never measure memory.',
 [C+'bind.hpp',C+'value_view.hpp',C+'det.hpp',C+'for_each.hpp',S+'wishart.hpp'],[('containers and Eigen objects owned by value; placement re-seating of maps without owned resources',C+'value_view.hpp')],['live heap bytes and blocks between rounds, leak reports at exit'])
p('C24','Subexpressions are evaluated in statement order, each once per pass',
 "A forward pass evaluates each subexpression exactly once, with statements of a glued sequence or for_each evaluated left to right and only the chosen branch of if_else; a backward pass visits each evaluated subexpression at most once, in the reverse order of statements, after everything that used it in later statements. User-defined expression types that follow the documented interface can therefore be used anywhere a built-in expression can, and receive the mathematically right seed in the right shape.",
 ['programs','inputs'],'every composition with user-defined leaf and unary expressions, every position and shape',
 'Tests use mock expressions under one node at a time and check values, not traces.',
 [C+'expr_base.hpp',C+'glue.hpp',C+'for_each.hpp',C+'if_else.hpp',C+'sum.hpp',C+'prod.hpp',C+'eq.hpp'],[('ExprBase interface: feval, get, beval, bind_cache, sizes',C+'expr_base.hpp')],['event trace of probe expressions'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
